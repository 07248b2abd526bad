"""Runtime-monitoring harness for pypa/auditwheel (see /verif/DESIGN.md)."""
