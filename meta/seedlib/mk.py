#!/usr/bin/env python3
"""mk.py ID PROP 'needs' 'breaks' : diff /tmp/seedwt against HEAD -> seeded/ID (demo.py from stdin)."""
import json, shutil, subprocess, sys
from pathlib import Path
i, prop, needs, breaks = sys.argv[1:5]
d = Path("/verif/seeded") / i
d.mkdir(exist_ok=True)
diff = subprocess.run(["git", "-C", "/tmp/seedwt", "diff"], capture_output=True, text=True, check=True).stdout
assert diff.strip()
(d / "patch.diff").write_text(diff)
(d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
(d / "demo.py").write_text(sys.stdin.read())
(d / "demo.sh").write_text('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
shutil.copy("/verif/meta/seedlib/demolib.py", d / "demolib.py")
