From bad5256cdb5585577e03db44a0ef769d79609882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 01/37] fix: graft libraries whose file name contains no dot

---
 src/auditwheel/repair.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auditwheel/repair.py b/src/auditwheel/repair.py
index b9ca254..656d624 100644
--- a/src/auditwheel/repair.py
+++ b/src/auditwheel/repair.py
@@ -174,8 +174,8 @@ def copylib(src_path: Path, dest_dir: Path, patcher: ElfPatcher) -> tuple[str, P
         shorthash = hashfile(f)[:8]
 
     src_name = src_path.name
-    base, ext = src_name.split(".", 1)
-    new_soname = f"{base}-{shorthash}.{ext}" if not base.endswith(f"-{shorthash}") else src_name
+    base, dot, ext = src_name.partition(".")
+    new_soname = f"{base}-{shorthash}{dot}{ext}" if not base.endswith(f"-{shorthash}") else src_name
 
     dest_path = dest_dir / new_soname
     if dest_path.exists():
-- 
2.43.0


From f760f2770d4ef288955472f22aac5904e252c0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:52 +0000
Subject: [PATCH 02/37] fix: read RECORD as a CSV file so that member names
 with line separators survive

---
 src/auditwheel/wheeltools.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index 0ac4c3a..d8d4741 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -186,11 +186,10 @@ class InWheelCtx(InWheel):
             msg = "This function should be called from context manager"
             raise ValueError(msg)
         record_name = _dist_info_dir(self.path) / "RECORD"
-        record = record_name.read_text()
-        reader = csv.reader(r for r in record.splitlines())
-        for row in reader:
-            filename = row[0]
-            yield Path(filename)
+        with record_name.open(newline="", encoding="utf-8") as record_file:
+            for row in csv.reader(record_file):
+                filename = row[0]
+                yield Path(filename)
 
 
 def add_platforms(
-- 
2.43.0


From 568a054ebe71199aa73a0b1f7b15372e68c52daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:51 +0000
Subject: [PATCH 03/37] fix: count grafted libraries for the requested policy
 when it is named by its alias

---
 src/auditwheel/wheel_abi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index b377e3a..3db0e03 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -500,7 +500,10 @@ def analyze_wheel_abi(
             (
                 len(e.libs)
                 for e in external_refs.values()
-                if e.policy.name.startswith(f"{requested_policy_base_name}_")
+                if any(
+                    name.startswith(f"{requested_policy_base_name}_")
+                    for name in (e.policy.name, *e.policy.aliases)
+                )
             ),
             default=0,
         )
-- 
2.43.0


From 40ca60a421a2192afbd623008731cc9512297d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:13 +0000
Subject: [PATCH 04/37] fix: refuse to repair wheels that use PyFPE_jbuf

---
 src/auditwheel/main_repair.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/auditwheel/main_repair.py b/src/auditwheel/main_repair.py
index 937d4ae..58c1127 100644
--- a/src/auditwheel/main_repair.py
+++ b/src/auditwheel/main_repair.py
@@ -245,6 +245,14 @@ def execute(args: argparse.Namespace, parser: argparse.ArgumentParser) -> int:
             )
             parser.error(msg)
 
+        if requested_policy > wheel_abi.pyfpe_policy:
+            msg = (
+                f'cannot repair "{wheel_file}" to "{plat}" ABI because it uses '
+                "the PyFPE_jbuf function. You'll need to compile the wheel "
+                "against a build of Python without fpectl support."
+            )
+            parser.error(msg)
+
         if requested_policy > wheel_abi.blacklist_policy:
             msg = (
                 f'cannot repair "{wheel_file}" to "{plat}" ABI because it '
-- 
2.43.0


From 59181908881a51e222a05fd942c69d700e805728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:22 +0000
Subject: [PATCH 05/37] fix: list SBOM components in a reproducible order

---
 src/auditwheel/sboms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/sboms.py b/src/auditwheel/sboms.py
index 5d0c049..678c413 100644
--- a/src/auditwheel/sboms.py
+++ b/src/auditwheel/sboms.py
@@ -67,7 +67,7 @@ def create_sbom_for_wheel(
         "dependencies": sbom_dependencies,
     }
 
-    for filepath, provided_by in sbom_packages.items():
+    for filepath, provided_by in sorted(sbom_packages.items(), key=lambda x: x[0]):
         bom_ref = (
             provided_by.purl + f"#{hashlib.sha256(filepath.encode(errors='ignore')).hexdigest()}"
         )
-- 
2.43.0


From 4c348152cccaeb2abd301200cd075a4d4ac536e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:53 +0000
Subject: [PATCH 06/37] fix: drop the S/MIME signature of the input's RECORD as
 well

---
 src/auditwheel/wheeltools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index d8d4741..2affabb 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -73,9 +73,10 @@ def rewrite_record(bdist_dir: Path) -> None:
     record_path = info_dir / "RECORD"
     record_relpath = record_path.relative_to(bdist_dir)
     # Unsign wheel - because we're invalidating the record hash
-    sig_path = info_dir / "RECORD.jws"
-    if sig_path.exists():
-        sig_path.unlink()
+    for sig_name in ("RECORD.jws", "RECORD.p7s"):
+        sig_path = info_dir / sig_name
+        if sig_path.exists():
+            sig_path.unlink()
 
     def files() -> Generator[Path]:
         for dir_, _, files in walk(bdist_dir):
-- 
2.43.0


From 1bbac76ba77a71cc76e1d4af9641a65530f3f84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:33 +0000
Subject: [PATCH 07/37] fix: do not write the output wheel when repairing
 failed

---
 src/auditwheel/wheeltools.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index 2affabb..e344a48 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -138,14 +138,17 @@ class InWheel(InTemporaryDirectory):
         value: BaseException | None,
         tb: TracebackType | None,
     ) -> None:
-        if self.out_wheel is not None:
-            rewrite_record(self.name)
-            date_time = None
-            timestamp = os.environ.get("SOURCE_DATE_EPOCH")
-            if timestamp:
-                date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc)
-            dir2zip(self.name, self.out_wheel, self.zip_compression_level, date_time)
-        return super().__exit__(exc, value, tb)
+        try:
+            # don't write a wheel that has only been partially processed
+            if exc is None and self.out_wheel is not None:
+                rewrite_record(self.name)
+                date_time = None
+                timestamp = os.environ.get("SOURCE_DATE_EPOCH")
+                if timestamp:
+                    date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc)
+                dir2zip(self.name, self.out_wheel, self.zip_compression_level, date_time)
+        finally:
+            super().__exit__(exc, value, tb)
 
 
 class InWheelCtx(InWheel):
-- 
2.43.0


From fd08171817f9bdfb3401c18b80e8427bbc57309e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:33 +0000
Subject: [PATCH 08/37] fix: never leave an incomplete wheel under its final
 name

---
 src/auditwheel/main_repair.py |  5 +++--
 src/auditwheel/tools.py       | 26 +++++++++++++++++++++++++-
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/auditwheel/main_repair.py b/src/auditwheel/main_repair.py
index 58c1127..49cbdd1 100644
--- a/src/auditwheel/main_repair.py
+++ b/src/auditwheel/main_repair.py
@@ -13,7 +13,7 @@ from auditwheel.error import NonPlatformWheelError, WheelToolsError
 from auditwheel.libc import Libc
 from auditwheel.patcher import ElfPatcher
 from auditwheel.policy import WheelPolicies
-from auditwheel.tools import EnvironmentDefault
+from auditwheel.tools import EnvironmentDefault, atomic_output
 from auditwheel.wheeltools import get_wheel_architecture, get_wheel_libc
 
 logger = logging.getLogger(__name__)
@@ -213,7 +213,8 @@ def execute(args: argparse.Namespace, parser: argparse.ArgumentParser) -> int:
             if is_pure_python and args.ALLOW_PURE_PY_WHEEL:
                 dest_fname = wheel_dir / wheel_file.name
                 if not dest_fname.is_file() or not dest_fname.samefile(wheel_file):
-                    shutil.copy2(wheel_file, dest_fname)
+                    with atomic_output(dest_fname) as tmp_fname:
+                        shutil.copy2(wheel_file, tmp_fname)
                 # process next wheel
                 continue
             return 1
diff --git a/src/auditwheel/tools.py b/src/auditwheel/tools.py
index 639a065..0704afc 100644
--- a/src/auditwheel/tools.py
+++ b/src/auditwheel/tools.py
@@ -6,8 +6,10 @@ import os
 import subprocess
 import time
 import zipfile
+from contextlib import contextmanager
 from datetime import datetime, timezone
 from pathlib import Path
+from tempfile import TemporaryDirectory
 from typing import TYPE_CHECKING, Any, TypeVar
 
 if TYPE_CHECKING:
@@ -88,6 +90,25 @@ def walk(topdir: Path) -> Generator[tuple[Path, list[str], list[str]]]:
         yield dirpath, dirnames, filenames
 
 
+@contextmanager
+def atomic_output(path: Path) -> Generator[Path]:
+    """Provide a path to write to, moved to `path` once the block succeeds
+
+    An incomplete file is never seen under its final name and any existing file
+    is left untouched in case of failure.
+
+    Parameters
+    ----------
+    path : Path
+        Path of the file to create or replace
+
+    """
+    with TemporaryDirectory(prefix=".auditwheel-", dir=path.parent) as tmp_dir:
+        tmp_path = Path(tmp_dir) / path.name
+        yield tmp_path
+        tmp_path.replace(path)
+
+
 def zip2dir(zip_fname: Path, out_dir: Path) -> None:
     """Extract `zip_fname` into output directory `out_dir`
 
@@ -156,7 +177,10 @@ def dir2zip(
         logger.warning("dir2zip, clipping timestamp to 1980-01-01")
         date_time_args = (1980, 1, 1, 0, 0, 0)
     compression = zipfile.ZIP_DEFLATED
-    with zipfile.ZipFile(zip_fname, "w", compression=compression) as z:
+    with (
+        atomic_output(zip_fname) as tmp_fname,
+        zipfile.ZipFile(tmp_fname, "w", compression=compression) as z,
+    ):
         for dname, _, files in walk(in_dir):
             if dname != in_dir:
                 out_dname = f"{dname.relative_to(in_dir)}/"
-- 
2.43.0


From e11ff1e516951d84303a84606884c881e383f59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:22 +0000
Subject: [PATCH 09/37] fix: ignore RECORD entries that point outside of the
 wheel

---
 src/auditwheel/wheeltools.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index e344a48..613593d 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -24,7 +24,7 @@ from auditwheel.architecture import Architecture
 from auditwheel.error import NonPlatformWheelError, WheelToolsError
 from auditwheel.libc import Libc
 from auditwheel.tmpdirs import InTemporaryDirectory
-from auditwheel.tools import dir2zip, unique_by_index, walk, zip2dir
+from auditwheel.tools import dir2zip, is_subdir, unique_by_index, walk, zip2dir
 
 if TYPE_CHECKING:
     from collections.abc import Generator, Iterable
@@ -192,8 +192,11 @@ class InWheelCtx(InWheel):
         record_name = _dist_info_dir(self.path) / "RECORD"
         with record_name.open(newline="", encoding="utf-8") as record_file:
             for row in csv.reader(record_file):
-                filename = row[0]
-                yield Path(filename)
+                path = Path(row[0])
+                if not is_subdir(self.path / path, self.path):
+                    logger.warning("ignoring RECORD entry outside of the wheel: %s", path)
+                    continue
+                yield path
 
 
 def add_platforms(
-- 
2.43.0


From a6891734515aec085bfa385647c01b5e0640732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 10/37] fix: search libraries in the order used by the dynamic
 loader

LD_LIBRARY_PATH takes precedence over DT_RUNPATH and the DT_RPATH of the
objects which caused a library to be loaded apply to its dependencies.
---
 src/auditwheel/lddtree.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index af46a8e..89a17f6 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -440,6 +440,7 @@ def ldd(
     display: str | None = None,
     exclude: frozenset[str] = frozenset(),
     _all_libs: dict[str, DynamicLibrary] | None = None,
+    _loader_rpaths: tuple[str, ...] = (),
 ) -> DynamicExecutable:
     """Parse the ELF dependency tree of the specified file
 
@@ -462,6 +463,8 @@ def ldd(
         List of soname (DT_NEEDED) to exclude from the tree
     _all_libs
         Recursive use only; dict of all libs we've seen
+    _loader_rpaths
+        Recursive use only; RPATHs of the objects that caused this one to be loaded
 
     Returns
     -------
@@ -493,6 +496,7 @@ def ldd(
     needed: list[str] = []
     rpaths: list[str] = []
     runpaths: list[str] = []
+    has_runpath = False
 
     with open(path, "rb") as f:
         elf = ELFFile(f)
@@ -537,10 +541,11 @@ def ldd(
                 if t.entry.d_tag == "DT_RPATH":
                     rpaths = parse_ld_paths(t.rpath, path=str(path), root=root)  # type: ignore[attr-defined]
                 elif t.entry.d_tag == "DT_RUNPATH":
+                    has_runpath = True
                     runpaths = parse_ld_paths(t.runpath, path=str(path), root=root)  # type: ignore[attr-defined]
                 elif t.entry.d_tag == "DT_NEEDED":
                     needed.append(t.needed)  # type: ignore[attr-defined]
-            if runpaths:
+            if has_runpath:
                 # If both RPATH and RUNPATH are set, only the latter is used.
                 rpaths = []
 
@@ -578,20 +583,22 @@ def ldd(
 
         if ldpaths is None:
             ldpaths = load_ld_paths(libc).copy()
-        # Propagate the rpaths used by the main ELF since those will be
-        # used at runtime to locate things.
-        ldpaths["rpath"] = rpaths
+        # Propagate the runpaths used by the main ELF.
         ldpaths["runpath"] = runpaths
         log.debug("  ldpaths[rpath]   = %s", rpaths)
         log.debug("  ldpaths[runpath] = %s", runpaths)
 
     assert ldpaths is not None  # noqa: S101
 
+    # The RPATH of an object also applies to what its dependencies need. For glibc, this is not
+    # the case of its RUNPATH which is searched after LD_LIBRARY_PATH and makes all the RPATHs
+    # ignored for the object. Other dynamic loaders may not, only search those last in that case.
+    loader_rpaths = [*rpaths, *_loader_rpaths]
     all_ldpaths = (
-        ldpaths["rpath"]
-        + rpaths
-        + runpaths
+        ([] if has_runpath else loader_rpaths)
         + ldpaths["env"]
+        + runpaths
+        + (loader_rpaths if has_runpath else [])
         + ldpaths["runpath"]
         + ldpaths["conf"]
         + ldpaths["interp"]
@@ -624,7 +631,16 @@ def ldd(
         _all_libs[soname] = DynamicLibrary(soname, fullpath, realpath)
         if realpath is None or fullpath is None:
             continue
-        dependency = ldd(realpath, root, prefix, ldpaths, fullpath, exclude, _all_libs)
+        dependency = ldd(
+            realpath,
+            root,
+            prefix,
+            ldpaths,
+            fullpath,
+            exclude,
+            _all_libs,
+            tuple(loader_rpaths),
+        )
         _all_libs[soname] = DynamicLibrary(
             soname,
             fullpath,
-- 
2.43.0


From 7804727308554f77931423573d95ec83a376318f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:14 +0000
Subject: [PATCH 11/37] fix: go through dependencies breadth-first as the
 dynamic loader does

---
 src/auditwheel/lddtree.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 89a17f6..20968ed 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -19,6 +19,7 @@ import glob
 import logging
 import os
 import re
+from collections import deque
 from dataclasses import dataclass
 from fnmatch import fnmatch
 from pathlib import Path
@@ -441,6 +442,7 @@ def ldd(
     exclude: frozenset[str] = frozenset(),
     _all_libs: dict[str, DynamicLibrary] | None = None,
     _loader_rpaths: tuple[str, ...] = (),
+    _pending: deque[tuple[str, Path, str, tuple[str, ...]]] | None = None,
 ) -> DynamicExecutable:
     """Parse the ELF dependency tree of the specified file
 
@@ -465,6 +467,8 @@ def ldd(
         Recursive use only; dict of all libs we've seen
     _loader_rpaths
         Recursive use only; RPATHs of the objects that caused this one to be loaded
+    _pending
+        Recursive use only; libs that have been located but not been scanned yet
 
     Returns
     -------
@@ -488,6 +492,8 @@ def ldd(
     _first = _all_libs is None
     if _all_libs is None:
         _all_libs = {}
+    if _pending is None:
+        _pending = deque()
 
     log.debug("ldd(%s)", path)
 
@@ -631,6 +637,11 @@ def ldd(
         _all_libs[soname] = DynamicLibrary(soname, fullpath, realpath)
         if realpath is None or fullpath is None:
             continue
+        _pending.append((soname, realpath, fullpath, tuple(loader_rpaths)))
+
+    # the dynamic loader goes through dependencies breadth-first
+    while _first and _pending:
+        soname, realpath, fullpath, soname_rpaths = _pending.popleft()
         dependency = ldd(
             realpath,
             root,
@@ -639,7 +650,8 @@ def ldd(
             fullpath,
             exclude,
             _all_libs,
-            tuple(loader_rpaths),
+            soname_rpaths,
+            _pending,
         )
         _all_libs[soname] = DynamicLibrary(
             soname,
-- 
2.43.0


From 33b130d711fd061f4e7e70df598916855f1dc2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:31 +0000
Subject: [PATCH 12/37] fix: expand $ORIGIN from the path a library is found at

---
 src/auditwheel/lddtree.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 20968ed..7d753f4 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -504,6 +504,9 @@ def ldd(
     runpaths: list[str] = []
     has_runpath = False
 
+    # $ORIGIN is relative to the path used to load the object, not to what it links to
+    origin_path = str(path) if display is None else display
+
     with open(path, "rb") as f:
         elf = ELFFile(f)
 
@@ -545,10 +548,10 @@ def ldd(
                 continue
             for t in segment.iter_tags():
                 if t.entry.d_tag == "DT_RPATH":
-                    rpaths = parse_ld_paths(t.rpath, path=str(path), root=root)  # type: ignore[attr-defined]
+                    rpaths = parse_ld_paths(t.rpath, path=origin_path, root=root)  # type: ignore[attr-defined]
                 elif t.entry.d_tag == "DT_RUNPATH":
                     has_runpath = True
-                    runpaths = parse_ld_paths(t.runpath, path=str(path), root=root)  # type: ignore[attr-defined]
+                    runpaths = parse_ld_paths(t.runpath, path=origin_path, root=root)  # type: ignore[attr-defined]
                 elif t.entry.d_tag == "DT_NEEDED":
                     needed.append(t.needed)  # type: ignore[attr-defined]
             if has_runpath:
-- 
2.43.0


From 13b554a2c92ab9569de4b957efe8bb825e0dd447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:52 +0000
Subject: [PATCH 13/37] fix: rename the dependencies of a grafted library as
 resolved for the ELF file grafting it

---
 src/auditwheel/repair.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/auditwheel/repair.py b/src/auditwheel/repair.py
index 656d624..5ac8e62 100644
--- a/src/auditwheel/repair.py
+++ b/src/auditwheel/repair.py
@@ -45,7 +45,8 @@ def repair_wheel(
     if not external_refs_by_fn:
         return None
 
-    soname_map: dict[str, tuple[str, Path]] = {}
+    # for each grafted library, the new names of the libraries it was resolved with
+    grafted: dict[Path, dict[str, str]] = {}
 
     out_dir = out_dir.resolve(strict=True)
     wheel_fname = wheel_path.name
@@ -74,6 +75,8 @@ def repair_wheel(
         for fn, v in external_refs_by_fn.items():
             ext_libs = v[abis[0]].libs
             replacements: list[tuple[str, str]] = []
+            # a soname may be resolved to another library in another ELF file
+            soname_map: dict[str, str] = {}
             for soname, src_path in ext_libs.items():
                 # Handle libpython dependencies by removing them
                 if LIBPYTHON_RE.match(soname):
@@ -97,7 +100,8 @@ def repair_wheel(
                     dest_dir.mkdir()
                 sbom_filepaths.append(src_path)
                 new_soname, new_path = copylib(src_path, dest_dir, patcher)
-                soname_map[soname] = (new_soname, new_path)
+                soname_map[soname] = new_soname
+                grafted.setdefault(new_path, soname_map)
                 replacements.append((soname, new_soname))
             if replacements:
                 patcher.replace_needed(fn, *replacements)
@@ -116,12 +120,12 @@ def repair_wheel(
         # we need to update those records so each now knows about the new
         # name of the other.
         # we also clear or set RPATH depending on the presence of internal dependencies
-        for _, path in soname_map.values():
+        for path, soname_map in grafted.items():
             needed = elf_read_dt_needed(path)  # TODO perf, we already read those at some point
             replacements = []
             for n in needed:
                 if n in soname_map:
-                    replacements.append((n, soname_map[n][0]))
+                    replacements.append((n, soname_map[n]))
             if replacements:
                 patcher.set_rpath(path, "$ORIGIN")
                 patcher.replace_needed(path, *replacements)
@@ -131,9 +135,8 @@ def repair_wheel(
         # strip before applying ELF patches to reduce chances of an invalid ELF being produced
         # as seen in https://github.com/pypa/auditwheel/issues/716
         if strip:
-            libs_to_strip = [path for (_, path) in soname_map.values()]
             extensions = [script_shims.get(path, path) for path in external_refs_by_fn]
-            strip_symbols(itertools.chain(libs_to_strip, extensions))
+            strip_symbols(itertools.chain(grafted, extensions))
 
         patcher.apply_updates()
 
-- 
2.43.0


From c3360951f16eab4537d0e2090bf3d6d194439b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:15 +0000
Subject: [PATCH 14/37] fix: remove the libpython dependency of grafted
 libraries as well

---
 src/auditwheel/repair.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/auditwheel/repair.py b/src/auditwheel/repair.py
index 5ac8e62..843beb0 100644
--- a/src/auditwheel/repair.py
+++ b/src/auditwheel/repair.py
@@ -46,7 +46,7 @@ def repair_wheel(
         return None
 
     # for each grafted library, the new names of the libraries it was resolved with
-    grafted: dict[Path, dict[str, str]] = {}
+    grafted: dict[Path, dict[str, str | None]] = {}
 
     out_dir = out_dir.resolve(strict=True)
     wheel_fname = wheel_path.name
@@ -76,7 +76,7 @@ def repair_wheel(
             ext_libs = v[abis[0]].libs
             replacements: list[tuple[str, str]] = []
             # a soname may be resolved to another library in another ELF file
-            soname_map: dict[str, str] = {}
+            soname_map: dict[str, str | None] = {}
             for soname, src_path in ext_libs.items():
                 # Handle libpython dependencies by removing them
                 if LIBPYTHON_RE.match(soname):
@@ -87,6 +87,7 @@ def repair_wheel(
                         str(fn),
                     )
                     patcher.remove_needed(fn, soname)
+                    soname_map[soname] = None
                     continue
 
                 if src_path is None:
@@ -125,7 +126,11 @@ def repair_wheel(
             replacements = []
             for n in needed:
                 if n in soname_map:
-                    replacements.append((n, soname_map[n]))
+                    new_soname = soname_map[n]
+                    if new_soname is None:
+                        patcher.remove_needed(path, n)
+                    else:
+                        replacements.append((n, new_soname))
             if replacements:
                 patcher.set_rpath(path, "$ORIGIN")
                 patcher.replace_needed(path, *replacements)
-- 
2.43.0


From a7db314ece0066de79715f378552bdc79e156b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:30 +0000
Subject: [PATCH 15/37] fix: recognise libpython of free-threaded and debug
 builds

---
 src/auditwheel/lddtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 7d753f4..0f3b59f 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -38,7 +38,7 @@ log = logging.getLogger(__name__)
 __all__ = ["LIBPYTHON_RE", "DynamicExecutable", "DynamicLibrary", "ldd"]
 
 # Regex to match libpython shared library names
-LIBPYTHON_RE = re.compile(r"^libpython\d+\.\d+m?.so(\.\d)*$")
+LIBPYTHON_RE = re.compile(r"^libpython\d+\.\d+[a-z]*\.so(\.\d+)*$")
 
 # Regex to match ORIGIN references in rpaths.
 ORIGIN_RE = re.compile(r"\$(ORIGIN|\{ORIGIN\})")
-- 
2.43.0


From c04c8fa4176b15a4c9c08a44002c32297187e7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:51 +0000
Subject: [PATCH 16/37] fix: only the dynamic linker is excluded, not any
 library with ld-linux in its name

---
 src/auditwheel/policy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/policy/__init__.py b/src/auditwheel/policy/__init__.py
index b55fc59..5f71ad9 100644
--- a/src/auditwheel/policy/__init__.py
+++ b/src/auditwheel/policy/__init__.py
@@ -233,7 +233,7 @@ class WheelPolicies:
             whitelist: frozenset[str],
         ) -> Generator[str]:
             for lib in libs:
-                if "ld-linux" in lib or lib in ["ld64.so.2", "ld64.so.1"]:
+                if lib.startswith("ld-linux") or lib in ["ld64.so.2", "ld64.so.1"]:
                     # always exclude ELF dynamic linker/loader
                     # 'ld64.so.2' on s390x
                     # 'ld64.so.1' on ppc64le
-- 
2.43.0


From 7c4621cdf14306e828abf9edc43e6a4ef8c2430d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:37 +0000
Subject: [PATCH 17/37] fix: do not fail on executables whose interpreter does
 not exist on the build machine

---
 src/auditwheel/wheel_abi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index 3db0e03..a53bcd7 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -78,8 +78,8 @@ def _fixup_elf_trees(
         for candidate in resolved_executables:
             for library in candidate.libraries.values():
                 assert library.realpath is not None  # noqa: S101
-                assert library.realpath.is_file()  # noqa: S101
-                if path_to_elf.samefile(library.realpath):
+                # the interpreter of an executable for another machine may not exist on this one
+                if library.realpath.is_file() and path_to_elf.samefile(library.realpath):
                     return candidate
         return None
 
-- 
2.43.0


From 3635f050ddb6da67b7e2c60c49d1c17e32eeb4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:09 +0000
Subject: [PATCH 18/37] fix: do not fail when another process creates the
 output directory

---
 src/auditwheel/main_repair.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/main_repair.py b/src/auditwheel/main_repair.py
index 49cbdd1..5055be9 100644
--- a/src/auditwheel/main_repair.py
+++ b/src/auditwheel/main_repair.py
@@ -195,7 +195,7 @@ def execute(args: argparse.Namespace, parser: argparse.ArgumentParser) -> int:
         logger.info("Repairing %s", wheel_filename)
 
         if not wheel_dir.exists():
-            wheel_dir.mkdir(parents=True)
+            wheel_dir.mkdir(parents=True, exist_ok=True)
 
         try:
             wheel_abi = analyze_wheel_abi(
-- 
2.43.0


From 8829661b5bc8353d64f2a32daa3870f0b75fa83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:28 +0000
Subject: [PATCH 19/37] fix: split apk package names containing dashes from
 their version

---
 src/auditwheel/_vendor/whichprovides/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/_vendor/whichprovides/__init__.py b/src/auditwheel/_vendor/whichprovides/__init__.py
index fa3e3fe..36d6bb7 100644
--- a/src/auditwheel/_vendor/whichprovides/__init__.py
+++ b/src/auditwheel/_vendor/whichprovides/__init__.py
@@ -18,7 +18,9 @@ __all__ = ["ProvidedBy", "whichprovides"]
 __version__ = "0.4.0"
 
 _OS_RELEASE_LINES_RE = re.compile(r"^([A-Z_]+)=(?:\"([^\"]*)\"|(.*))$", re.MULTILINE)
-_APK_WHO_OWNS_RE = re.compile(r" is owned by ([^\s\-]+)-([^\s]+)$", re.MULTILINE)
+_APK_WHO_OWNS_RE = re.compile(
+    r" is owned by ([^\s]+)-([^\s\-]+-r[0-9]+)$", re.MULTILINE
+)
 _DPKG_SEARCH_RE = re.compile(r"^([^:]+):")
 _DPKG_VERSION_RE = re.compile(r"^Version: ([^\s]+)", re.MULTILINE)
 _APT_FILE_SEARCH_RE = re.compile(r"^([^:]+): (.+)$", re.MULTILINE)
-- 
2.43.0


From 374dca2e46226f8d6543feb8d13cf416df217acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:28 +0000
Subject: [PATCH 20/37] fix: ignore other files listed by apt-file

---
 src/auditwheel/_vendor/whichprovides/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/auditwheel/_vendor/whichprovides/__init__.py b/src/auditwheel/_vendor/whichprovides/__init__.py
index 36d6bb7..54c372e 100644
--- a/src/auditwheel/_vendor/whichprovides/__init__.py
+++ b/src/auditwheel/_vendor/whichprovides/__init__.py
@@ -275,6 +275,9 @@ class AptFilePackageProvider(PackageProvider):
                 ),
             ).decode()
             for package_name, filepath in _APT_FILE_SEARCH_RE.findall(stdout):
+                # Every file with a path containing the searched one is listed.
+                if filepath not in filepaths:
+                    continue
                 stdout = subprocess.check_output(
                     [apt_bin, "show", package_name],
                     stderr=subprocess.DEVNULL,
-- 
2.43.0


From c274bc2f19765fe38f71e42d82d4c4917b6de542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:10 +0000
Subject: [PATCH 21/37] fix: count the symbol versions of every library that is
 grafted

Two ELF files of a wheel can resolve one soname to different libraries, one
library can be known under several sonames, and libraries can be needed only
by ELF files which are not entry points.
---
 src/auditwheel/wheel_abi.py | 59 ++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index a53bcd7..88cd4fe 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -25,7 +25,7 @@ from auditwheel.libc import Libc
 from auditwheel.policy import ExternalReference, Policy, WheelPolicies
 
 if TYPE_CHECKING:
-    from collections.abc import Mapping
+    from collections.abc import Iterable, Mapping
 
     from auditwheel.architecture import Architecture
 
@@ -279,40 +279,44 @@ def get_wheel_elfdata(
     )
 
 
-def get_external_libs(external_refs: dict[str, ExternalReference]) -> dict[Path, str]:
+def get_external_libs(
+    external_refs_by_fn: Iterable[dict[str, ExternalReference]],
+) -> dict[Path, set[str]]:
     """Get external library dependencies for all policies excluding the default
     linux policy
-    :param external_refs: external references for all policies
-    :return: {realpath: soname} e.g.
-    {'/path/to/external_ref.so.1.2.3': 'external_ref.so.1'}
+    :param external_refs_by_fn: external references for all policies, for each ELF file
+    :return: {realpath: sonames} e.g.
+    {'/path/to/external_ref.so.1.2.3': {'external_ref.so.1'}}
     """
-    result: dict[Path, str] = {}
-    for external_ref in external_refs.values():
-        # linux tag (priority 0) has no white-list, do not analyze it
-        if external_ref.policy.priority == 0:
-            continue
-        # go through all libs, retrieving their soname and realpath
-        for libname, realpath in external_ref.libs.items():
-            if realpath and realpath not in result:
-                result[Path(realpath)] = libname
+    result: dict[Path, set[str]] = defaultdict(set)
+    for external_refs in external_refs_by_fn:
+        for external_ref in external_refs.values():
+            # linux tag (priority 0) has no white-list, do not analyze it
+            if external_ref.policy.priority == 0:
+                continue
+            # go through all libs, retrieving their soname and realpath
+            for libname, realpath in external_ref.libs.items():
+                if realpath:
+                    result[Path(realpath)].add(libname)
     return result
 
 
-def get_versioned_symbols(libs: dict[Path, str]) -> dict[str, dict[str, set[str]]]:
+def get_versioned_symbols(libs: dict[Path, set[str]]) -> dict[str, dict[str, set[str]]]:
     """Get versioned symbols used in libraries
-    :param libs: {realpath: soname} dict to search for versioned symbols e.g.
-    {'/path/to/external_ref.so.1.2.3': 'external_ref.so.1'}
+    :param libs: {realpath: sonames} dict to search for versioned symbols e.g.
+    {'/path/to/external_ref.so.1.2.3': {'external_ref.so.1'}}
     :return: {soname: {depname: set([symbol_version])}} e.g.
     {'external_ref.so.1': {'libc.so.6', set(['GLIBC_2.5','GLIBC_2.12'])}}
     """
-    result = {}
+    result: dict[str, dict[str, set[str]]] = {}
     for path, elf in elf_file_filter(libs.keys()):
         # {depname: set(symbol_version)}, e.g. {'libc.so.6', set(['GLIBC_2.5','GLIBC_2.12'])}
-        elf_versioned_symbols: dict[str, set[str]] = defaultdict(set)
         for key, value in elf_find_versioned_symbols(elf):
             log.debug("path %s, key %s, value %s", path, key, value)
-            elf_versioned_symbols[key].add(value)
-        result[libs[path]] = elf_versioned_symbols
+            # the same file can be known under several sonames and the same soname can be
+            # resolved to several files
+            for soname in libs[path]:
+                result.setdefault(soname, defaultdict(set))[key].add(value)
     return result
 
 
@@ -460,13 +464,20 @@ def analyze_wheel_abi(
     log.debug("external reference info")
     log.debug(json.dumps(external_refs))
 
-    external_libs = get_external_libs(external_refs)
+    # every library that has to be grafted counts, whichever ELF file needs it
+    graft_refs: dict[str, ExternalReference] = {
+        p.name: ExternalReference({}, {}, p) for p in policies
+    }
+    for refs in external_refs_by_fn.values():
+        update(graft_refs, refs)
+
+    external_libs = get_external_libs(external_refs_by_fn.values())
     external_versioned_symbols = get_versioned_symbols(external_libs)
     symbol_policies = get_symbol_policies(
         policies,
         versioned_symbols,
         external_versioned_symbols,
-        external_refs,
+        graft_refs,
     )
     symbol_policy = policies.versioned_symbols_policy(versioned_symbols)
 
@@ -518,7 +529,7 @@ def analyze_wheel_abi(
         machine_policy = _get_machine_policy(
             policies,
             elftree_by_fn,
-            frozenset(external_libs.values()),
+            frozenset(itertools.chain.from_iterable(external_libs.values())),
         )
 
     ucs_policy = policies.linux if data.uses_ucs2_symbols else policies.highest
-- 
2.43.0


From 07835646754afe58f7c40c29dc2966514be33860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 22/37] fix: walk in-wheel libraries bearing the name of a
 whitelisted one

Their external dependencies were grafted but neither reported nor counted for
the policy.
---
 src/auditwheel/wheel_abi.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index 88cd4fe..9d36d15 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -251,8 +251,9 @@ def get_wheel_elfdata(
         for fn, elf_tree in nonpy_elftree.items():
             # If a non-pyextension ELF file is not needed by something else
             # inside the wheel, then it was not checked by the logic above and
-            # we should walk its elftree.
-            if fn.name not in needed_libs:
+            # we should walk its elftree. The same goes for a library bearing the
+            # name of a whitelisted one: it is not followed from what needs it.
+            if fn.name not in needed_libs or any(fn.name in p.whitelist for p in policies):
                 full_elftree[fn] = elf_tree
 
             # Even if a non-pyextension ELF file is not needed, we
-- 
2.43.0


From 3d48d497860afd5ba4cfb8864aec128beae9d363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 23/37] fix: do not follow symbolic link loops forever in
 library search paths

---
 src/auditwheel/lddtree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 0f3b59f..98b6e12 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -207,7 +207,9 @@ def readlink(path: str, root: str, *, prefixed: bool = False) -> str:
     if prefixed:
         path = path[len(root) :]
 
-    while os.path.islink(root + path):
+    seen = set()
+    while path not in seen and os.path.islink(root + path):
+        seen.add(path)
         path = os.path.join(os.path.dirname(path), os.readlink(root + path))
 
     return normpath((root + path) if prefixed else path)
-- 
2.43.0


From c25aea2bc4d50cd1a065171b0c1f0eece4106cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 24/37] fix: ignore blank lines in the input RECORD

---
 src/auditwheel/wheeltools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index 613593d..7f56e06 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -192,6 +192,8 @@ class InWheelCtx(InWheel):
         record_name = _dist_info_dir(self.path) / "RECORD"
         with record_name.open(newline="", encoding="utf-8") as record_file:
             for row in csv.reader(record_file):
+                if not row:
+                    continue
                 path = Path(row[0])
                 if not is_subdir(self.path / path, self.path):
                     logger.warning("ignoring RECORD entry outside of the wheel: %s", path)
-- 
2.43.0


From 06de97306c4e2651990bc1b8302a20bd723cc64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 25/37] fix: resolve libraries through modules that have
 unlocatable dependencies

---
 src/auditwheel/wheel_abi.py | 44 +++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index 9d36d15..7558437 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -67,29 +67,39 @@ def _fixup_elf_trees(
     # non-Python ELF trees as well. Python extension ELF trees are not
     # fixed up; they should always be valid in the first place. We fix up
     # non-Python ELF trees with that assumption in mind.
-    resolved_executables = [
-        executable
-        for executable in itertools.chain(py_elf_trees.values(), nonpy_elftree.values())
-        if all(library.realpath is not None for library in executable.libraries.values())
-    ]
+    executables = list(itertools.chain(py_elf_trees.values(), nonpy_elftree.values()))
 
-    def _get_reference(path_to_elf: Path) -> DynamicExecutable | None:
+    def _get_reference(path_to_elf: Path, unresolved: set[str]) -> DynamicExecutable | None:
         assert path_to_elf.is_file()  # noqa: S101
-        for candidate in resolved_executables:
-            for library in candidate.libraries.values():
-                assert library.realpath is not None  # noqa: S101
+        candidates = [
+            candidate
+            for candidate in executables
+            if any(
                 # the interpreter of an executable for another machine may not exist on this one
-                if library.realpath.is_file() and path_to_elf.samefile(library.realpath):
-                    return candidate
-        return None
+                library.realpath is not None
+                and library.realpath.is_file()
+                and path_to_elf.samefile(library.realpath)
+                for library in candidate.libraries.values()
+            )
+        ]
+
+        # not everything has to be found: libpython is never searched, and libraries
+        # the platform guarantees do not have to be installed
+        def resolved(candidate: DynamicExecutable) -> tuple[bool, int]:
+            found = {n for n, lib in candidate.libraries.items() if lib.realpath is not None}
+            return len(found) == len(candidate.libraries), len(found & unresolved)
+
+        return max(candidates, key=resolved, default=None)
 
     for elf_path, elf_executable in nonpy_elftree.items():
-        need_resolution = any(
-            elf_library.realpath is None for elf_library in elf_executable.libraries.values()
-        )
-        if not need_resolution:
+        unresolved = {
+            soname
+            for soname, elf_library in elf_executable.libraries.items()
+            if elf_library.realpath is None
+        }
+        if not unresolved:
             continue
-        reference = _get_reference(elf_executable.realpath)
+        reference = _get_reference(elf_executable.realpath, unresolved)
         if reference is None:
             continue
         ref_name = reference.realpath.name
-- 
2.43.0


From e4492d980777f8144a646019e38f590e0dc5527e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:58 +0000
Subject: [PATCH 26/37] fix: refuse to graft two different libraries under the
 same name

---
 src/auditwheel/repair.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/auditwheel/repair.py b/src/auditwheel/repair.py
index 843beb0..a1aca89 100644
--- a/src/auditwheel/repair.py
+++ b/src/auditwheel/repair.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import filecmp
 import itertools
 import json
 import logging
@@ -47,6 +48,7 @@ def repair_wheel(
 
     # for each grafted library, the new names of the libraries it was resolved with
     grafted: dict[Path, dict[str, str | None]] = {}
+    graft_sources: dict[Path, Path] = {}
 
     out_dir = out_dir.resolve(strict=True)
     wheel_fname = wheel_path.name
@@ -101,6 +103,13 @@ def repair_wheel(
                     dest_dir.mkdir()
                 sbom_filepaths.append(src_path)
                 new_soname, new_path = copylib(src_path, dest_dir, patcher)
+                other_path = graft_sources.setdefault(new_path, src_path)
+                if other_path != src_path and not filecmp.cmp(other_path, src_path, shallow=False):
+                    msg = (
+                        f"Cannot repair wheel, because {other_path} and {src_path} "
+                        f"would both be grafted as {new_soname!r}"
+                    )
+                    raise ValueError(msg)
                 soname_map[soname] = new_soname
                 grafted.setdefault(new_path, soname_map)
                 replacements.append((soname, new_soname))
-- 
2.43.0


From 188efb41a105f3e8e1fa8e89010f2877cc872045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:47 +0000
Subject: [PATCH 27/37] fix: recognise the i686 loader as a dependency on glibc

---
 src/auditwheel/lddtree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 98b6e12..bca383a 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -575,7 +575,9 @@ def ldd(
                 if libc != Libc.MUSL:
                     msg = f"found a dependency on MUSL but the libc is already set to {libc}"
                     raise InvalidLibcError(msg)
-            elif soname == "libc.so.6" or soname.startswith(("ld-linux-", "ld64.so.")):
+            elif soname == "libc.so.6" or soname.startswith(
+                ("ld-linux-", "ld-linux.so.", "ld64.so."),
+            ):
                 if libc is None:
                     libc = Libc.GLIBC
                 if libc != Libc.GLIBC:
-- 
2.43.0


From a0fd493f95e1903bf4369f61d7bfbcd6fea65c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 28/37] fix: leave split-off debug information files alone

---
 src/auditwheel/elfutils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/auditwheel/elfutils.py b/src/auditwheel/elfutils.py
index 7f1b131..1ca7f33 100644
--- a/src/auditwheel/elfutils.py
+++ b/src/auditwheel/elfutils.py
@@ -39,6 +39,13 @@ def elf_read_dt_needed(fn: Path) -> list[str]:
     return needed
 
 
+def _is_debug_only(elf: ELFFile) -> bool:
+    # what objcopy --only-keep-debug produces keeps the headers of the original
+    # file but has lost what they describe, it can't be loaded
+    section = elf.get_section_by_name(".dynamic")
+    return section is not None and section.header.sh_type == "SHT_NOBITS"
+
+
 def elf_file_filter(paths: Iterable[Path]) -> Iterator[tuple[Path, ELFFile]]:
     """Filter through an iterator of filenames and load up only ELF
     files
@@ -50,6 +57,8 @@ def elf_file_filter(paths: Iterable[Path]) -> Iterator[tuple[Path, ELFFile]]:
             try:
                 with path.open("rb") as f:
                     candidate = ELFFile(f)
+                    if _is_debug_only(candidate):
+                        continue
                     yield path, candidate
             except ELFError:
                 # not an elf file
-- 
2.43.0


From 4e8740be2a6c068bf03a0a65ff579b79716a57d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:28 +0000
Subject: [PATCH 29/37] fix: the C library of an extension may be told by a
 later file of the wheel

---
 src/auditwheel/wheel_abi.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index 7558437..8508e4b 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -204,19 +204,10 @@ def get_wheel_elfdata(
                 # If the ELF is a Python extention, we definitely need to
                 # include its external dependencies.
                 if is_py_ext:
-                    if policies is None:
-                        assert architecture is not None  # noqa: S101
-                        assert libc is None  # noqa: S101
-                        msg = f"couldn't detect libc for python extension {fn}"
-                        raise InvalidLibcError(msg)
                     full_elftree[fn] = elftree
                     uses_pyfpe_jbuf |= elf_references_pyfpe_jbuf(elf)
                     if py_ver == 2:
                         uses_ucs2_symbols |= any(True for _ in elf_find_ucs2_symbols(elf))
-                    full_external_refs[fn] = policies.lddtree_external_references(
-                        elftree,
-                        ctx.path,
-                    )
                 else:
                     # If the ELF is not a Python extension, it might be
                     # included in the wheel already because auditwheel repair
@@ -239,6 +230,18 @@ def get_wheel_elfdata(
             arch = None if architecture is None else architecture.value
             raise NonPlatformWheelError(arch, shared_libraries_with_invalid_machine)
 
+        # the libc of a python extension may only be told by a file coming after it
+        for fn, elftree in full_elftree.items():
+            if policies is None:
+                assert architecture is not None  # noqa: S101
+                assert libc is None  # noqa: S101
+                msg = f"couldn't detect libc for python extension {fn}"
+                raise InvalidLibcError(msg)
+            full_external_refs[fn] = policies.lddtree_external_references(
+                elftree,
+                ctx.path,
+            )
+
         _fixup_elf_trees(full_elftree, nonpy_elftree)
 
         # Get a list of all external libraries needed by ELFs in the wheel.
-- 
2.43.0


From d3e7282ae4123a581a271cb9cbd49d227f69810b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:08 +0000
Subject: [PATCH 30/37] fix: clamp time stamps later than what a zip archive
 can express

---
 src/auditwheel/tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/auditwheel/tools.py b/src/auditwheel/tools.py
index 0704afc..28b0ee2 100644
--- a/src/auditwheel/tools.py
+++ b/src/auditwheel/tools.py
@@ -176,6 +176,9 @@ def dir2zip(
     if date_time_args < (1980, 1, 1, 0, 0, 0):
         logger.warning("dir2zip, clipping timestamp to 1980-01-01")
         date_time_args = (1980, 1, 1, 0, 0, 0)
+    elif date_time_args > (2107, 12, 31, 23, 59, 59):
+        logger.warning("dir2zip, clipping timestamp to 2107-12-31")
+        date_time_args = (2107, 12, 31, 23, 59, 59)
     compression = zipfile.ZIP_DEFLATED
     with (
         atomic_output(zip_fname) as tmp_fname,
-- 
2.43.0


From 6c3d5f5c3a2a74dd6e5da45bc3eeacbfaefaf207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:08 +0000
Subject: [PATCH 31/37] fix: never let strip take a file of the wheel for an
 option

---
 src/auditwheel/repair.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/repair.py b/src/auditwheel/repair.py
index a1aca89..5db4166 100644
--- a/src/auditwheel/repair.py
+++ b/src/auditwheel/repair.py
@@ -175,7 +175,8 @@ def repair_wheel(
 def strip_symbols(libraries: Iterable[Path]) -> None:
     for lib in libraries:
         logger.info("Stripping symbols from %s", lib)
-        check_call(["strip", "-s", lib])
+        # a relative path may look like an option or a response file (@file)
+        check_call(["strip", "-s", lib.absolute()])
 
 
 def copylib(src_path: Path, dest_dir: Path, patcher: ElfPatcher) -> tuple[str, Path]:
-- 
2.43.0


From 595adf95d1acef43436dc1f3eb7c8bca9588426b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:16 +0000
Subject: [PATCH 32/37] fix: read the includes of ld.so.conf in the order of
 their names

glob() returns names in directory order: with competing copies of a library, the one used
depended on the file system. ldconfig also accepts several patterns, and any blanks before them.
---
 src/auditwheel/lddtree.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index bca383a..03d67f9 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -292,15 +292,17 @@ def parse_ld_so_conf(ldso_conf: str, *, root: str = "/", _first: bool = True) ->
                 line = input_line.split("#", 1)[0].strip()
                 if not line:
                     continue
-                if line.startswith("include "):
-                    line = line[8:]
-                    if line[0] == "/":
-                        line = root + line.lstrip("/")
-                    else:
-                        line = os.path.dirname(ldso_conf) + "/" + line
-                    log.debug("%s  glob: %s", dbg_pfx, line)
-                    for path in glob.glob(line):
-                        paths += parse_ld_so_conf(path, root=root, _first=False)
+                keyword, *patterns = line.split()
+                if keyword == "include" and patterns:
+                    for pattern in patterns:
+                        if pattern[0] == "/":
+                            pattern_path = root + pattern.lstrip("/")
+                        else:
+                            pattern_path = os.path.dirname(ldso_conf) + "/" + pattern
+                        log.debug("%s  glob: %s", dbg_pfx, pattern_path)
+                        # as ldconfig does: the order of names is the order of precedence
+                        for path in sorted(glob.glob(pattern_path)):
+                            paths += parse_ld_so_conf(path, root=root, _first=False)
                 else:
                     paths += [normpath(root + line)]
     except OSError as e:
-- 
2.43.0


From c2cec48569dc9c3db31cf13293eaf8850eb090b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:25 +0000
Subject: [PATCH 33/37] fix: directories of musl's path file may stand on lines
 of their own

---
 src/auditwheel/lddtree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 03d67f9..1da475b 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -372,7 +372,8 @@ def load_ld_paths(
             ]
         else:
             ldpaths["conf"] = []
-            for ldpath in ld_musl[0].read_text().split(":"):
+            # entries are separated by colons or newlines
+            for ldpath in ld_musl[0].read_text().replace("\n", ":").split(":"):
                 ldpath_stripped = ldpath.strip()
                 if ldpath_stripped == "":
                     continue
-- 
2.43.0


From 26ba73d1bd7fec5dc2cb50a233a15776c41be3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:55 +0000
Subject: [PATCH 34/37] fix: follow .. out of linked directories as the system
 does

---
 src/auditwheel/lddtree.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 1da475b..d629ea2 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -176,7 +176,14 @@ def normpath(path: str) -> str:
     //..// -> //
     //..//..// -> ///
     """
-    return os.path.normpath(path).replace("//", "/")
+    norm = os.path.normpath(path).replace("//", "/")
+    if ".." not in path.split("/"):
+        return norm
+    # ".." leaves the directory a link points to, not the one the link lies in
+    if not os.path.exists(path):
+        return path
+    same = os.path.exists(norm) and os.path.samefile(path, norm)
+    return norm if same else os.path.realpath(path)
 
 
 def readlink(path: str, root: str, *, prefixed: bool = False) -> str:
-- 
2.43.0


From 3a797a6953a5384909c88e8bb17cfd3f909f3e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:04 +0000
Subject: [PATCH 35/37] fix: relative search directories are those of the user

show and repair work in temporary directories. An empty entry of LD_LIBRARY_PATH (a trailing
colon is common) made files at the root of the wheel pass for the libraries found by the loader,
which were then not grafted, and relative directories were not searched.
---
 src/auditwheel/main.py    |  7 ++++++-
 src/auditwheel/options.py | 12 ++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/main.py b/src/auditwheel/main.py
index 68c5c21..f99c792 100644
--- a/src/auditwheel/main.py
+++ b/src/auditwheel/main.py
@@ -2,13 +2,14 @@ from __future__ import annotations
 
 import argparse
 import logging
+import os
 import pathlib
 import sys
 from importlib import metadata
 from pathlib import Path
 
 import auditwheel
-from auditwheel import main_lddtree, main_repair, main_show
+from auditwheel import main_lddtree, main_repair, main_show, options
 
 
 def main() -> int | None:
@@ -38,6 +39,10 @@ def main() -> int | None:
 
     args = p.parse_args()
 
+    for variable in ("AUDITWHEEL_LD_LIBRARY_PATH", "LD_LIBRARY_PATH"):
+        if variable in os.environ:
+            os.environ[variable] = options.absolute_paths(os.environ[variable])
+
     logging.disable(logging.NOTSET)
     if args.verbose >= 1:
         logging.basicConfig(level=logging.DEBUG)
diff --git a/src/auditwheel/options.py b/src/auditwheel/options.py
index eeb8bc1..1fff2c2 100644
--- a/src/auditwheel/options.py
+++ b/src/auditwheel/options.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+import os
 from typing import TYPE_CHECKING
 
 if TYPE_CHECKING:
@@ -28,10 +29,21 @@ def allow_pure_python_wheel(parser: ArgumentParser) -> None:
     )
 
 
+def absolute_paths(paths: str) -> str:
+    """Relative directories are those of the user: wheels are processed in temporary directories"""
+    if not paths:
+        return paths
+    return ":".join(
+        path if path.startswith(("/", "$")) else os.path.join(os.getcwd(), path)
+        for path in paths.split(":")
+    )
+
+
 def ldpaths(parser: ArgumentParser) -> None:
     parser.add_argument(
         "--ldpaths",
         dest="LDPATHS",
+        type=absolute_paths,
         help="Colon-delimited list of directories to search for external libraries. "
         "This replaces the default list; to add to this list, set the environment "
         "variable AUDITWHEEL_LD_LIBRARY_PATH.",
-- 
2.43.0


From 4b15bf4f5944137e96c2cb967694f67a8f861eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:22 +0000
Subject: [PATCH 36/37] fix: never run a program of the wheel for a package
 manager

With an empty or relative entry in PATH, programs were looked for in the temporary directory
that holds the contents of the wheel.
---
 src/auditwheel/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/main.py b/src/auditwheel/main.py
index f99c792..d41b28a 100644
--- a/src/auditwheel/main.py
+++ b/src/auditwheel/main.py
@@ -39,7 +39,7 @@ def main() -> int | None:
 
     args = p.parse_args()
 
-    for variable in ("AUDITWHEEL_LD_LIBRARY_PATH", "LD_LIBRARY_PATH"):
+    for variable in ("AUDITWHEEL_LD_LIBRARY_PATH", "LD_LIBRARY_PATH", "PATH"):
         if variable in os.environ:
             os.environ[variable] = options.absolute_paths(os.environ[variable])
 
-- 
2.43.0


From 49288003aaffef6a1eb5f184f4564f7f0796d10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:28 +0000
Subject: [PATCH 37/37] fix: keep the bill of materials of a previous repair

---
 src/auditwheel/repair.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/repair.py b/src/auditwheel/repair.py
index 5db4166..bdb7374 100644
--- a/src/auditwheel/repair.py
+++ b/src/auditwheel/repair.py
@@ -167,7 +167,13 @@ def repair_wheel(
         if sbom_data:
             sbom_dir = Path(dist_info_dirs[0], "sboms")
             sbom_dir.mkdir(exist_ok=True)
-            (sbom_dir / "auditwheel.cdx.json").write_text(json.dumps(sbom_data))
+            sbom_path = sbom_dir / "auditwheel.cdx.json"
+            # the document of a previous repair still describes what that one grafted
+            for index in itertools.count(1):
+                if not sbom_path.exists():
+                    break
+                sbom_path = sbom_dir / f"auditwheel-{index}.cdx.json"
+            sbom_path.write_text(json.dumps(sbom_data))
 
     return output_wheel
 
-- 
2.43.0

