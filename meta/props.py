#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 meta/props.py)."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
P = []
NA = []
S = "src/auditwheel/"


def prop(id, title, statement, over, text, tests, files, mech, *, level="exploration", technique, note,
         observe=None, claimed=True):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        line=dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(text.split())),
                  why_tests_cant=" ".join(tests.split()),
                  anchors=dict(files=[S + f for f in files],
                               mechanism=[dict(name=a, where=S + b) for a, b in mech],
                               observe_at=observe or ["auditwheel command line", "bytes of the written wheel"],
                               hook_needed=None)),
        check=dict(property=id, quick_cmd=f"bin/check {id}",
                   thorough_cmd=f"bin/check {id} --tier thorough",
                   technique=" ".join(technique.split()), level=level, level_note=" ".join(note.split())),
        claimed=claimed))


prop("C01", "A repaired wheel is self-contained",
     """After a successful repair, loading any extension module, executable or in-wheel library of the
     installed wheel that belongs to the wheel's architecture resolves each of its transitive
     dynamic-library needs to a file of the wheel, to a library that every platform the wheel claims
     guarantees, or to a library the user excluded. No need is left dangling and none is satisfied by a
     file outside the wheel that the claimed platforms do not guarantee, wherever the wheel is unpacked
     and whatever the environment of the machine that repaired it.""",
     ["inputs", "configurations"],
     "Every wheel layout, dependency graph of external libraries (chains, diamonds, cycles, aliases, symlinks), way of locating them, architecture, libc and option set.",
     """The tests repair a handful of prebuilt wheels and mock the dependency tree; the integration
     tests need docker images. No test loads a repaired wheel or follows the dependency closure of an
     arbitrary graph.""",
     ["repair.py", "lddtree.py", "policy/__init__.py", "wheel_abi.py", "patcher.py"],
     [("external library search and grafting", "repair.py:repair_wheel"),
      ("closure of external needs per policy", "policy/__init__.py:WheelPolicies.lddtree_external_references"),
      ("library lookup", "lddtree.py:ldd")],
     technique="""runtime monitoring: generated wheels are really repaired; a loader model walks every ELF
     of the installed output and host-runnable outputs are really dlopen()ed after the build tree is moved away""",
     note="""Held on the random worlds run. The walk trusts the check's own ELF reader and a model of ld.so's
     search order; a third of the worlds are additionally loaded by this host's glibc 2.39.""")

prop("C02", "Grafted libraries are faithful, content-named, consistently referenced copies",
     """Every library copied into the wheel is the file its dependents would have loaded at repair time,
     altered only in its soname, the names of libraries it needs (less libpython), and its search path: code, data, symbols
     and permission bits (plus owner write) are those of the source - with --strip, and only then, every
     repaired or grafted ELF file comes without its symbol table. Its file name carries a prefix of the
     SHA-256 of the source file, equals its soname, and every ELF file of the wheel that needed the
     original name - version requirements included - needs the new name instead.
     A library needed several times or under several names is present once.""",
     ["inputs", "configurations"],
     "Every graph of external libraries, naming scheme, permission bits, symlink structure and versioned dependency.",
     """Unit tests check copylib on one dummy file and mock patchelf; nothing compares grafted bytes with
     their source or follows references through an arbitrary graph.""",
     ["repair.py", "hashfile.py", "patcher.py"],
     [("copy and rename", "repair.py:copylib"), ("reference rewriting", "repair.py:repair_wheel"),
      ("content hash", "hashfile.py:hashfile")],
     technique="""runtime monitoring: output ELF files are parsed and compared with their sources by an
     independent reader (section-level conservation oracle)""",
     note="Held on the random graphs run; section comparison ignores only what patchelf must rewrite.")

prop("C03", "RPATH hygiene: relative, inside the wheel, nothing useful lost",
     """After repair, an ELF file that needs a grafted library has a search path that reaches the directory
     holding it, expressed relative to the file's own location. Its search path keeps, in order and without
     duplicates, the original entries that point inside the wheel and contains no entry that is absolute,
     that escapes the wheel, or that was not there before except the one to the grafted libraries; grafted libraries get no
     search path other than their own directory, and ELF files needing no grafted library are unchanged.""",
     ["inputs", "configurations"],
     "Every combination of RPATH/RUNPATH entries, file depth, in-wheel library directory and library sub-directory option.",
     "Tests check a few RPATH strings on one layout; entries, depths and their interaction with grafting are sampled once each.",
     ["repair.py", "patcher.py", "lddtree.py"],
     [("rpath rewriting", "repair.py:append_rpath_within_wheel"), ("entry filter", "repair.py:_is_valid_rpath")],
     technique="runtime monitoring: the dynamic section of every ELF of every output wheel is read and compared with a set-level oracle of allowed entries",
     note="Held on the random RPATH lists run.")

prop("C04", "Payload conservation: repair loses, invents and alters nothing else",
     """Every file, directory entry, permission and byte of the input wheel reaches the output, except:
     the contents of ELF files whose references must change (in which only those references and, with
     stripping requested, symbols and debug data change), the wheel's own tag metadata and
     record, stale signatures, and native executables from the scripts area, which move to a per-package scripts
     directory and are replaced by an executable launcher. The only new files are the grafted libraries, those launchers
     and, when package provenance is known, one software bill of materials.""",
     ["inputs", "configurations"],
     "Every member name, permission mode, directory shape, data tree, foreign-architecture binary and nested metadata directory a wheel can hold.",
     "Tests inspect a few member names of fixed wheels; none accounts for every member byte by byte across odd names, modes and layouts.",
     ["repair.py", "wheeltools.py", "tools.py"],
     [("unpack and repack", "tools.py:zip2dir, dir2zip"), ("in-wheel editing", "wheeltools.py:InWheel"),
      ("script replacement", "repair.py:_replace_elf_script_with_shim")],
     technique="runtime monitoring: conservation oracle over every archive member of input and output, with ELF files compared section by section",
     note="Held on the random wheels run, including hostile member names.")

prop("C05", "The output wheel's RECORD is exact, and signatures are gone",
     """The RECORD of a written wheel lists every file member exactly once, and nothing else, with its true
     SHA-256 and size, its own entry having neither; it parses as the CSV file the wheel specification describes
     for every member name. Signature files of the input's RECORD are not carried over; the .dist-info directory is
     the last of the archive, and RECORD the last file directly in it.""",
     ["inputs", "configurations"],
     "Every member-name set (commas, quotes, line separators, non-ASCII), signed wheel, stale RECORD, grafted library, shim and bill of materials.",
     "A test rewrites one RECORD; no test recomputes every hash of an arbitrary output or uses names that need CSV quoting.",
     ["wheeltools.py", "tools.py", "sboms.py", "repair.py"],
     [("RECORD rewriting", "wheeltools.py:rewrite_record"), ("member order", "tools.py:dir2zip")],
     technique="runtime monitoring: RECORD of every output is recomputed from the raw archive by an independent zip/CSV reader",
     note="Held on the member-name sets run.")

prop("C06", "File name, tags and purelib flag of the output agree and are exact",
     """The output's file-name tags, its metadata tags and its purity flag agree, and equal the input's with
     the generic placeholder platforms (plain linux, any) replaced by the granted platforms, ordered
     canonically; name, version, build number, python and ABI tags and unrelated metadata lines are kept.
     With tag updates disabled, both file name and tag metadata are those of the input.""",
     ["inputs", "configurations"],
     "Every compressed tag set, build number, metadata tag order, requested platform and tag option.",
     "Tests cover a few fixed names; combinations of compressed tag sets, build tags, pure and already-tagged wheels with options are not.",
     ["wheeltools.py", "repair.py", "main_repair.py"],
     [("tag rewriting", "wheeltools.py:add_platforms"), ("output naming", "repair.py:repair_wheel")],
     technique="runtime monitoring: name and metadata of every output are parsed and compared with a tag-algebra oracle",
     note="Held on the tag sets run.")

prop("C07", "The verdict is sound and precise: exactly the best platform satisfied",
     """The platform reported for a wheel is the most compatible one whose symbol-version limits, library
     allow-list, forbidden-symbol list, CPU baseline and Python ABI restrictions are all satisfied by the
     wheel's entry-point binaries and the libraries they pull in, taking external libraries into account
     separately as 'could be reached by bundling'. Every restriction that applies is reported and none is
     invented: definitions, weak or similarly named symbols, foreign-architecture files and dependencies already in the wheel
     do not lower the verdict.""",
     ["inputs", "configurations"],
     "Every set of required symbol versions, libraries, forbidden symbols, CPU feature notes and Python ABI markers, for every architecture and libc.",
     "Tests check the verdict of about ten prebuilt wheels; the space of evidence combinations and thresholds per policy is not enumerated.",
     ["wheel_abi.py", "policy/__init__.py", "elfutils.py", "lddtree.py", "main_show.py"],
     [("wheel analysis", "wheel_abi.py:analyze_wheel_abi"),
      ("symbol version policy", "policy/__init__.py:WheelPolicies.versioned_symbols_policy"),
      ("external reference policy", "policy/__init__.py:WheelPolicies.lddtree_external_references")],
     technique="runtime monitoring against an executable reference model: the reported verdict of every generated wheel is compared with one recomputed from the ground truth it was generated from",
     note="Held on the random evidence mixes run; the oracle shares only the policy JSON tables with the tool.",
     observe=["auditwheel show --json"])

prop("C08", "Repair grants exactly the platforms the written bytes can honestly carry",
     """A repair either refuses, writing no wheel, or grants only platforms whose limits the
     written wheel satisfies: symbol versions, libraries neither bundled nor guaranteed, forbidden symbols of entry points, CPU
     baseline of entry points and bundled libraries (unless that check is disabled), narrow-unicode and
     PyFPE restrictions. It refuses exactly when the requested platform is out of reach or a library is missing; two names of
     the same platform behave identically, and requesting only that platform yields only its names.""",
     ["inputs", "configurations"],
     "Every wheel and every requested platform name, alias, automatic choice and only-platform option.",
     "Tests mock the analysis for a few refusals; no test re-evaluates granted tags against the bytes written.",
     ["main_repair.py", "repair.py", "wheel_abi.py", "policy/__init__.py"],
     [("gating", "main_repair.py:execute"), ("tag choice", "wheeltools.py:add_platforms")],
     technique="runtime monitoring: granted tags are re-evaluated from the output's bytes by an independent reader; refusals are compared with an executable model",
     note="Held on the evidence x platform combinations run.")

prop("C09", "A repair that does not complete leaves nothing behind",
     """Whatever makes a repair stop - refusal, missing library, damaged wheel, failing tool, full disk, failing
     file operation, interrupt, or the process being killed at any instant - no incomplete or unrepaired wheel
     appears under a wheel name in the output directory, a wheel already there is untouched or completely replaced, and no other file is
     altered. Unless killed, the run reports the failure with a non-zero exit status, removes its temporary
     files and restores the working directory. A later run then succeeds normally.""",
     ["crash_points", "fault_sequences", "inputs"],
     "Every file-system call and subprocess start of a repair as the point of failure, interruption or death; every write-size limit; every kind of damaged input.",
     "No test makes a file operation, patchelf or strip fail, or kills the process, during a repair.",
     ["repair.py", "wheeltools.py", "tmpdirs.py", "tools.py", "main_repair.py", "patcher.py"],
     [("publication of the output", "tools.py:dir2zip"), ("cleanup", "tmpdirs.py:InTemporaryDirectory"),
      ("writing only on success", "wheeltools.py:InWheel.__exit__")],
     level="fault_enumeration",
     technique="""runtime monitoring with fault injection: an audit hook fails, interrupts or kills the run at each traced
     operation; the directory tree before and after is compared by an oracle""",
     note="""Two worlds have every traced operation enumerated with each fault kind; the others sample fault points.
     Faults during the clean-up itself may leave temporary files.""")

prop("C10", "auditwheel alters nothing but its own output, whatever the wheel contains",
     """No sub-command creates, changes or removes anything except the wheel it was asked to write (with
     its directory) and private temporary files that are gone afterwards: the input wheel, the external
     libraries, the working and home directories and all else keep content, permissions and time stamps.
     This holds for every wheel content, including member names, RECORD rows, link members and library
     names chosen to escape or to look like options; no program from the wheel is run, and the tools that rewrite ELF
     files are run on private copies only.""",
     ["inputs", "configurations"],
     "Every wheel content, including hostile ones, sub-command, relative or linked path setting and read-only input.",
     "Tests run on well-formed wheels in a scratch directory and do not look at what else changed.",
     ["wheeltools.py", "tools.py", "repair.py", "tmpdirs.py", "patcher.py", "main_repair.py", "main_show.py", "main_lddtree.py"],
     [("member extraction", "tools.py:zip2dir"), ("files considered", "wheeltools.py:InWheelCtx.iter_files"),
      ("copying of external libraries", "repair.py:copylib")],
     technique="""runtime monitoring: an audit-hook trace of every file operation and subprocess is checked against a
     confinement specification, and the surrounding tree is compared before and after""",
     note="Held on the wheels run; subprocess effects are seen through the tree comparison.")

prop("C11", "Repair is reproducible",
     """Repairing the same wheel with the same options and the same SOURCE_DATE_EPOCH produces
     byte-identical output, whatever the hash seed, time zone, start time, directory listing order, temporary and working directory,
     and every archive member then carries exactly that time (clamped to what zip can express). The
     machine-readable verdict of the same wheel is likewise identical between runs.""",
     ["inputs", "configurations", "schedules"],
     "Every wheel, external-library graph, package provenance and pair of run environments.",
     "One test checks time stamps of one wheel; none repeats a repair in a new interpreter with a different hash seed or directory.",
     ["repair.py", "tools.py", "sboms.py", "policy/__init__.py", "main_repair.py", "main_show.py"],
     [("time stamps and member order", "tools.py:dir2zip"), ("bill of materials", "sboms.py:create_sbom_for_wheel")],
     technique="runtime monitoring: differential oracle over pairs of fresh interpreter runs under perturbed environments",
     note="Held on the pairs run; same umask, zlib and patchelf on both sides.")

prop("C13", "Libraries are located exactly where the dynamic loader would find them",
     """The file auditwheel takes for a library another object needs is the file glibc's dynamic loader would
     load for it in the same environment: the search path of the needing object and, for old-style search
     paths, of the objects that led to it, $ORIGIN, LD_LIBRARY_PATH, configuration and default directories are
     honoured in the loader's order, breadth-first, and files of another machine or word size are passed over.
     Directories given with the documented environment variable come first, and explicit --ldpaths
     replaces LD_LIBRARY_PATH and the configuration. Configuration is what ldconfig makes of ld.so.conf (comments,
     includes in order of names) or, for musl, its path file. Each object of a wheel has its own answer, and a repaired wheel bundles and
     links each object to those very files.""",
     ["inputs", "configurations"],
     "Every tree of directories with competing, wrong-architecture or linked copies of the same names, search-path attribute mix and dependency graph.",
     "Tests check one lookup of one library; the loader's order among competing copies and across levels is not tested.",
     ["lddtree.py", "repair.py", "policy/__init__.py"],
     [("search order", "lddtree.py:ldd"), ("search paths", "lddtree.py:load_ld_paths"),
      ("candidate check", "lddtree.py:find_lib"), ("per-object renaming", "repair.py:repair_wheel")],
     technique="""runtime monitoring: differential oracle against a model of ld.so, itself validated in every host-runnable
     world by the real ld.so --list and ldconfig; output wheels of several modules are walked by the same model""",
     note="""Held on the worlds run. Worlds where glibc versions differ or where a name is only found by the loader's
     cache are not compared; of musl only the path file is modelled.""",
     observe=["auditwheel lddtree", "bytes of the written wheel"])

prop("C12", "Repairing a repaired wheel changes nothing",
     """A wheel that auditwheel repaired can be repaired again - with the same options or with the automatic platform -
     on a machine that has none of the external libraries, or has other files under their names, and keeps every
     member's bytes and permissions, bundling and renaming nothing; it keeps at least the
     platforms it had, and when its name stays the same the archive is byte-identical for the same
     SOURCE_DATE_EPOCH. `show` of a repaired wheel reports a platform at least as good as the
     ones granted.""",
     ["inputs", "configurations", "histories"],
     "Every repairable wheel, option set, external library graph, machine the second run happens on and chain of repairs.",
     "No test repairs an output again, let alone where the original libraries are absent or replaced.",
     ["repair.py", "main_repair.py", "wheel_abi.py", "lddtree.py", "wheeltools.py"],
     [("libraries already in the wheel", "policy/__init__.py:WheelPolicies.lddtree_external_references"),
      ("verdict of the output", "wheel_abi.py:analyze_wheel_abi"), ("tags", "wheeltools.py:add_platforms")],
     technique="""runtime monitoring: repair chains with the build tree destroyed and decoys planted between runs; each
     member of successive outputs is compared and show is checked against what was granted""",
     note="Held on the chains run; --strip is not repeated (strip rewrites what it is given).")

prop("C14", "--exclude is honoured exactly, and libpython is never bundled",
     """A library matched by an --exclude pattern - a shell-style pattern compared with its soname or with the path it was found at -
     is not bundled, is not required to exist, its name stays in every file that needs it, and what only it
     needs is not bundled either; it has no say in the platform granted. A pattern matching nothing changes nothing, and nothing but what the patterns match
     (and what only that pulls in) is left out. Unless excluded, libpython in any of its spellings
     is never bundled, and no repaired or bundled file of the wheel still needs it.""",
     ["inputs", "configurations"],
     "Every dependency graph, set of patterns (exact, wildcard, path, look-alike, missing libraries) and libpython spelling.",
     "One test excludes one library in a container; patterns against paths, graphs and absent libraries are not tested.",
     ["lddtree.py", "main_repair.py", "repair.py", "policy/__init__.py"],
     [("exclusion", "lddtree.py:ldd"), ("libpython", "lddtree.py:LIBPYTHON_RE"),
      ("removal of libpython", "repair.py:repair_wheel")],
     technique="""runtime monitoring: the bundled set and all references of each output are compared with a closure model
     evaluated with and without the patterns""",
     note="Held on the worlds run.")

prop("C15", "show tells one story in text, JSON and exit status",
     """For every wheel, `show --json` prints exactly one JSON document that satisfies the shipped schema, `show` and `show -v`
     state the same facts in words - platform, versioned symbols per library, external
     libraries, UCS2, PyFPE and ISA findings, and what stands between the wheel and each better platform - without
     contradicting the JSON, and the exit status is zero. Wheels with no binaries or
     none for this kind of machine are reported as such, in both forms, instead of being given a platform.""",
     ["inputs", "configurations"],
     "Every wheel of every kind and mix of constraints.",
     "Tests compare show's output for a few fixed wheels, and do not compare the text with the JSON.",
     ["main_show.py", "wheel_abi.py", "json.py", "show-schema.json"],
     [("text", "main_show.py:execute"), ("JSON", "main_show.py:ShowResult"), ("kinds of wheel", "wheel_abi.py:get_wheel_elfdata")],
     technique="""runtime monitoring: the outputs of three runs on each wheel are parsed and cross-checked, validated
     against the schema and compared with a reference model""",
     note="Held on the wheels run. The wording is matched by its key phrases.", observe=["auditwheel show"])

prop("C16", "The bill of materials names exactly the owners of what was bundled",
     """When the system's package manager (dpkg, rpm, apk or apt-file) knows the owner of a bundled library, the
     repaired wheel contains a CycloneDX document in its .dist-info/sboms directory, listed in RECORD,
     whose components are the written wheel and exactly those owning packages with their true names,
     versions and package URLs, linked as the wheel's dependencies; libraries that were not bundled
     contribute nothing, no owner is made up, and without any known owner there is no document. Other documents are kept, and
     no answer of a package manager makes a repair fail.""",
     ["inputs", "configurations"],
     "Every set of bundled libraries, package manager, package naming and versioning scheme and unrelated database content.",
     "Tests check one mocked lookup; package names with dashes, epochs, unowned libraries and look-alike paths are not tested.",
     ["sboms.py", "_vendor/whichprovides/__init__.py", "repair.py"],
     [("document", "sboms.py:create_sbom_for_wheel"), ("owner lookup", "_vendor/whichprovides/__init__.py:whichprovides"),
      ("package URLs", "_vendor/whichprovides/__init__.py:ProvidedBy.purl")],
     technique="""runtime monitoring: repairs run with stand-in package managers over generated databases; the document
     in the output is compared with the owners of the files really bundled""",
     note="Held on the worlds run. The package managers are stand-ins printing the documented formats.")

prop("C18", "Repairs do not influence each other",
     """Repairing several wheels with one command writes for each exactly the bytes that repairing it alone
     writes, up to the first that is refused, whose failure gives the command's exit status. Several commands running at the
     same time, sharing output, temporary and working directories, each succeed or fail as they would
     alone and leave together exactly the wheels they would have left separately; at no moment does
     an incomplete wheel appear under a wheel name in the output directory, and no temporary files remain.""",
     ["inputs", "schedules", "configurations"],
     "Every batch of wheels, including ones with colliding library and output names, and every interleaving of file operations of concurrent commands.",
     "No test repairs two dissimilar wheels in one process or runs two commands at once.",
     ["main_repair.py", "repair.py", "tools.py", "tmpdirs.py", "lddtree.py", "patcher.py"],
     [("loop over wheels", "main_repair.py:execute"), ("publication", "tools.py:dir2zip"),
      ("working directory", "tmpdirs.py:InTemporaryDirectory")],
     technique="""runtime monitoring of interleavings: children stop before each traced file operation and a seeded scheduler
     lets one proceed at a time; outputs are compared with separate runs and each intermediate directory state is checked""",
     note="Held on the schedules run; interleaving is at the granularity of Python-level file operations.")

prop("C19", "Wheels that cannot be repaired are refused; pure ones pass through on request",
     """A wheel without binaries is refused, or with --allow-pure-python-wheel copied byte for byte
     under its own name. A wheel with only foreign binaries, with binaries in a directory meant for pure
     Python code, for another architecture or libc than requested, with a malformed name, or a
     path that is no wheel, is refused with a message and non-zero exit status, writing nothing; a previous output stays as it was.
     A wheel that holds binaries but claims to be pure gets real platform tags and is no
     longer marked pure. In no case is the input changed.""",
     ["inputs", "configurations"],
     "Every kind of non-repairable wheel, option combination, and output directory state, including the input's own directory.",
     "Tests cover one pure wheel and one bad architecture by exit status only.",
     ["main_repair.py", "wheel_abi.py", "error.py", "repair.py", "wheeltools.py"],
     [("decisions", "main_repair.py:execute"), ("kinds of wheel", "wheel_abi.py:get_wheel_elfdata"),
      ("names", "wheeltools.py:get_wheel_architecture")],
     technique="runtime monitoring: exit status, output directory and input bytes of each run are compared with the outcome its kind requires",
     note="Held on the wheels run.")

prop("C17", "Programs in a wheel's scripts behave the same after repair",
     """After a repair, launching any script the wheel installs - compiled programs, shell and Python scripts -
     by path, through PATH, a relative path or a link, from an installed environment wherever it was created,
     does what it did before the repair: same arguments, environment,
     standard streams and inherited descriptors, working directory, umask, process id and parent, exit status or terminating
     signal; a program's external libraries now come from the wheel. Scripts that need no change are
     installed byte for byte as they were, and every script stays executable.""",
     ["inputs", "configurations"],
     "Every number, name and kind of scripts, external-library graph, way of launching and outcome.",
     "Tests check that a shim with a fixed text exists next to one program; the program is never run.",
     ["repair.py", "wheeltools.py", "tools.py"],
     [("moving ELF scripts into the wheel and shimming", "repair.py:repair_wheel"),
      ("launcher text", "repair.py")],
     technique="""runtime monitoring: instrumented programs report what they see when launched from fresh virtual environments
     holding the input and the repaired wheel; the two reports are compared""",
     note="""Held on the launches run. Standard install layout only; the SIGPIPE disposition and the
     locale variables CPython itself adjusts are not compared.""",
     observe=["installed scripts", "process attributes seen by the launched program"])

prop("C20", "Requests mean the same however spelled; impossible ones are refused",
     """A repair request has one outcome whether each setting is given as a short, long, joined or repeated option,
     by environment variable, by default, in whatever order, with relative or absolute paths and any verbosity; options win over
     environment variables, and the last of a repeated one wins. The patching program that is asked for is the one run.
     Invalid values - in options or environment - unknown platforms, patching programs that are missing, broken or older
     than 0.14.5, and patching with the 'none' patcher are refused with non-zero exit status before anything is written.""",
     ["inputs", "configurations"],
     "Every combination of settings and spellings; every installed patching program.",
     "Tests parse a few options with mocked main functions; no test compares outputs between spellings.",
     ["main.py", "main_repair.py", "tools.py", "patcher.py"],
     [("environment defaults", "tools.py:EnvironmentDefault"), ("options", "main_repair.py:configure_parser"),
      ("patching programs", "patcher.py")],
     technique="""runtime monitoring: each generated request is run in its canonical and in a random equivalent spelling, outputs compared byte
     for byte; stand-in patching programs log which one ran""",
     note="Held on the requests run. Empty environment values are not judged.")

prop("C21", "The archive written is canonical and well-formed",
     """The output of a repair depends on the members, contents and permissions of the input wheel, not on how its archive was
     encoded: member order, order and quoting of RECORD rows, compression, data descriptors, zip64 records, extra fields, comments,
     time stamps, MS-DOS attributes, file type and set-id bits, permissions of directories and entries for non-empty ones leave no trace (given a fixed SOURCE_DATE_EPOCH). The output is a plain zip archive without gaps, duplicates,
     special mode bits or unmarked non-ASCII names, local and central headers agree, every
     directory's entry precedes its contents, .dist-info comes last, and files are deflated at exactly the requested level
     (the zlib default if none was).""",
     ["inputs", "configurations"],
     "Every wheel, encoding of its archive and compression level.",
     "Tests repack one directory and look at names and sizes; every input they use was written by the same zip writer.",
     ["tools.py", "wheeltools.py", "main_repair.py", "wheel_abi.py"],
     [("unpacking", "tools.py:zip2dir"), ("packing", "tools.py:dir2zip"), ("order", "tools.py:walk")],
     technique="""runtime monitoring: the same members are encoded in two archives and repaired; outputs are compared byte for byte, and their raw
     records parsed and recompressed""",
     note="Held on the wheels run; members up to 100 kB.")

prop("C22", "Every platform tag keeps its defined meaning",
     """For every architecture, each versioned symbol, guaranteed library and forbidden symbol is decided as the platform's
     definition (PEP 513/571/599/600/656 and their published tables) says: a wheel whose only requirement it is gets exactly the
     first platform that allows it, with its aliases as tags, and is shown with exactly the upgrades it blocks. manylinux_x_y never
     admits a glibc symbol later than x.y (except the published AArch64 2.18 case); unknown versions and libraries admit no
     platform tag; a set of requirements gets the lowest platform allowing all.""",
     ["inputs"],
     "Every architecture, libc, symbol version, library and black-listed symbol any platform knows, and unknown neighbours; sets of them.",
     "Tests sample a few symbols; the tables are data, a slip in one row passes every test.",
     ["policy/__init__.py", "policy/manylinux-policy.json", "policy/musllinux-policy.json", "wheel_abi.py", "main_show.py"],
     [("tables", "policy/manylinux-policy.json"), ("symbols", "policy/__init__.py:WheelPolicies.versioned_symbols_policy"),
      ("libraries", "policy/__init__.py:WheelPolicies.lddtree_external_references")],
     technique="""runtime monitoring: one wheel per table entry is shown or repaired by the real command and the
     decision compared with a pinned copy of the definitions""",
     note="""Single requirements are enumerated completely for all architectures (black-lists of the lesser ones sampled); pairs are sampled in the
     thorough tier. Extending a published tag's definition counts as a violation.""")

prop("C23", "Android wheels are repaired by the rules of their own platform",
     """A repaired Android wheel keeps its platform tag and is self-contained on that API level: each need resolves to
     a file of the wheel found by the needing file's own search path, to a library Android guarantees
     from that level on, or to Python's own library, which stays needed by name. Libraries come only from the wheel, the
     given library paths or the environment's library path, never from the build machine's system directories; those the level guarantees are never
     bundled. Search paths are relative to the file and stay in the wheel. Wheels needing more than their
     level offers - bundling below API 24, levels below 21 - or unlocatable libraries are refused without output; show agrees.""",
     ["inputs", "configurations"],
     "Every Android ABI, API level, wheel layout, external library graph and way of locating it.",
     "Tests cover two hand-made wheels at one level with mocked lookups.",
     ["repair.py", "lddtree.py", "policy/__init__.py", "wheel_abi.py", "libc.py", "architecture.py"],
     [("levels", "policy/__init__.py:WheelPolicies"), ("library lookup", "lddtree.py:ldd"), ("search paths", "repair.py:append_rpath_within_wheel")],
     technique="""runtime monitoring: generated Android wheels are shown and repaired; outputs are walked with a model of
     bionic's lookup against the NDK's stable-API table""",
     note="Held on the wheels run. No Android machine: loading is modelled, not performed.")

prop("C24", "Verdict and repair are for the machine and C library the wheel is built for",
     """The platform family and architecture of a verdict or repair are those the wheel's name or the requested platform
     state and, where they are silent, those the wheel's ELF files show: header (machine, class, byte order,
     flags), then the C library or loader a file needs or names as its interpreter, failing that an extension module's
     file-name tag; if no file shows a C library, that of the running system. ELF files for another
     architecture, or another C library than the one known, stay byte-identical and influence neither verdict nor
     tags nor what is bundled. Wheels without any file for their architecture, extension modules whose C library nothing tells, and
     files showing two C libraries are refused without output.""",
     ["inputs", "configurations"],
     "Every mix of files for several machines and C libraries, every kind of evidence, declared or not.",
     "Tests use a few real binaries for a few architectures.",
     ["wheel_abi.py", "lddtree.py", "libc.py", "architecture.py", "main_repair.py", "main_show.py", "wheeltools.py"],
     [("headers", "lddtree.py:_get_platform"), ("C library", "lddtree.py:ldd"), ("selection", "wheel_abi.py:get_wheel_elfdata"),
      ("names", "wheeltools.py:get_wheel_libc")],
     technique="""runtime monitoring: generated wheels whose files tell machine and C library in one way each are shown and repaired;
     verdict, tags and untouched members are compared with what the files were made for""",
     note="Held on the wheels run. Which file decides when nothing is declared and files disagree is not claimed.")

prop("C25", "Members that take no part in loading are inert",
     """Whether or not a wheel that names its machine and holds an ELF file for it also carries members that no dynamic loader would ever take - data, text
     and archives whatever their name (even *.so) and first bytes, relocatable objects and kernel modules, debug information
     split off with objcopy --only-keep-debug, ELF files for devices or other machines - show gives the same
     verdict, repair succeeds or fails alike, the output gets the same name, and every other member and its
     RECORD row are the same bytes. The inert members themselves are carried byte-identical (stripping not requested),
     wherever in the archive they are.""",
     ["inputs", "configurations"],
     "Every number, kind, name and position of inert members, beside every wheel.",
     "Tests have one wheel with foreign binaries; object files, debug files and look-alikes occur in none.",
     ["elfutils.py", "wheel_abi.py", "lddtree.py", "repair.py"],
     [("what counts as ELF file", "elfutils.py:elf_file_filter"), ("selection", "wheel_abi.py:get_wheel_elfdata"),
      ("payload", "repair.py:repair_wheel")],
     technique="""runtime monitoring, metamorphic: each generated wheel is shown and repaired with and without inert members;
     documents, statuses, names and all other members are compared""",
     note="Held on the pairs run. Truncated ELF files (a header without what it describes) are not claimed.")

NOTES = """Runtime monitoring only: bin/check runs the real auditwheel from /repo/src on generated wheels
under an audit-hook monitor and decides with independent oracles (own ELF/zip readers, reference models)."""


def main():
    P.sort(key=lambda p: p["line"]["id"])
    (V / "properties.jsonl").write_text("".join(json.dumps(p["line"]) + "\n" for p in P))
    man = dict(version=1, setup_cmd="bin/setup",
               checks=[p["check"] for p in P if p["claimed"]],
               not_applicable=[dict(property=a, reason=b) for a, b in NA],
               notes=" ".join(NOTES.split()))
    (V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")


main()
