#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand; the outputs are committed)."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, na=None, level="exploration", note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None), _na=na, _level=level, _note=note))

prop("C01", "Squashing layers preserves the meaning of the layer stack",
 "For every sequence of well-formed layers and every base file system, applying the squashed layer on the base gives the same tree as applying the input layers one after the other: same names, types, contents, link targets, hard-link groups, modes, numeric and symbolic owners, modification times and extended attributes, with whiteouts and opaque whiteouts honoured and symlinked parents resolved inside the root. Entries whose cleaned name lies outside of the root make the command fail. An input that cannot be read completely makes it fail too: it never yields a layer for less than the input.",
 ["inputs", "histories", "fault_sequences", "schedules"], "all layer stacks, bases, input forms (plain, gzip, file, FIFO), read faults and short reads",
 "11 hand-written stacks are compared; the space of stacks (order of whiteouts, links, type changes over several layers, times every base) is unbounded, and none of the tests reads through a faulty device.",
 ["pkg/squash/squash.go", "pkg/squash/readlayer.go", "pkg/squash/vfs.go", "cmd_layer_squash.go", "pkg/fsutil/open.go", "pkg/fsutil/write.go"],
 [("whiteouts before files, per layer", "pkg/squash/squash.go"), ("set, implicit and explicit whiteouts", "pkg/squash/vfs.go"), ("deterministic writer", "pkg/squash/vfs.go")],
 ["layer written to stdout by `ocibuild layer squash`", "exit status"])

prop("C02", "A stack of layers read as a file system shows exactly the final tree",
 "For every sequence of well-formed layers, the read-only file system made from them shows exactly the names, types, sizes, modes, times and contents of the tree that results from applying them in order; symlinks are resolved inside the root, missing and dangling names are reported as not existing, link loops end in an error, and whiteout markers are never visible. Listings are sorted and complete however they are paged. Any number of goroutines using one file system or one open handle at once each see a correct result, and together they see every byte and entry exactly once per handle.",
 ["inputs", "histories", "schedules", "fault_sequences"], "all layer stacks, all sequences of operations, all interleavings of concurrent readers",
 "One fixed layer is checked sequentially; no test has whiteouts, several layers, hard links, dangling links, loops, or two goroutines.",
 ["pkg/squash/vfs_fs.go", "pkg/squash/vfs.go", "pkg/squash/squash.go", "pkg/squash/readlayer.go"],
 [("io/fs adapter", "pkg/squash/vfs_fs.go"), ("path lookup", "pkg/squash/vfs.go"), ("per-handle mutex", "pkg/squash/vfs_fs.go")],
 ["results of Open, Stat, Read, ReadDir"])

prop("C03", "A directory layer is a faithful archive of the directory",
 "The layer made from a directory holds exactly one entry per file below it, in a parent-before-child order, with the file's type, content, link target, device number, mode, owner and modification time, the later names of a hard-linked file as hard links to the first; the prefix directories come first with the given owner, and forced owners replace the real ones on every entry. No timestamp in it is later than the clamp time (SOURCE_DATE_EPOCH, else the time of the run), and earlier ones are kept. A socket cannot be archived, which is an error. If the directory changes or cannot be read while it is archived, the command either fails or writes a well-formed layer in which every file that nobody touched is exact.",
 ["inputs", "histories", "fault_sequences", "configurations"], "all directory trees, flags, clocks, directory orders, concurrent modifications and read faults",
 "No test touches this code.",
 ["pkg/dir/dir.go", "cmd_layer_dir.go", "pkg/reproducible/source_date_epoch.go", "pkg/fsutil/write.go"],
 [("walk and header conversion", "pkg/dir/dir.go"), ("clamping", "pkg/dir/dir.go"), ("hard-link log", "pkg/dir/dir.go")],
 ["layer written to stdout by `ocibuild layer dir`", "exit status"])

prop("C04", "Every command either succeeds completely or fails cleanly",
 "For every command, input and I/O fault: if the exit status is zero, then everything that was written to standard output is the complete, well-formed result, byte for byte what a fault-free run writes; otherwise the exit status is non-zero and standard error (if it can be written) carries a message. A failing write to standard output (full disk, closed pipe, I/O error) is never reported as success, and short reads or writes, interrupted calls, and reading an input from a FIFO instead of a file do not change the result. No input and no fault makes the program crash or hang. (Help texts are not a result; a program that writes to a closed pipe may be ended by SIGPIPE.)",
 ["inputs", "fault_sequences", "schedules"], "every system call of every command as a fault site; all argument lists; damaged and truncated inputs",
 "Tests inject no faults and do not run the commands.",
 ["main.go", "cmd_image_build.go", "cmd_layer_dir.go", "cmd_layer_gobuild.go", "cmd_layer_squash.go", "cmd_layer_wheel.go", "cmd_python_getwheel.go", "cmd_python_inspect.go", "pkg/fsutil/open.go", "pkg/fsutil/write.go", "pkg/cliutil/cobra.go"],
 [("error propagation in each RunE", "cmd_*.go"), ("exit status and message", "main.go"), ("pipe versus file inputs", "pkg/fsutil/open.go")],
 ["stdout", "stderr", "exit status"], level="fault_enumeration")

prop("C05", "gobuild --output replaces the layer file atomically and only when needed",
 "However a `layer gobuild --output=FILE` run ends (success, error, full disk, kill, power loss), FILE afterwards holds either the complete old content (or is still absent, if it was) or the complete new layer, never a part of one; after a run that reported success it durably holds a layer with the current build's contents. A run after an interruption succeeds and leaves the right layer. If the old layer differs from the new one in nothing but timestamps, FILE is left untouched; if it is a readable layer and differs in anything else, it is replaced. A FILE that is not a layer is either replaced as a whole or left alone with an error.",
 ["crash_points", "fault_sequences", "histories"], "every system call as a crash or power-loss point (with any subset of unsynced effects lost), every write as an error site, sequences of runs",
 "No test runs this code; crash points and lost writes cannot be produced by a unit test.",
 ["cmd_layer_gobuild.go", "pkg/gobuild/gobuild.go", "pkg/fsutil/diff.go", "pkg/fsutil/write.go"],
 [("replacement of the output file", "cmd_layer_gobuild.go"), ("comparison except timestamps", "pkg/fsutil/diff.go")],
 ["content, inode and modification time of FILE after the run and after recovery"], level="fault_enumeration")

prop("C06", "A wheel that does not match its RECORD is never installed",
 "If any file of the wheel is missing from RECORD, is listed but absent, has other content or another size than recorded, has a recorded hash of an unacceptable or unknown kind, occurs twice, is below an unknown `.data` key, or would land outside of its install directory (also by the name of an entry point), then `layer wheel` fails and writes no layer. Damage to the stored wheel, wherever in the file and whenever during the run it happens, leads to an error or to the layer of the intact wheel, never to a layer with other content. A wheel of an unsupported major version, with ambiguous metadata directories, or with a console or GUI entry point that does not name a module and a function is refused.",
 ["inputs", "fault_sequences"], "all tampered wheels; every byte of the wheel damaged before or during the run; read faults",
 "No test reads a wheel file.",
 ["pkg/python/pypa/bdist/binary_distribution_format.go", "pkg/python/hashlib.go", "cmd_layer_wheel.go"],
 [("integrity check before install", "pkg/python/pypa/bdist/binary_distribution_format.go"), ("hash table", "pkg/python/hashlib.go")],
 ["exit status and layer of `ocibuild layer wheel`"])

prop("C07", "A wheel layer is what the packaging specifications prescribe",
 "The layer made from a valid wheel contains exactly: the wheel's files at the pure or platform library directory (as the metadata asks), the data subdirectories moved to their scheme locations, scripts with `#!python` rewritten to the platform's interpreter and made executable, one generated launcher per console or GUI entry point, INSTALLER (`ocibuild layer wheel`), and a RECORD that lists every installed file (byte code without hash, the rest with hash and size), compiled byte code for every Python source, and the parent directories. Every entry has the platform's owner and mode 0755 or 0644 after the executable bit stored in the wheel; files of the wheel keep their times, and nothing has a time later than one second after the newest time in the wheel. Nothing of the wheel is lost, duplicated or changed otherwise. A caller of the library gets the same with its choices: with or without launchers and record, another hash and installer name, a recorded origin (direct_url.json), the REQUESTED marker, one time for all files of the wheel, a latest time that nothing exceeds. A platform without an interpreter, or with an install directory that is not absolute, is refused.",
 ["inputs", "configurations", "schedules"], "all valid wheels and platforms, map orders, schedules and compiler timings",
 "No test installs a wheel offline; the expected layer depends on the interplay of five specifications.",
 ["pkg/python/pypa/bdist/binary_distribution_format.go", "pkg/python/pypa/bdist/misc.go", "pkg/python/pypa/bdist/ioutil.go", "pkg/python/pypa/entry_points/entry_points.go", "pkg/python/pypa/recording_installs/recording_installs.go", "pkg/python/py_compile.go", "pkg/python/platform.go", "pkg/python/configparser.go", "pkg/fsutil/fileref.go", "cmd_layer_wheel.go"],
 [("unpack and spread", "pkg/python/pypa/bdist/binary_distribution_format.go"), ("post-install hooks", "pkg/python/pypa/bdist/misc.go"), ("byte-compilation in a scratch directory", "pkg/python/py_compile.go"), ("launchers", "pkg/python/pypa/entry_points/entry_points.go"), ("RECORD", "pkg/python/pypa/recording_installs/recording_installs.go")],
 ["layer of `ocibuild layer wheel`"])

prop("C08", "Equal inputs give byte-identical outputs",
 "With SOURCE_DATE_EPOCH set to a time that is not in the future, running any layer or image command again on inputs of equal content gives byte-identical output: independent of wall-clock time and clock jumps, time zone, umask, process id, temporary directory, directory listing order, hash-map iteration order, goroutine scheduling, sizes of reads, and whether the input comes from a file or a FIFO. `layer wheel`, `layer squash` and `image build` do not depend on SOURCE_DATE_EPOCH being set.",
 ["schedules", "configurations", "inputs"], "all pairs of environments for one input",
 "A test runs in one environment; map orders, schedules and clocks are not under its control, and no test compares two runs.",
 ["pkg/reproducible/source_date_epoch.go", "pkg/fsutil/fileref.go", "pkg/dir/dir.go", "pkg/squash/vfs.go", "pkg/python/py_compile.go", "pkg/python/pypa/bdist/binary_distribution_format.go", "pkg/python/pypa/entry_points/entry_points.go", "pkg/python/pypa/recording_installs/recording_installs.go", "cmd_image_build.go"],
 [("clamp time", "pkg/reproducible/source_date_epoch.go"), ("sorted output", "pkg/fsutil/fileref.go, pkg/squash/vfs.go")],
 ["stdout of two runs"])

prop("C09", "A downloaded wheel is the file the index promised, or an error",
 "`python getwheel` exits with status zero only if it has written exactly the bytes of the requested file, matching the checksum the index page gives for it; otherwise it exits non-zero with a message and writes nothing. This holds for every behaviour of the server and network: resets, truncation, damaged bytes, stalls, delays, error statuses, redirects, compression, chunking, unsupported index versions, malformed pages, and a file that is not listed. The requests go to the normalised project page of the configured server and to the link given there (resolved against the page's URL), without the checksum fragment; for a name that no wheel can have, nothing is requested. The same holds for downloads by the library, whose signature for a file is the one next to it on the server (.asc), or none; and the lists of projects and of a project's files hold every link of the page, or are an error.",
 ["fault_sequences", "inputs", "schedules"], "all index pages and all sequences of network faults",
 "There is no network in the tests; the client is not tested.",
 ["pkg/python/pep503/simple_repo_api.go", "pkg/python/pypa/simple_repo_api/pypa_repo_api.go", "pkg/python/pep629/simple_api_versions.go", "pkg/python/hashlib.go", "pkg/htmlutil/htmlutil.go", "cmd_python_getwheel.go"],
 [("checksum of the fragment", "pkg/python/pep503/simple_repo_api.go"), ("repository version check", "pkg/python/pep629/simple_api_versions.go")],
 ["stdout, exit status, requests at the simulated server"])

prop("C10", "Wheel selection takes the best allowed candidate, whatever the index order",
 "Selecting a wheel for a project from an index returns a wheel whose version satisfies the specifier, which is the best such version (a yanked file only if no other file qualifies, and a pre-release only if no final release does or it is asked for), whose tags and required Python the platform supports, and among these the one with the best supported tag and then the highest build number; if there is none, an error. The choice does not depend on the order of links on the page, on timing, or on the way the page is transferred. A failed or damaged page load gives an error, never a worse choice.",
 ["inputs", "fault_sequences", "schedules"], "all index pages, permutations of links, specifiers, platforms, and network faults while the page is loaded",
 "No test calls the selection; specifier and tag code is tested only in isolation.",
 ["pkg/python/pypa/simple_repo_api/pypa_repo_api.go", "pkg/python/pep592/yank.go", "pkg/python/pep440/02_version_specifiers.go", "pkg/python/pep440/03_tail.go", "pkg/python/pep425/tags.go", "pkg/python/pep503/simple_repo_api.go", "pkg/python/pypa/bdist/binary_distribution_format.go"],
 [("filter, select, rank", "pkg/python/pypa/simple_repo_api/pypa_repo_api.go"), ("yanked releases", "pkg/python/pep592/yank.go"), ("specifier selection", "pkg/python/pep440")],
 ["the link returned"])

prop("C11", "An image lent to Docker is available while used and always removed after",
 "While the callback runs, the complete image is loaded in Docker under a tag that no other user has, also when several callers in one process, or several processes, do this at once; the callback runs at most once and only if loading succeeded. However it ends (success, error, panic of the callback, cancellation of the context at any moment, failure of the load), the tag is gone afterwards if it had been created, no child process is left, and images of others are untouched. An error of the load or the callback is reported to the caller.",
 ["schedules", "fault_sequences", "crash_points"], "all interleavings of concurrent callers, all moments of cancellation, all failures of the docker command",
 "The only test that uses it is skipped without Docker.",
 ["pkg/dockerutil/docker.go", "cmd_python_inspect.go"],
 [("unique tag", "pkg/dockerutil/docker.go"), ("deferred removal", "pkg/dockerutil/docker.go"), ("pipe to the load command", "pkg/dockerutil/docker.go")],
 ["history of the simulated Docker daemon", "returned errors", "child processes"])

prop("C12", "External tools that fail are noticed, and nothing is left behind",
 "If the external compiler or build command cannot be started, exits non-zero, is killed by a signal, or produces files that cannot be read, then the command that ran it fails with a message and writes no layer. After every ending of `layer gobuild` and `layer wheel` (except a kill of the process itself) the temporary directory is as it was before, no child process is running, and the sources given to the compiler are exactly the installed ones. The tool sees the documented arguments and environment, notably the target operating system and architecture for the Go build, and for the byte compiler a fixed hash seed and the installed libraries as the first ones to be imported.",
 ["fault_sequences", "schedules", "inputs"], "all failures of the tool at any point, and all I/O faults while files go to it and come back",
 "No test runs an external tool.",
 ["pkg/gobuild/gobuild.go", "pkg/python/py_compile.go", "cmd_layer_wheel.go", "cmd_layer_gobuild.go"],
 [("scratch directory with deferred removal", "pkg/gobuild/gobuild.go, pkg/python/py_compile.go"), ("error propagation", "pkg/python/py_compile.go")],
 ["exit status, /tmp, process table, argv and environment of the tool"], level="fault_enumeration")

prop("C13", "An image is its base plus the given layers, in order, with the asked-for config",
 "The image written by `image build` has exactly the layers of the base image followed by the given layers in order, each with unchanged uncompressed content, a config whose layer digests match, and the asked-for tag; its environment is the base's (unless cleared) followed by the additions in order, and entry point, command and working directory are the base's unless given. Everything else in the base's config is kept. If the tag is not one, an input is unreadable, a compressed layer is damaged, or the base is not a consistent image archive, it fails (layers without compression and the layers of the base are taken as they are).",
 ["inputs", "configurations", "fault_sequences", "schedules"], "all bases, layer lists, flags, input forms, and I/O faults",
 "No test builds an image.",
 ["cmd_image_build.go", "pkg/fsutil/open.go"],
 [("append layers", "cmd_image_build.go"), ("apply config flags", "cmd_image_build.go")],
 ["image archive on stdout"])

prop("C14", "The inspected platform is that of the interpreter asked for",
 "`python inspect` writes, for the host or for an image, a platform file that states the interpreter paths found on the search path (following symlinks inside the image's own root, and its own environment), and the install scheme, version, magic number and tags that this interpreter reports, the owner of the first existing scheme directory, and a host compiler command whose magic number equals the target's. If any of these cannot be established (interpreter missing or failing, malformed or truncated report, no matching host interpreter, no scheme directory), it fails and writes no platform file. The output can be used as input of `layer wheel` unchanged.",
 ["inputs", "fault_sequences", "configurations", "schedules"], "all file system layouts of host and image, interpreter outputs, failures, and timings",
 "No test runs it.",
 ["cmd_python_inspect.go", "pkg/python/pyinspect/pyinspect.go", "pkg/python/pyinspect/fs_image.go", "pkg/python/pyinspect/fs_native.go", "pkg/dockerutil/docker.go"],
 [("path lookup", "pkg/python/pyinspect/fs_image.go, pkg/python/pyinspect/fs_native.go"), ("dynamic report", "pkg/python/pyinspect/pyinspect.go")],
 ["stdout, exit status"])

prop("C15", "Concurrent library calls do not disturb each other or their arguments",
 "Calls of the layer-building library functions (from a directory, from a wheel, squashing, loading, comparing, from file references) made at the same time by several goroutines, also on the same inputs, give each caller exactly the result of the same call made alone. They neither modify the arguments they are given nor share mutable state, so a second call with the same arguments gives the same result.",
 ["schedules", "histories"], "all interleavings and sequences of calls",
 "Tests call each function once per argument and never concurrently on shared arguments.",
 ["pkg/dir/dir.go", "pkg/squash/squash.go", "pkg/fsutil/fileref.go", "pkg/fsutil/diff.go", "pkg/python/pypa/bdist/binary_distribution_format.go", "pkg/reproducible/source_date_epoch.go", "pkg/python/py_compile.go"],
 [("no shared state", "all")], ["layers returned to each caller", "arguments after the call"])

prop("C16", "Layer comparison ignores timestamps and nothing else",
 "Comparing two layers reports them equal exactly if they have the same entries in the same order with the same names, types, contents, modes, owners, link targets, device numbers and extended attributes; modification, access and change times do not matter, whatever archive format stores them. A layer that cannot be read to the end (a damaged or cut-off one, or one that meets a read error) never compares equal to anything; an archive without compression that ends between two entries counts as complete. The answer does not depend on compression or on how the data arrives.",
 ["inputs", "fault_sequences"], "all pairs of layers, single mutations, and damage or faults while reading",
 "No test compares layers.",
 ["pkg/fsutil/diff.go"], [("header and content comparison", "pkg/fsutil/diff.go")], ["result of the comparison"])

pure = "a pure function of its input: no schedule, clock, I/O, fault or second party for simulation to control; generating inputs for it would be property testing, not simulation"
for id, title, st, files in [
 ("C30", "Version ordering and normalisation follow PEP 440", "For all version strings, parsing, normalisation and comparison agree with PEP 440 and comparison is a total order.", ["pkg/python/pep440/01_version_scheme.go"]),
 ("C31", "Specifier matching follows PEP 440", "For all specifiers and versions, a version matches exactly if PEP 440 says so.", ["pkg/python/pep440/02_version_specifiers.go"]),
 ("C32", "Wheel file names round-trip", "Parsing and generating wheel file names are inverse to each other and reject what the specification does not allow.", ["pkg/python/pypa/bdist/binary_distribution_format.go"]),
 ("C33", "Tag matching follows PEP 425", "Compressed tag sets are expanded and ranked as PEP 425 defines.", ["pkg/python/pep425/tags.go"]),
 ("C34", "File modes survive conversion between stat, zip and io/fs forms", "Converting a file mode to another representation and back gives the same mode.", ["pkg/python/stat.go", "pkg/python/zip.go"]),
 ("C35", "Configuration files are parsed like Python's configparser", "For all texts, the parser accepts what Python's configparser accepts and yields the same sections and values.", ["pkg/python/configparser.go"]),
 ("C36", "direct_url.json is valid and canonical", "The generated document is valid JSON, equal to what Python's json module writes, and follows PEP 610.", ["pkg/python/pypa/direct_url/json.go"]),
 ("C37", "Help texts are wrapped to the terminal width", "No generated help line is longer than the width unless a word is.", ["pkg/cliutil/wordwrap.go"]),
]:
    prop(id, title, st, ["inputs"], "all inputs", "The tests sample inputs.", files, [("the function itself", files[0])], ["return value"], na=pure)

IMPL = os.environ.get("IMPL", "").split() or [p["id"] for p in P if not p["_na"]]
NOTES = json.load(open(os.path.join(D, "tools", "notes.json"))) if os.path.exists(os.path.join(D, "tools", "notes.json")) else {}
with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
m = dict(version=1, setup_cmd="bash run.sh setup", checks=[], not_applicable=[])
for p in P:
    if p["_na"]:
        m["not_applicable"].append(dict(property=p["id"], reason=p["_na"]))
    elif p["id"] not in IMPL:
        m["not_applicable"].append(dict(property=p["id"], reason="the check is not built yet"))
    else:
        m["checks"].append(dict(property=p["id"],
            quick_cmd="VERIF_TIER=quick bash run.sh check %s" % p["id"],
            thorough_cmd="VERIF_TIER=thorough bash run.sh check %s" % p["id"],
            evidence_file="evidence/%s.json" % p["id"],
            technique="deterministic simulation with fault injection: the whole program on a simulated kernel, seeded search over workloads, schedules and faults, judged by a reference model",
            level=p["_level"], level_note=NOTES.get(p["id"], "Sampled, not exhaustive: evidence for every workload, schedule and fault that ran. Trusts the simulated kernel (file system, processes, clock, network), the reference model in /verif/sim/cmd/vsim and the Go toolchain.")))
m["notes"] = "No hooks in /repo: the simulated kernel and scheduler enter through a build overlay of the Go standard library (see DESIGN.md)."
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
