#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mech, claim=True, note="", reason=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, claim=claim, note=note, reason=reason))

PACK = ["cmd/pkger/cmds/pack.go", "parser/parser.go", "parser/source.go", "parser/walk.go", "parser/open.go", "parser/include.go", "parser/decl.go", "pkging/pkgutil/stuff.go", "pkging/mem/add.go", "pkging/mem/embed.go", "pkging/embed/embed.go"]
MEM = ["pkging/mem/mem.go", "pkging/mem/file.go", "internal/maps/files.go"]
DISK = ["pkger.go", "pkging/stdos/stdos.go", "pkging/stdos/file.go"]

prop("C01", "A pack embeds exactly the declared files, unaltered",
 "When `pkger` reports success, the generated pkged.go decodes to a package that holds every file a declaration or -include flag of the module names, and everything below every directory they name, and nothing else. Each entry is found under the path by which it was declared (files of required modules under their own module path) with the same bytes, name, size, mode, directory flag and modification time, to the nanosecond, as on disk when it was packed. The generated source parses, and belongs to the package of the directory it is written to.",
 ["inputs", "configurations"], "all modules, file trees, contents and metadata, sets of declarations and flags, output and working directories",
 "the tests pack one fixed reference module and compare a few names and sizes; contents, metadata and the exactness of the set over arbitrary trees and declaration sets are not sampled",
 PACK + ["pkging/file_info.go", "pkging/mod_time.go", "here/here.go"], "declarations -> Decls.Files -> Stuff -> mem.Add -> MarshalJSON -> embed.Encode -> generated source -> UnmarshalEmbed")
prop("C02", "A pack that cannot do its work says so and leaves nothing half-done",
 "Whatever system call or go command fails while `pkger` packs, and whatever declared file is missing or unreadable, the command either reports an error or has written a complete and correct pkged.go. After an error there is no partial pkged.go and no temporary file at or next to the output path: there is either nothing or an earlier complete result that could not be located or removed. It never panics, hangs, or reports success without the result.",
 ["fault_sequences", "inputs"], "every fault sequence (I/O errors, short and failed reads and writes, full disk, failing go command) at every system call and command of a pack of any module",
 "no test injects a failure; each of the hundreds of calls of one pack is a different failure point",
 PACK, "error propagation from every read, write, stat, walk and exec of the pack to Route's return value; removal of the output")
prop("C03", "The command writes only its own output",
 "Packing changes nothing on disk except pkged.go in the output directory (and a temporary file next to it while it runs), whatever the module declares and wherever it fails. `list` and `parse` create, change and delete nothing except that `list` may remove an earlier pkged.go of the module; `stat`, `info` and `path` change nothing at all. The working directory is the same afterwards.",
 ["inputs", "configurations", "fault_sequences"], "all subcommands, arguments, trees, output directories and fault sequences",
 "the tests look at the file they expect, never at everything else on the disk",
 ["cmd/pkger/cmds/pack.go", "cmd/pkger/cmds/list.go", "cmd/pkger/cmds/parse.go", "cmd/pkger/cmds/stat.go", "cmd/pkger/cmds/info.go", "cmd/pkger/cmds/path.go"], "the file system calls of the commands, and the chdir of go package lookups")
prop("C04", "A crash while packing leaves no broken pkged.go; packing again recovers",
 "If the process is killed or the machine loses power at any moment of a pack, then afterwards the output directory holds either no pkged.go, or a complete earlier one, or the complete new one. Running the same pack again then succeeds and embeds exactly the same files as if the crash had not happened.",
 ["crash_points", "histories"], "every crash point of a pack, with every state of unsynced data and metadata a journalling file system may be left in, repeated crashes included",
 "no test kills a pack; the states are not reachable from a test without control over what reaches the disk",
 ["cmd/pkger/cmds/pack.go", "cmd/pkger/cmds/list.go", "pkging/pkgutil/stuff.go", "parser/parser.go"], "temporary file, sync, rename; removal of stale output before parsing")
prop("C05", "The same tree gives the same pkged.go",
 "Packing two machines' identical copies of a tree yields byte-identical pkged.go files, and `list` and `parse` print identical output. The order in which directories list their entries, the clock, the process's random numbers and map iteration order, read sizes, and the directory the command was started in have no influence.",
 ["schedules", "configurations", "inputs"], "all directory orders, clocks, random seeds and working directories for all modules",
 "a test runs once on one file system with one random seed; the influence of map order and directory order needs them varied under control",
 PACK + ["internal/maps/files.go", "cmd/pkger/cmds/list.go", "cmd/pkger/cmds/parse.go"], "sorting of files, keys and declarations; timestamps in the gzip stream")
prop("C06", "A damaged payload is refused, not believed",
 "Whatever bits of an embedded payload are flipped, cut off, repeated, zeroed or overwritten on its way from the generated source to the program, decoding it either reports an error or yields exactly the original package. It never panics, hangs or yields anything else.",
 ["fault_sequences", "inputs"], "all corruptions (bit flips, truncations, torn, duplicated, reordered and zeroed blocks) of all payloads",
 "the one encoding test feeds an undamaged three byte payload through",
 ["pkging/embed/embed.go", "pkging/mem/embed.go"], "hex, gzip with checksum, JSON; errors passed through by Decode and UnmarshalEmbed")
prop("C07", "Concurrent readers of an embedded package do not disturb each other",
 "Any number of goroutines may open, read, seek, stat, list and walk an embedded package at the same time. Each open file is a private view: its reads and seeks return what a private copy of the packed file would return, regardless of what other handles, of the same file or others, do in the meantime. No call panics, blocks, or changes what a later reader sees.",
 ["schedules", "histories"], "all interleavings of all reader histories over all packages",
 "the tests use one goroutine; an interleaving-dependent defect needs the schedule controlled",
 MEM + ["pkging/mem/embed.go"], "Open hands out a new File per call over shared immutable data; lazily created readers; shared FileInfo")
prop("C08", "An in-memory package is a consistent store under concurrent change",
 "Under any interleaving of concurrent Create, Write, Close, Open, Stat, Remove, RemoveAll and MkdirAll calls on an in-memory package each path behaves as one atomic cell holding nothing, a directory, or a whole file. A file whose creation, writes and close have completed is seen by every later call, with all its bytes and the matching size, until it is removed or replaced; no reader sees part of a write, a size that belongs to other contents, or a file whose removal completed before; creating directories never replaces what exists; no file is created in a directory that is gone; a reader that opened a file before it was replaced or removed keeps that file; Remove refuses a directory that is not empty and removals leave files outside of the named tree alone. No call panics or blocks forever.",
 ["schedules", "histories"], "all interleavings and histories of operations on all packages",
 "the tests call one operation after the other on fresh packages, from one goroutine",
 MEM, "sync.Map of files behind lazily initialised wrappers; File commits its buffer on Close")
prop("C09", "Serialising a live package gives a consistent, loadable copy",
 "Serialising an in-memory package to JSON while other goroutines create, write, close and remove files always succeeds and loads into an equal package. The copy holds every file that exists throughout the call and none that is absent throughout, each with contents and size that the file had, together, at some moment of the call; a copy of an idle package equals it in every entry.",
 ["schedules", "histories", "inputs"], "all interleavings of a serialisation with writer histories, and all packages",
 "the only test of serialisation compares an idle package of a few files",
 ["pkging/mem/embed.go", "pkging/mem/file.go", "internal/maps/files.go", "internal/maps/infos.go", "pkging/file_info.go", "pkging/mod_time.go"], "MarshalJSON ranges over live files; UnmarshalJSON rebuilds them")
prop("C10", "Layers applied at run time answer top-down and are never lost",
 "Once applying a package has returned, Open and Stat of everything it holds and Info of its own packages are answered by it, everything else is answered by the layers applied before it exactly as until then (by the disk as long as nothing is applied), and Walk visits what each layer holds, topmost first. Any number of concurrent applications and readers leave all applied layers in effect; at no moment does a reader see a path vanish that a layer holds, or a package that is only partly applied.",
 ["schedules", "histories"], "all interleavings of Apply with each other and with readers; all layer contents",
 "the test applies one package once, from one goroutine",
 ["apply.go", "pkger.go", "pkging/wrap.go"], "read-write lock around the current implementation; Wrap(parent, with) falling back on error")
prop("C11", "In disk mode a result is either true or an error",
 "When the declared files are used directly from disk, whatever system calls or go commands fail, an operation that reports success has really done its work: bytes read are the file's bytes, listings, FileInfo and walks match the directory tree, created, written and removed files are on disk as requested under the package's own directory. An operation during which nothing failed succeeds and fails exactly when the same operation of package os would on that path, and errors reported keep what os.IsNotExist would tell.",
 ["fault_sequences", "histories", "inputs"], "all histories of operations with faults at every system call",
 "the tests use a healthy disk and one operation per package",
 DISK, "thin wrappers around os with path translation; cached FileInfo")
prop("C12", "Failures do not leak file descriptors",
 "After every operation has returned and every file handed out has been closed, no descriptor opened on the program's behalf is still open, whether the operations succeeded or failed and whatever system call failed in them. This holds for every operation of disk mode, serving directories over HTTP and clients that abort included, and for packing, listing, parsing and the other subcommands of the tool.",
 ["fault_sequences", "histories"], "all histories of operations with faults at every system call",
 "leaks on error paths are invisible to tests: nothing fails and nobody counts",
 DISK + ["pkging/pkgutil/stuff.go", "pkging/mem/add.go", "cmd/pkger/cmds/pack.go"], "Close on every path out of a function that opened a file")
prop("C13", "Disk mode stays inside the package it was asked for",
 "No path given to an operation in disk mode, however it is spelled (dot-dot elements, backslashes, doubled slashes, absolute and module-qualified forms), makes it open, examine, list, create, change or remove anything outside of the directory of the package the path names; symbolic links aside. What is opened or served through a Dir or an opened directory lies below that directory. Package names are never taken for flags by the go command. This also holds when the go command cannot tell where that is: the operation then fails.",
 ["inputs", "fault_sequences", "histories"], "all path strings, operations, histories, and failures of the go command",
 "the tests use a handful of well-formed paths",
 DISK, "here.Parse cleans the path, joined to the package directory")
prop("C14", "Walk visits a tree exactly like filepath.Walk",
 "Walking an embedded package visits the named root and exactly what lies below it, each entry once, with its own FileInfo, in the order in which filepath.Walk visits the same tree on disk; disk mode does the same. Returning filepath.SkipDir for a directory skips what is below it, for a file the rest of its directory, and any other error ends the walk and is returned unchanged. Errors met on the way (disk mode) are handed to the callback, as filepath.Walk does, and files added or removed meanwhile do not disturb the visits of the others. (A root that an embedded package does not hold has no visits.)",
 ["inputs", "schedules", "fault_sequences"], "all trees, roots and callbacks; all interleavings with concurrent changes; all I/O faults",
 "the tests walk one tree whose names sort alike as strings and as path elements, and never return SkipDir",
 ["pkging/mem/mem.go", "pkging/stdos/stdos.go", "internal/maps/files.go"], "ordered keys of the file map with prefix tests; filepath.Walk with path translation")
prop("C15", "Readdir enumerates a directory completely, once, in pages of any size",
 "Reading a directory of an embedded package with Readdir yields its direct entries, each exactly once with its own FileInfo, whatever page sizes are asked for: a positive size yields at most that many and continues where the last call ended, then reports io.EOF; a size of zero or less yields all that is left and no error. This holds for directories opened by path and through another file's Open, and with any number of handles listed concurrently.",
 ["inputs", "schedules", "histories"], "all directories, sequences of page sizes, and interleavings of handles",
 "no test reads a directory in pages or twice",
 ["pkging/mem/file.go", "pkging/mem/mem.go"], "Readdir over Walk with SkipDir")
prop("C16", "Serving a pkger directory over HTTP equals serving it from disk",
 "http.FileServer over a directory of an embedded package or of disk mode (an opened directory or a Dir value) answers every GET and HEAD request, with or without conditional and single-range headers, with the status, headers and body that http.FileServer over http.Dir of the same directory on disk gives. Requests served concurrently, and clients that abort in the middle of a response, do not change the answer to any other request.",
 ["inputs", "schedules", "fault_sequences"], "all trees, request histories, interleavings of concurrent requests and client aborts",
 "the test makes four sequential requests of a fixed tree and compares bodies",
 ["pkging/mem/file.go", "pkging/mem/mem.go", "pkging/stdos/file.go", "pkger.go"], "File as http.File and http.FileSystem: Open relative to a directory, Readdir, Seek, Stat")
prop("C17", "A transient failure of the go command does not stick",
 "If the go command fails while an operation needs it to locate a package, the operation reports an error and nothing is remembered: the same operation succeeds once the go command works again. What was located correctly stays correct through later failures, and needs no further go command. Locating packages from several goroutines at once leaves the working directory of the process as it was.",
 ["fault_sequences", "histories"], "all sequences of operations and go command failures",
 "the tests never make the go command fail",
 ["pkging/stdos/stdos.go", "here/here.go", "internal/maps/infos.go"], "caches of package information, filled only on success")
prop("C18", "An embedded package needs nothing but itself",
 "Reading a packed file touches neither the disk nor the go command, and gives the same answer when the sources are gone, changed or unreadable and the go command is missing. Changing files through the package changes memory only, and no change made through a handle or returned buffer alters the embedded data others see.",
 ["inputs", "fault_sequences", "histories"], "all packages, histories of operations, and states of the machine they run on",
 "the tests run where the sources are, so a fallback to disk cannot be told from embedded data",
 ["pkging/mem/mem.go", "pkging/mem/file.go", "apply.go", "pkging/wrap.go"], "lookups end in the decoded map")
prop("C19", "list reports what a pack embeds",
 "For every module, `pkger list` (text and JSON) names exactly the declared files that a pack of the same tree embeds, each once, in a fixed order and under the path by which it is embedded; a declaration that makes packing fail makes listing fail.",
 ["inputs", "configurations", "fault_sequences"], "all modules and declaration sets, failing go commands and I/O included",
 "the list tests compare with a fixed list for the reference module",
 ["cmd/pkger/cmds/list.go", "parser/decl.go", "parser/walk.go"], "Decls.Files, shared with Stuff")
prop("N01", "Path strings parse to package and name",
 "Every path string in one of the documented forms is split into the package and the cleaned name it denotes.",
 ["inputs"], "all path strings", "a handful of examples is tabulated", ["here/here.go", "pkging/mem/mem.go"], "here.Info.Parse", False,
 reason="a pure function of its argument: no scheduling, time, I/O or fault has any influence on it, so simulation has nothing to decide (its effects are exercised inside C01, C11 and C13)")
prop("N02", "FileInfo and ModTime survive their JSON text form",
 "Every FileInfo and modification time is equal to itself after encoding to JSON and decoding.",
 ["inputs"], "all values", "two examples are tested", ["pkging/file_info.go", "pkging/mod_time.go"], "MarshalJSON / UnmarshalJSON", False,
 reason="a pure round trip without concurrency, time, I/O or faults (met end to end in C01 and C09)")
prop("N03", "Command line arguments reach the right subcommand",
 "Every argument list selects the subcommand it names and its flags, and unknown ones are refused.",
 ["inputs"], "all argument lists", "a few are tested", ["cmd/pkger/cmds/pack.go"], "packCmd.Route", False,
 reason="pure string routing without concurrency, time, I/O or faults")

BUILT = set(open(os.path.join(here, "tools", "built")).read().split())
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
          "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
          "anchors": {"files": p["files"], "mechanism": [{"name": p["mech"], "where": ", ".join(p["files"][:3])}]}}, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["id"]

NOTE = "seeded search, not exhaustive: every explored run is one exactly repeatable execution of the real code on a simulated kernel, disk, clock, go command and scheduler; statement-granular interleavings; trusts the simulated kernel's file semantics and the go command stand-in"
m = {"version": 1, "setup_cmd": "bash setup.sh",
 "hooks": {"guard": "none", "enable": "no hooks are committed in /repo: build.sh instruments copies of its sources through go build -overlay (a scheduling point before every statement, sync and go statements routed to the simulator) and patches copies of the standard library's system call, clock, randomness and exec entry points the same way", "source_commits": []},
 "checks": [], "not_applicable": []}
for p in P:
    if p["claim"] and p["id"] in BUILT:
        m["checks"].append({"property": p["id"], "quick_cmd": "bash check.sh " + p["id"], "thorough_cmd": "bash check.sh " + p["id"] + " -tier thorough",
          "technique": "deterministic simulation with fault injection (seeded search)", "level": "exploration", "level_note": (p["note"] + "; " if p["note"] else "") + NOTE})
    elif p["claim"]:
        m["not_applicable"].append({"property": p["id"], "reason": "the check is still being built"})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
