#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json: one place for the list of properties."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe, note):
    assert len(title) <= 80, title
    P.append((dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)), note))

IO = "the calls of package os, made against the simulated machine"
p("C01", "Round trip: what is added is read back byte for byte",
  "Every file or byte sequence added to an archive through any interface (Compress, CompressBytes, CommandAdd, the command), with any of the methods lh0, lh1, lh5, lh6 and lh7 and any of the header levels 0, 1 and 2, is given back unchanged by every reading interface (Headers, Decompress, DecompresBytes, CommandExtract, the command's -e, -p and -t), and each of these reports success. This holds for every content and size, empty ones included, and however few bytes each read or write of a file delivers. (In names the format knows backslash and byte 255 as separators: they come back as slashes.)",
  ["inputs", "configurations", "fault_sequences"], "all contents, sizes, names, methods, header levels, interfaces and sizes of the pieces in which reads deliver",
  "the tests compress two fixed files and never compare what comes back; short reads never occur in them",
  ["slide.go", "huf.go", "dhuf.go", "shuf.go", "bitio.go", "maketree.go", "maketbl.go", "crcio.go", "append.go", "extract.go", "lhext.go", "lha.go", "util.go"],
  [("sliding dictionary and Huffman coders", "slide.go encode/decode, huf.go, dhuf.go"), ("member CRC", "crcio.go"), ("stored instead of compressed when it does not shrink", "lhext.go addOne")],
  [IO, "the bytes of the files extracted and returned"],
  "Real encoder, decoder and archive code in the simulator; the oracle is the original content.")
p("C02", "Written archives are valid LHA archives any reader can decode",
  "Every archive written is a sequence of well-formed LHA headers of the level asked for (sizes, checksum or CRC, extended headers, terminator) with members that an independent decoder of the published format expands to the original content, with the true original size, packed size, CRC, name, owner and modification time recorded. A member is never recorded larger than the file it holds: data that does not shrink is stored. A name too long for the header is refused, never cut.",
  ["inputs", "configurations", "fault_sequences"], "all contents, sizes, names, methods, header levels and interfaces",
  "the tests only read back with the same code, so that a bug in encoder and decoder alike goes unseen",
  ["header.go", "slide.go", "huf.go", "dhuf.go", "shuf.go", "append.go", "lhext.go"],
  [("header writing", "header.go WriteHeader, writeHeaderLevel0/1/2"), ("block and bit output", "huf.go sendBlock, bitio.go putcode"), ("end of the archive", "lhext.go writeArchiveTail")],
  ["the bytes of the archive on the simulated disk"],
  "Oracle: the strict reader and decoders of /verif/sim/ref, written from the format descriptions.")
p("C03", "Archives by other LHA programs are listed, verified and extracted right",
  "For every well-formed archive, of header level 0 to 3 with any extended headers and any of the methods lh0-lh7, lzs, lz4, lz5, pm0, pm2 and lhd, whatever encoder made it, listing shows its members and every reading interface delivers exactly the original contents under the recorded names. The choices of the encoder (block sizes, code tables, match lengths and distances, one-symbol tables) make no difference.",
  ["inputs", "configurations"], "all well-formed archives of any encoder, over all read sizes",
  "the tests hold one foreign archive; most code tables, block layouts and header variants are never seen",
  ["header.go", "huf.go", "shuf.go", "dhuf.go", "larc.go", "pm.go", "pm2hist.go", "pmtree.go", "slide.go", "maketbl.go", "lhext.go"],
  [("header reading", "header.go getHeaderLevel0..3, getExtendedHeader"), ("decoders", "slide.go decode and decodeMethod*, huf.go, shuf.go, dhuf.go, larc.go, pm.go")],
  [IO, "the bytes of the files extracted and returned"],
  "Oracle: the contents that the reference encoders of /verif/sim/ref put into the archive.")
p("C04", "The outcome of an operation does not depend on the operations before it",
  "In one process, what an operation does (its result, what it prints, the files and archives it makes) is a function of its arguments and of the file system: it is the same after any sequence of earlier operations, successful or failed, with any methods and on any archives, damaged ones included, as in a fresh process. Keeping one Lha object for several operations or making a new one makes no difference.",
  ["histories", "fault_sequences", "inputs"], "all sequences of operations, some with failing system calls and on damaged archives, in one process",
  "the tests run one operation per case and never compare with a fresh process; the coders keep their state in package variables",
  ["slide.go", "huf.go", "shuf.go", "dhuf.go", "larc.go", "pm.go", "lha.go", "lhext.go", "crcio.go"],
  [("start of each coder", "slide.go encodeStart, decodeMethodStart"), ("start of an operation", "lha.go begin")],
  ["results, standard output and file system after each operation, against a fresh process"],
  "Each step is run twice: in the process with the history and in a fresh one.")
p("C05", "Concurrent goroutines do not disturb each other",
  "Operations that several goroutines of one process start at the same time, each with its own Lha object, end as if they had been run one after another in some order, under every schedule. With archives of their own each ends exactly as it does alone, and none blocks the others for ever.",
  ["schedules", "inputs"], "all interleavings at statements and system calls of 2 or 3 goroutines",
  "the tests are sequential; the coders share package-level tables",
  ["lha.go", "slide.go", "huf.go", "dhuf.go", "crcio.go", "lhext.go"],
  [("one operation at a time", "lha.go begin")],
  ["results and files of each goroutine"],
  "Preemption at every statement of the real code, at loop heads and system calls, decided by the seed.")
p("C06", "An update changes exactly the members it was asked to change",
  "After any sequence of successful updates (add, replace, create anew, update if newer, exclude, recurse, sort), the archive holds exactly one member for each file taken, with its present content, and every other member byte for byte as it was. Files that are missing, excluded or not newer are not taken, a file named twice is taken once, an archive is not put into itself however it is spelled, and a sorted archive stays sorted.",
  ["histories", "inputs", "configurations"], "all histories of updates on archives of any writer",
  "the tests add to an empty archive; histories and archives by other writers are not reached",
  ["lhext.go", "lha.go", "cmd/lharc.go"],
  [("copying of the members kept", "lhext.go copyOldOne, copyOldOnes"), ("choice of the files", "lhext.go filesToAdd, findUpdateFiles, isExcluded"), ("adding", "lhext.go appendIt, addOne")],
  ["the archive after each operation, against a model"],
  "Oracle: a model of an archive as a list of named contents and raw member bytes.")
p("C07", "A crash or power loss leaves the old archive or the new one",
  "When the process is killed or the machine loses power at any point of an update, the archive is found afterwards either exactly as before or completely updated, never cut, mixed, empty or gone; with a backup asked for, the old archive may instead be found whole under its backup name. At no moment does another process see anything else, and running the update again then succeeds with the full result.",
  ["crash_points", "inputs", "configurations"], "all points of all updates, for process crashes and for power losses with any allowed subset of unsynced data lost or torn",
  "no test stops an update; which writes survive a power loss is beyond any test run on a live machine",
  ["lhext.go"], [("new archive in a temporary file, synced, then renamed over the old one", "lhext.go commandAdd, buildTemporaryFile")],
  ["the durable and the visible state of the simulated disk"],
  "The disk model: data not synced may be lost or torn, directory changes survive as an ordered prefix, fsync of the file is obeyed.")
p("C08", "An update that fails leaves the archive as it was, and no debris",
  "When an update reports a failure, whatever system call failed and how often, the archive is byte for byte as it was before (absent if it was absent), every source file is still there, and no temporary file is left behind. Run again without the fault, it succeeds.",
  ["fault_sequences", "inputs", "configurations"], "all sequences of failing system calls (errors, full disk, short writes) in all updates",
  "no test makes a call fail",
  ["lhext.go", "append.go", "slide.go", "util.go"], [("removal of the temporary file on failure", "lhext.go commandAdd")],
  ["the file system after the failure"], "Failures of the clean-up calls themselves are excepted from the debris rule.")
p("C09", "An update that reports success has taken effect in full",
  "When an update (Compress, CompressBytes, CommandAdd, the command) reports success, although system calls failed or were cut short on the way, the archive on disk is valid, holds every file that was taken with its full content, and holds every other member unchanged. No failed, short or refused read, write, sync, close or rename is passed over in silence.",
  ["fault_sequences", "inputs", "configurations"], "all sequences of failing system calls in all updates",
  "no test makes a call fail",
  ["lhext.go", "append.go", "slide.go", "bitio.go", "crcio.go", "util.go", "header.go"], [("errors kept while coding", "lha.go fail, slide.go encode"), ("errors of the archive file", "lhext.go commandAdd")],
  ["the reported result and the archive"], "Files that cannot be stat'ed may be skipped, as missing ones are.")
p("C10", "Reading that reports success has delivered everything",
  "When an extraction, verification, printing or listing reports success, although system calls failed or were cut short on the way, every member asked for was delivered in full: the files hold the whole contents, the bytes returned or printed are complete, the list names every member. Run again without the faults it succeeds.",
  ["fault_sequences", "inputs", "configurations"], "all sequences of failing system calls in all reading operations",
  "no test makes a call fail",
  ["lhext.go", "extract.go", "slide.go", "crcio.go", "header.go", "lha.go", "util.go"], [("errors kept while decoding", "lha.go fail, slide.go decode"), ("errors of the output file", "lhext.go extractOne")],
  ["the reported result, files, bytes and output"], "Restoring of times and modes is best effort and not judged here.")
p("C11", "Damage to member data or headers, and truncation, are never passed as good",
  "If bytes of a member's packed data or of a header protected by a checksum were changed, or the archive was cut short, no reading interface that reads the affected part reports success with content other than the original. Operations on damaged archives end with an error, and members before the damage are still delivered right.",
  ["inputs", "fault_sequences"], "all single and multiple byte changes and all truncations of all archives, up to collisions of the 16-bit CRC",
  "the tests read intact archives only",
  ["extract.go", "lhext.go", "header.go", "crcio.go"], [("CRC comparison", "lhext.go extractOne, extractOneStream"), ("header checksum and header CRC", "header.go")],
  ["results and delivered contents"], "Changes that collide in the CRC, or are equivalent by an independent decoder, are recognised and not counted.")
p("C12", "No input makes a reading operation crash, hang or exhaust memory",
  "For every sequence of bytes given as an archive, every operation (listing, verification, extraction, updates) ends within time and memory bounded by the sizes of the archive and of the contents it declares, without a panic. It returns a result or an error.",
  ["inputs", "fault_sequences"], "all byte sequences as archives, for all operations, with failing reads",
  "the tests read two well-formed archives",
  ["header.go", "huf.go", "shuf.go", "dhuf.go", "larc.go", "pm.go", "pmtree.go", "maketbl.go", "slide.go", "lhext.go"], [("bounds on header sizes", "header.go"), ("rejection of malformed tables", "maketbl.go makeTable, huf.go readPtLen, readCLen")],
  ["panics, simulated ticks, bytes allocated"], "Bounds: ticks and allocations counted by the simulator.")
p("C13", "Extraction never writes outside of its directory",
  "Whatever names, link targets and orders of members an archive has, and whatever links already lie in the directory, an extraction creates, changes, deletes or follows nothing outside of the directory it extracts to. Members whose names or paths would lead out are refused or stripped to lie inside.",
  ["inputs", "histories", "configurations"], "all names, link targets and member orders, over several extractions into one directory",
  "the tests extract one benign archive",
  ["lhext.go", "header.go"], [("path check", "lhext.go makeNameWithPathcheck, isDirectoryTraversal"), ("links", "lhext.go symlinkWithMakePath, makeParentPath, removeOldFile")],
  ["every change of the simulated file system outside of the directory"], "Runs wholly on the simulated file system: nothing real can be touched.")
p("C14", "Existing files are replaced only with consent",
  "Without force an existing file or link at the place of a member is replaced only after an answer of yes or all to the question about it; no, skip all, an empty line, the end of the input and a failing input all keep it unchanged. Yes covers that one file, all and skip cover the rest of that one operation, and force replaces without questions.",
  ["inputs", "histories", "fault_sequences"], "all member and file combinations, all answers, over several operations of one object",
  "the tests never meet an existing file",
  ["lhext.go", "lha.go"], [("the question", "lhext.go inquire, inquireExtract"), ("forgetting the answers", "lha.go begin")],
  ["files before and after"], "A model of the dialogue is the oracle.")
p("C15", "Reading and no-execute operations change nothing on disk",
  "Listing, verification, printing, reading of headers and members into memory, and every operation under no-execute make no change at all to the file system: no file or directory is created, written, renamed, removed or altered in its attributes. This holds on damaged archives and when system calls fail too.",
  ["inputs", "configurations", "fault_sequences"], "all such operations with all options on all archives",
  "the tests do not look at the file system",
  ["lhext.go", "lha.go"], [("no-execute", "lhext.go commandAdd, extractOne"), ("verification", "lha.go Headers, lhext.go extractOne")],
  ["the log of changes of the simulated file system"], "Access times are not modelled.")
p("C17", "Moving files into an archive never loses data",
  "When files are moved into an archive, at every moment, across crashes, power losses and failing calls, each of them is on disk with its content, under its own name or as a whole member of the archive. A source is removed only after the archive that holds it is in place, and only if it was taken; moved directories go after what they hold.",
  ["crash_points", "fault_sequences", "inputs"], "all points of all moves",
  "no test moves files",
  ["lhext.go"], [("removal after the rename", "lhext.go commandAdd, removeFiles")],
  ["sources and archive after every system call and after every crash"], "Disk model as for C07.")
p("C18", "The backup of the old archive is never lost",
  "When an update keeps a backup, the bytes of the old archive are on disk, under the archive's or the backup's name, at every moment, across crashes and failing calls. After success the backup is exactly the archive as it was before the update.",
  ["crash_points", "fault_sequences", "inputs"], "all points of all updates with a backup",
  "no test asks for a backup",
  ["lhext.go"], [("backup", "lhext.go buildBackupFile, buildBackupName, commandAdd")],
  ["archive and backup after every system call and after every crash"], "Disk model as for C07.")
p("C19", "The exit status of the command tells the truth",
  "The command exits with 0 only if it has done all that it was asked to do, and with another status, and a message on standard error, if not: for a missing, cut, damaged or foreign file as archive, an unwritable target, a failing call, an unsupported command and an invalid value of an option. It does not fail when nothing went wrong.",
  ["inputs", "configurations", "fault_sequences"], "all options on all archives with all failing calls",
  "the tests do not run the command",
  ["cmd/lharc.go", "lhext.go"], [("exit status", "cmd/lharc.go main")],
  ["exit status, standard error, file system"], "Sources that are missing are skipped with a message.")
p("C20", "Operations leave no files open",
  "However an operation ends, with success, with a failure of any system call or on a damaged archive, every file that it opened is closed when it returns. A process can perform any number of operations without running out of descriptors.",
  ["histories", "fault_sequences", "inputs"], "all operations with all failing calls and damaged archives",
  "the tests do not count descriptors",
  ["lhext.go", "lha.go"], [("closing", "lhext.go commandAdd, extractOne; lha.go Headers")],
  ["open descriptors of the simulated process"], "Descriptors are those of the simulated process.")
p("C21", "Concurrent processes see whole archives only",
  "When several processes work on one archive at the same time, some updating and some reading, some killed on the way, every reader gets the result of one whole version of the archive, and the archive ends as a whole version made by the updates in some order, an update that another overtakes possibly being lost as a whole. Every update that is not killed reports success.",
  ["schedules", "crash_points", "inputs"], "all interleavings at system calls of 1 or 2 writers and up to 2 readers",
  "the tests run one process",
  ["lhext.go"], [("replacement by rename", "lhext.go commandAdd"), ("distinct temporary names", "lhext.go buildTemporaryFile")],
  ["each reader's result; the archive after every system call"], "Lost updates of whole versions are allowed: there is no lock between processes.")
p("C22", "Update-if-newer takes exactly the newer files",
  "With update-if-newer a file replaces its member if and only if its modification time, in whole seconds as the header can hold it, is later than the one recorded, in every time zone, for every header level and writer, and whatever the system clock says or does. A file without a member of its name is added, or ignored when the members themselves are what is updated; these keep their names, with the directories in them.",
  ["inputs", "configurations", "fault_sequences"], "all times, zones, header levels, writers and clocks",
  "the tests never update",
  ["lhext.go", "header.go"], [("comparison of the times", "lhext.go filesToAdd, oldStamps"), ("time stamps", "header.go genericToUnixStamp, unixToGenericStamp")],
  ["which members were replaced"], "Zones and clock are simulated.")
p("C23", "Extraction restores the recorded attributes",
  "Extraction gives each file and directory the modification time recorded and, for members of Unix systems, the recorded permissions, and makes links with the recorded targets, whatever the order and nesting of the members, the time zone and the clock. Directories keep their recorded times although files are made inside them afterwards.",
  ["inputs", "configurations"], "all orders and nestings of members, modes, times, zones and clocks",
  "the tests do not look at attributes",
  ["lhext.go", "header.go"], [("attributes", "lhext.go adjustInfo, addDirinfo, adjustDirinfo")],
  ["attributes in the simulated file system"], "The simulated user is root, so owners and all modes can be set.")
p("C24", "The listing shows exactly what the archive holds",
  "Headers and every form of listing show each member of an archive once, in the order of the archive, with its recorded name, original and packed size, method, CRC, permissions and owner or system, Headers with its time too, and the totals and ratios of the listing are those of the members. It is the same for archives of other writers and after any updates.",
  ["inputs", "histories", "configurations"], "all archives, all forms of listing, all zones",
  "the tests list one archive and do not check the output",
  ["lhext.go", "header.go", "lha.go"], [("listing", "lhext.go CommandList, listOne, listTailer, printSize, printStamp")],
  ["standard output and the headers returned"], "Columns are compared by their values, not by their layout.")
p("C25", "The same input makes the same archive",
  "The bytes of an archive made from the same files, options and old archive are the same on every run: they do not depend on the clock, the order in which maps are walked, the name of the temporary file, the process or the sizes in which reads deliver.",
  ["schedules", "inputs", "configurations"], "all clocks, map orders, temporary names and read sizes",
  "the tests never compare two runs, and cannot choose the map order or the clock",
  ["lhext.go", "header.go", "slide.go"], [("deterministic choice and order of the files", "lhext.go filesToAdd, findUpdateFiles, findFiles")],
  ["the bytes of two archives"], "Times recorded for byte sequences without a file are excepted.")
p("C26", "Selective extraction yields the selected members and no others",
  "When members are asked for by name, exactly those are extracted or returned, each with its own content, and nothing else appears; asking for a name that the archive does not hold yields nothing. With directories ignored the files get their base names.",
  ["inputs", "configurations"], "all archives and selections",
  "the tests extract everything",
  ["lhext.go"], [("selection", "lhext.go needFile, extractWithHeader, extractBytesWithHeader")],
  ["files that appear and bytes returned"], "")
p("C27", "A source that changes during the update never corrupts the archive",
  "If a source file grows, shrinks, is overwritten, replaced or removed by another process while it is being added, the update either fails and leaves the old archive as it was, or succeeds with a valid archive in which the member holds bytes of the file with matching size and CRC. The other members are unharmed in every case.",
  ["schedules", "inputs"], "all changes of the sources between any two system calls of the update",
  "the tests' sources never change",
  ["lhext.go", "append.go", "slide.go", "util.go"], [("size and CRC taken from what was read", "append.go EncodeLzhuf, util.go encodeStoredCrc, lhext.go addOne")],
  ["the archive and the result"], "")
p("C28", "An update keeps the permissions of the archive",
  "An archive that exists and is updated or created anew has, at every moment and under every name it gets (a backup's too), the permissions it had before, across crashes and failing calls.",
  ["crash_points", "fault_sequences", "inputs"], "all permissions, updates, failing calls and points of a crash",
  "the tests do not look at permissions, nor between the calls of an update",
  ["lhext.go"], [("permissions of the new archive", "lhext.go setArchiveFileMode"), ("temporary file", "lhext.go buildTemporaryFile")],
  ["attributes in the simulated file system after every system call"], "")
p("C29", "Self-extracting archives are read, and updated without harm to the program",
  "An archive (first header of level 0 to 2) behind the program of a file named .exe, .com or .x is listed, verified and extracted as without the program. An update leaves that file as it is and writes the updated archive beside it, with the extension .lzh, whole or not at all across failures and crashes; a file already there is not replaced. A file of such a name without a program is an ordinary archive.",
  ["inputs", "crash_points", "fault_sequences"], "all programs of up to 60000 bytes, archives, operations, failing calls and crash points",
  "the tests hold no self-extracting archive",
  ["header.go", "lhext.go", "util.go", "lha.go"], [("search of the first header", "header.go SeekLhaHeader"), ("name of the new archive", "lhext.go buildStandardArchiveName, commandAdd"), ("names of programs", "util.go archiveIsMsdosSfx1")],
  ["results, files and both archives"], "")

NA = [("C30", "The textual dump of a header names its fields",
  "The text that a header object gives of itself names its method, sizes, name and permissions as they are in the object.",
  ["inputs"], "all header objects", "one header is printed by the tests",
  ["header.go"], [("dump", "header.go String")], ["the string"],
  "A pure function of a value: no time, schedule, I/O or fault can change its outcome, so there is nothing for a simulator to decide.")]
for n in NA:
    P.append((dict(id=n[0], title=n[1], statement=n[2], quantifier=dict(over=n[3], text=n[4]), why_tests_cant=n[5],
        anchors=dict(files=n[6], mechanism=[dict(name=a, where=b) for a, b in n[7]], observe_at=n[8], hook_needed=None)), None))

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d, _ in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="bash run.sh build /dev/null",
  hooks=dict(guard="none: no hook is committed in /repo",
    enable="run.sh copies /repo's Go files and rewrites the copy (package os, time, sync, map ranges, go statements, loop heads) onto the simulator; /repo is only read",
    source_commits=[]),
  checks=[], not_applicable=[dict(property=n[0], reason=n[9]) for n in NA],
  notes="Seeds: VERIF_SEED (default 1). `bash run.sh replay FILE` replays a violation. known-findings.txt lists the defects repaired.")
for d, note in P:
    if note is None: continue
    i = d["id"]
    m["checks"].append(dict(property=i, quick_cmd=f"bash run.sh {i} quick", thorough_cmd=f"bash run.sh {i} thorough",
      evidence_file=f"evidence/{i}.json", technique="deterministic simulation with fault injection, seeded search", level="exploration",
      level_note=("Seeded random search over simulated executions of the real code; no proof. " + note).strip()))
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
