#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here so that they can
be edited with line breaks)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=None)))

DI, AD, D3, CLI, UT = ("atrcopy/diskimages.py", "atrcopy/ataridos.py", "atrcopy/dos33.py",
                       "atrcopy/__init__.py", "atrcopy/utils.py")

prop("C01", "A crash at any instant leaves the old image or the new one, nothing else",
"""If atrcopy is killed, interrupted or loses power at any instant of a command that modifies or replaces a
disk image file (add, add -f, delete, assemble, create, create -f, boot, vtoc --clear-empty), then afterwards
the image file is byte for byte either the complete image from before the command or the complete image the
undisturbed command produces: never truncated, empty, mixed, and never missing if it existed before; an image that existed keeps its owner and permissions.
The next atrcopy command then works on that image normally, and repeating the crashed command on an unchanged image has its usual full effect.""",
["crash_points", "fault_sequences", "histories"],
"""Every crash point between and inside the file-system calls of every image-modifying command, for a process kill
(completed calls survive), a signal interrupt, and a power loss (data not synced may be lost or torn, un-synced
directory operations may be lost), on every supported writable format and at any place in a history of commands.""",
"""The tests save images only in undisturbed runs; no test stops a save half-way, so the in-place truncating
write is never exercised at any of its crash points.""",
[DI, CLI], [("save writes the image file", DI + ":DiskImageBase.save"), ("create writes the template copy", CLI + ":create_image"),
 ("boot saves the boot disk", CLI + ":boot_image")], ["bytes of the image file after the crash", "the next command's result"])

prop("C02", "I/O errors are reported and never turn into silent or partial effects",
"""When the operating system fails, refuses or shortens any file operation (disk full, I/O error, permission denied,
short read or write, failing sync, close or rename) during a command, the command either still completes with its full effect or
visibly fails (non-zero exit or an error report differing from its success report); it never reports success for an effect that is not there.
An image file it was modifying is then entirely the old or entirely the new image, and a file it reports as extracted has exactly the stored contents.
Once the fault has cleared, running the same command again succeeds.""",
["fault_sequences", "inputs", "histories"],
"""Every single fault (and pairs of faults) of every kind at every file operation of every command (list, crc, extract, add, delete, assemble,
create, boot, vtoc -e, segments) on every supported format.""",
"""No test injects an I/O error anywhere; error paths of save, create, extract and the input reads are not executed by the suite.""",
[CLI, DI], [("command functions", CLI + ":add_files/remove_files/extract_files/create_image/boot_image/assemble"), ("image save", DI + ":DiskImageBase.save")],
["exit status and printed report of a command against the files it left"])

prop("C03", "Files on a disk behave as a name-to-contents map over any command history",
"""Over any sequence of add, add -f, delete, assemble, extract, vtoc -e and restarts (including killed commands in between) on Atari DOS 2/2.5 and Apple DOS 3.3
images, whether blank or already populated by another system, extracting a name always returns exactly the bytes last successfully stored under
it (padded with zeros to whole sectors on DOS 3.3; -t translating end-of-line and tab bytes), a deleted name is gone, and every other file is unchanged.
An add that fits in the free sectors and free directory slots is accepted, including empty files, and one that does not fit is rejected as a whole.""",
["histories", "inputs", "crash_points"],
"""All histories of commands over files of any size from zero to the whole disk, any fragmentation, any populated starting image
(locked, deleted and differently typed entries), up to completely full disks and directories.""",
"""The tests add or delete a handful of files on a handful of fixed images in one process; fragmentation, full directories,
slot re-use, foreign catalog entries and long histories are not reached.""",
[DI, AD, D3, UT, CLI], [("allocation and linking", UT + ":VTOC"), ("directory slots", UT + ":Directory"), ("Atari sector chains", AD + ":AtariDosDirent"),
 ("DOS 3.3 track/sector lists", D3 + ":Dos33Dirent")], ["extract, list and crc output", "find_file"])

prop("C04", "A rejected, failed or interrupted edit leaves the open image unchanged",
"""When writing, deleting or clearing free space on an opened disk image fails for any reason (disk full, directory full, no such file, a damaged
file chain, invalid argument, out of memory, keyboard interrupt at any instant), the contents of the image afterwards are exactly those from before the call,
or, for an interrupt that arrives when the work is already finished, exactly those of the completed call. The image object stays usable: later operations on it succeed and behave
as if the failed call had never been made.""",
["fault_sequences", "crash_points", "histories", "inputs"],
"""Every failing operation in every reachable image state, and an allocation failure or interrupt at every point of the execution of write_file, delete_file and shred.""",
"""The tests check that an exception is raised but not that the image is as before, and none injects an allocation failure or interrupt.""",
[DI, UT], [("transaction begin/rollback", DI + ":begin_transaction/rollback_transaction"), ("write_file, delete_file, shred", DI)],
["image bytes before and after", "later operations on the same object"])

prop("C05", "Every image left behind is structurally sound and no sector is lost or shared",
"""After every operation, also one that failed or was interrupted and the restart following it, the on-disk structures satisfy an independent checker: each file's sector chain or track/sector list is well formed, lies in allocated
sectors, matches the recorded sector count and file number, and is shared with no other file or system area; the free map and the stored free-sector count are exactly the complement of
what files and reserved areas use. Adding then deleting a file returns exactly the sectors it took, and names, types, lock flags and positions of all other directory entries, boot sectors and
unused areas are untouched.""",
["histories", "inputs", "fault_sequences"],
"""All histories of commands with failures and restarts on sound starting images of all supported densities, blank or populated by another system.""",
"""The tests compare contents read back through the same code that wrote them; none checks the on-disk structures independently,
the free-sector count, lock flags of other entries, or leaks after failures.""",
[UT, AD, D3, DI], [("free map update", UT + ":VTOC"), ("catalog re-encoding", UT + ":Directory.calc_sectors"), ("dirent encode/parse", AD + ":AtariDosDirent, " + D3 + ":Dos33Dirent")],
["raw image bytes read by an independent file-system checker"])

prop("C06", "Dry runs and read-only commands modify nothing",
"""A command given --dry-run, and every list, crc, segments, plain vtoc and extract command as far as the image is concerned, performs no modification: no file or directory on the host is created, changed, renamed or
removed by it and the disk image keeps its bytes, whatever faults occur and whatever other commands and options it is combined with. (Extract without --dry-run only writes the extracted files.)""",
["inputs", "fault_sequences", "histories", "configurations"],
"""Every combination of command, options, image format (also compressed and damaged ones), existing or missing files, and I/O faults.""",
"""The test-suite never uses --dry-run through the command line and never checks that read commands are write-free.""",
[CLI], [("dry_run tests in each command", CLI)], ["the mutating system calls a command makes", "directory tree before and after"])

prop("C07", "Without -f nothing that already exists is replaced, and locked files stay",
"""Without -f, add, assemble and create never replace or remove a file or image that already exists, extract never overwrites an existing host file (not even one that
another process creates meanwhile), and delete never removes a locked file; the refusal is reported, and the other arguments of the same command are still carried out and saved.
With -f the replacement is complete: exactly one entry with the new contents remains.""",
["histories", "inputs", "schedules"],
"""Every mix of existing, new, repeated and locked names in one command, on every writable format, and every instant at which another process may create the file to be written.""",
"""The tests do not drive the command line with several files of which some exist, nor locked files, nor a racing process.""",
[CLI, DI], [("overwrite guards", CLI + ":save_file/extract_files/create_image/remove_files")], ["image and host tree after each command"])

prop("C08", "Damaged images never make atrcopy hang, run away or alter them",
"""Whatever bytes of an image are corrupted, missing or appended (flipped, torn or lost sectors, truncation, cyclic or out-of-range links, garbage directory or volume table),
every read command (list, list -m, -c, crc, extract --all, vtoc, segments) ends within a bounded number of steps and bounded memory, either with output or with an error of
atrcopy's own error family, and never changes the image file; modifying commands on it end likewise, leaving the old or a complete new image.""",
["inputs", "fault_sequences"],
"""Every damaged variant of every supported image format: single and multiple byte, sector and structure-targeted corruptions at any time between commands.""",
"""The tests contain two fixed looping images; arbitrary corruption of directory, VTOC, links and headers is not explored.""",
[AD, D3, "atrcopy/spartados.py", "atrcopy/parsers.py", DI], [("loop detection", AD + ":AtariDosDirent.process_raw_sector"), ("range checks", DI + ":assert_valid_sector"), ("parser fallback", "atrcopy/parsers.py:SegmentParser.parse")],
["termination, error type, image bytes"])

prop("C09", "Damage to part of a disk never alters what is read from the intact files",
"""After any corruption of sectors that do not belong to a file (other files' data or links, free sectors, boot sectors, other directory entries), extracting that file still returns exactly its
contents as long as the image is still recognised as a disk of that format, and one unreadable file does not stop the others from being extracted when named individually. A file whose own links are damaged is either reported as bad or
yields exactly what its on-disk chain says; on Atari DOS disks (whose sectors carry file numbers, unlike those of MyDOS files) a chain that strays into another file's sectors or loops is always reported, never returned as data.""",
["inputs", "fault_sequences"],
"""Every placement of torn, lost, swapped or corrupted sectors over a populated disk of each format.""",
"""The tests read intact disks plus two fixed bad ones.""",
[AD, D3, DI], [("file-number check", AD + ":process_raw_sector"), ("track/sector walking", D3 + ":get_track_sector_list")], ["extract and find_file per file"])

prop("C10", "A compressed image reads exactly like the plain one, or is refused",
"""For every disk image, each read command on its gzip, bzip2 or xz compressed form gives the same files and contents as on the plain image. If the compressed file is truncated, corrupted or cut short by I/O faults the command either
reports an error or gives exactly the original contents: it never hangs, crashes with a foreign error or presents different data as the files of the disk.""",
["inputs", "fault_sequences"],
"""Every image format and container, every truncation point and byte corruption of the compressed file, every read fault.""",
"""The tests open nine intact compressed files.""",
["atrcopy/container.py", "atrcopy/parsers.py", CLI], [("container unpacking", "atrcopy/container.py"), ("container guessing", "atrcopy/parsers.py:guess_container")], ["list/extract/crc output"])

prop("C11", "Concurrent commands on one image see and leave only complete images",
"""When several atrcopy commands run at the same time on one disk image, in any interleaving of their file operations, each reader behaves as if it had run on the complete image before or after
some writer's commit, and after all have ended the file is byte for byte the complete output of the last writer to commit, computed from the complete image that writer read. No interleaving makes a command fail that would succeed alone, or leaves the image missing or torn.""",
["schedules", "crash_points"],
"""Every interleaving at file-operation granularity of two to four readers and writers on one image, optionally with one of them killed.""",
"""The tests are strictly sequential.""",
[CLI, DI], [("load", CLI + ":find_diskimage"), ("save", DI + ":DiskImageBase.save")], ["outputs of the readers, final image bytes"])

prop("C12", "Assembled programs and boot disks hold exactly the given data and run address",
"""A file made by assemble, read back from the disk, and a boot disk made by boot, decoded independently, contain exactly the bytes of the given -d slices and -b segments (above address 0) at their load addresses and the run address given with -r (else that of the object file, else the first segment's start, for BSAVE the lowest address),
for XEX, BSAVE, KBoot ATR and Apple DSK outputs. If any -d input cannot be read completely, or the data cannot be represented, the command fails and leaves the image as it was rather than writing a program with missing or different contents
(an object file that is not an executable is reported as skipped).""",
["inputs", "fault_sequences"],
"""All combinations of data slices, object files and run addresses, disk formats and sizes up to the capacity, with I/O faults on the inputs and outputs.""",
"""The tests build a few fixed XEX and BSAVE files in memory and one KBoot image; run addresses of boot disks, slices, capacity limits and failing inputs are not covered.""",
["atrcopy/executables.py", "atrcopy/kboot.py", "atrcopy/standard_delivery.py", CLI], [("XEX and BSAVE builders", "atrcopy/executables.py"), ("boot image builders", "atrcopy/kboot.py, atrcopy/standard_delivery.py"), ("segment collection", CLI + ":assemble_segments")],
["extracted program, decoded boot disk"])

prop("C13", "Extraction writes only inside the directory it was told to use",
"""Whatever names the directory of an image contains, by design or corruption (path separators, dot-dot, absolute paths, device-like or empty names), extract creates or changes files only
directly inside the chosen output directory (the current directory by default), and each file it writes has the contents of one file on the image.""",
["inputs", "fault_sequences"],
"""Every directory content an image file can hold, in every supported format, with every extract option.""",
"""The tests never extract through the command line.""",
[CLI], [("output name construction", CLI + ":extract_files")], ["paths opened for writing by extract"])

prop("C14", "Clearing free space zeroes every free sector and touches nothing else",
"""vtoc --clear-empty (and shred) sets every byte of every sector the volume table marks free to zero and changes no byte of any other sector, header, directory or volume table; all files read back unchanged.
This holds on every supported density, at any point of a history, and if the command is killed or fails the image is the old or the fully cleared one.""",
["histories", "crash_points", "inputs"],
"""All reachable images (fragmented, full, empty, with data left in deleted files) of all formats, with crashes and faults during the command.""",
"""One test shreds one image and checks a few sectors.""",
[DI, UT], [("shred", DI + ":DiskImageBase.shred"), ("free sector iteration", UT + ":VTOC.iter_free_sectors")], ["image bytes"])

prop("C15", "Listings, CRCs and free-space figures agree with what is really stored",
"""After any history of commands, failures and restarts, list shows each stored file exactly once with its right name, sector count, type and lock state and nothing else, crc and list -c print the CRC-32 of exactly the bytes that extract yields, and
the free-sector figures printed by list and vtoc equal the number of sectors really available for new files.""",
["histories", "inputs", "crash_points"],
"""All histories of commands over all formats and starting images.""",
"""Only a few file names and counts of fixed images are tested; free counts after modifications are not.""",
[CLI, AD, D3, UT], [("list and crc", CLI + ":list_files/crc_files"), ("free-sector counts", AD + ":get_vtoc, " + UT + ":VTOC.num_free_sectors")], ["printed output"])

prop("C16", "Where a session is split into processes makes no difference",
"""Performing any sequence of edits on one open image object and saving once gives byte for byte the same image, the same results and the same errors as performing each edit in a process of its own with save and reload in between;
saving and reloading at any point, or repeating a save, changes nothing.""",
["histories", "schedules"],
"""All histories of edits (successful and failing), all choices of restart points between them.""",
"""The tests never compare a long-lived image object with a reloaded one.""",
[DI, AD, D3], [("metadata refresh after each edit", DI + ":get_metadata"), ("in-memory image state", DI + ":DiskImageBase")], ["image bytes, files list, exceptions"])

prop("C17", "What a command does depends only on its arguments and the files it is given",
"""The same command on the same files always ends the same way, prints the same report and leaves the same bytes, whatever else differs between two executions: hash seed and random numbers, clock and time zone, the order in which the system returns
directory entries, how the system splits reads and writes, the process's age and earlier work (also failed work) in the same process, and other files lying around. The name and place of an image are not evidence either: the format found, the listing and the extracted
files depend only on the image's bytes.""",
["schedules", "histories", "inputs"],
"""All commands on all images (sound, damaged, compressed, unknown) and all choices the environment and the earlier history of the process can make.""",
"""A test runs each command once per process under one hash seed and one environment; it cannot see a result that would have been another one elsewhere.""",
[CLI, "atrcopy/parsers.py", "atrcopy/container.py", "atrcopy/magic.py"], [("format guessing", "atrcopy/parsers.py:guess_parser_for_mime/iter_parsers"), ("command dispatch", CLI + ":run"), ("template lookup", "atrcopy/utils.py, " + CLI + ":create_image")],
["exit status, printed report and files left, compared between executions"])

prop("C18", "Edits through any segment are seen by all and survive saved sessions",
"""Segments (the parsed ones of an image, and slices, re-indexed subsets and interleavings made of them) are windows on one image: a byte, style, comment or user datum written through any of them is what every other segment covering that position shows there,
and nothing else changes; the volume table and directory segments are exactly these areas, a file's segment holds exactly the file's contents, and what is written through it is what the file then contains. Undoing a comment edit restores styles and comments, resizing the container keeps all segments pointing at their data.
If the image, its segments (in their serialised form) and the session data are saved, and the process ends or is killed at any later time, then the segments restored by a new process have the same
names, attributes, positions, contents, comments, user styles and comment marks as when they were saved, however often this is repeated.""",
["histories", "crash_points", "inputs"],
"""All sequences of edits through all mappings of views over all kinds of images, with saves, kills and restarts at any place between them.""",
"""Tests cover a few mappings and one round trip each; no test edits through several overlapping views, restores indexed views made of indexed views, or goes through more than one save and restart.""",
["atrcopy/segments.py", "atrcopy/parsers.py", AD, D3], [("index mapping", "atrcopy/segments.py:OrderWrapper, SegmentData"), ("serialised state", "atrcopy/segments.py:DefaultSegment.__getstate__/__setstate__/reconstruct_raw"),
 ("session data", "atrcopy/segments.py:DefaultSegment.serialize_session/restore_session")], ["bytes, styles, comments and attributes shown by each segment"])

prop("N02", "Image identification prefers the right format",
"""Known cartridge and disk signatures are recognised and a cartridge header's claims are respected.""",
["inputs"], "All byte strings.", "Tests cover some files.", ["atrcopy/parsers.py", "atrcopy/cartridge.py", "atrcopy/magic.py"], [("guessing", "atrcopy/parsers.py")], ["parser and mime"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        fh.write(json.dumps(p) + "\n")
print(len(P))
