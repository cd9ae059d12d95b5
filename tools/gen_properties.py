#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
L="lazyfs/src/lazyfs.cpp"; M="lazyfs/src/main.cpp"
C="libs/libpcache/src/cache.cpp"; E="libs/libpcache/src/engine/backends/custom/custom_cache.cpp"
P="libs/libpcache/src/engine/page/page.cpp"; D="libs/libpcache/src/item/data.cpp"
CF="libs/libpcache/src/config/config.cpp"; FA="libs/libpcache/src/faults.cpp"; LP="logparse/parse.py"
BO="libs/libpcache/src/engine/page/block_offsets.cpp"; H="lazyfs/include/lazyfs/lazyfs.hpp"
props=[]
def p(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
        why_tests_cant=why,anchors=dict(files=files,mechanism=mech)))

p("C01","Reads, sizes and writes behave exactly like an ordinary POSIX file",
 "While LazyFS is running, any sequence of open, create, write, read, truncate, fsync and close calls on its files returns exactly what an ordinary POSIX file would: every read yields precisely the bytes last written (zeros in holes and after truncate-extend) and stops at end of file, every size is right, and every call that succeeds on a normal file succeeds here with the right count. This holds whatever mix of cached, synced and not-yet-cached blocks a file has, for every block size, page geometry, offset (also beyond 2 GiB, in large sparse files that exist on the backing store) and length, and for several open handles.",
 ["histories","inputs","configurations"],"all operation sequences, offsets/lengths relative to block edges, block/page geometries and open flags",
 "Unit tests run a dozen fixed sequences with 4096-byte blocks, one block per page and an empty cache; block-edge/partial-block/overlap combinations are unbounded.",
 [L,C,E,P,D],"lfs_read/lfs_write/lfs_truncate block loops over Cache::put_data_blocks/get_data_blocks and Page block data")
p("C02","Data that was fsynced survives every later cache clear or crash",
 "When fsync or fdatasync on a file returns success, the backing file holds the file's complete content and exact size at that moment, and after any later lazyfs::clear-cache, SIGKILL crash or remount (with any unsynced activity in between) the file reads back as that synced content. This holds for data written through any handle, after truncation, rename or hard-linking, and for any number and layout of dirty blocks.",
 ["histories","crash_points","configurations"],"all histories ending in sync, further activity, then clear or kill and remount",
 "Tests sync a few fixed layouts and clear once; they never kill the process, and never sync after truncate/rename/partial rewrites in all orders.",
 [L,C,E],"lfs_fsync -> Cache::sync_owner -> CustomCacheEngine::sync_pages (pwritev streaks + ftruncate)")
p("C03","Unsynced writes and truncates are lost completely on clear or crash",
 "As long as the cache has room, a write or truncate changes nothing in the backing file until fsync, fdatasync or a checkpoint is issued for it, so a lazyfs::clear-cache or a crash at any point takes each file back to exactly its last synced content and size (for a new file: empty). No other operation (read, open, close, rename, link, unlink of another name, stat, fsync of another file) makes unsynced data durable.",
 ["histories","crash_points"],"all histories of data operations on several files with a clear or kill at every position",
 "Tests check only that one unsynced pattern disappears; leaking part of unsynced data to disk through some other operation is invisible to them.",
 [L,C,E],"lfs_write/lfs_truncate put data only in the page cache; only sync_pages/full_checkpoint touch the backing file")
p("C04","After clear-cache LazyFS behaves like a fresh mount of the backing store",
 "After lazyfs::clear-cache completes, every file, size and link count seen through LazyFS equals the backing store, nothing of the discarded data can ever reappear, and every subsequent sequence of operations - including through file handles that were open across the clear, on renamed or hard-linked files - behaves as on a freshly mounted file system.",
 ["histories"],"all pairs of (history before clear, history after clear)",
 "Tests stop at the first read after a clear; stale mappings, pages or metadata left behind only show in longer continuations.",
 [L,C,E],"command_fault_clear_cache -> Cache::clear_all_cache -> remove_cached_item / remove_cached_blocks")
p("C05","cache-checkpoint makes all unsynced data of all files durable",
 "After lazyfs::cache-checkpoint completes, the backing file of every file has exactly the content and size visible through LazyFS, whatever mix of names, hard links, renames, truncates and dirty blocks exists, so a following clear-cache or crash loses nothing and later writes are again unsynced.",
 ["histories"],"all histories of operations on several files followed by checkpoint, clear/kill and continuation",
 "No test issues cache-checkpoint at all.",
 [L,C,E,M],"command_checkpoint -> Cache::full_checkpoint -> sync_owner for each mapped path")
p("C06","A full cache never loses, corrupts or misplaces data",
 "With eviction off and a cache too small for the working set, reads, sizes and writes still behave exactly like a POSIX file, fsync still makes exactly the current content durable, and after a clear or crash every byte of a file is either its last synced value or a value written there since. This holds for one or several blocks per page and any order in which files compete for pages.",
 ["histories","configurations"],"all histories over cache capacities of 1..4 pages and 1..3 blocks per page without eviction",
 "All tests use a cache far larger than their data, so the full-cache write-through path never runs.",
 [L,E,P],"cache_full / allocation-failure write-through in lfs_write, _get_next_free_page, owner_free_pages_mapping")
p("C07","LRU eviction is transparent: evicted pages are written back, never lost",
 "With apply_eviction enabled and a cache too small for the working set, reads, sizes and writes still behave exactly like a POSIX file, fsync still makes exactly the current content durable, and after a clear or crash every byte is either its last synced value or a value written there since; evicting one file's page never affects any other file.",
 ["histories","configurations"],"all histories over cache capacities of 1..4 pages and 1..3 blocks per page with eviction, several files, renames and hard links",
 "No test enables eviction.",
 [E,P,C],"_get_next_free_page eviction branch, Page::sync_data, _update_owner_pages")
p("C08","Hard links to one file share data, size and durability",
 "All hard links of a file always show the same content, size, inode number and the correct link count; data written or synced through one name is visible and durable through every other, and removing or renaming one name (also onto another link of the same file) never loses unsynced data still reachable through the remaining names.",
 ["histories"],"all sequences of link/unlink/rename/write/truncate/fsync/clear over a small set of names",
 "Tests cover three fixed link scenarios; none renames links, unlinks the original with dirty data and continues, or reuses names.",
 [L,C],"file_inode_mapping, insert_inode_mapping/rename_item/remove_cached_item link counting")
p("C09","Rename and unlink move or drop cached data with the name, and only that",
 "Renaming a file or a directory (also over an existing file) carries each file's unsynced content, size and durability to the new path, the replaced file's data disappears, and unlinking removes data; a file later created under any freed name, or on a reused inode number, starts empty and never shows data, size or times of a removed file. Open handles keep working on their file across renames.",
 ["histories"],"all sequences of create/write/rename/unlink/mkdir/dir-rename/clear over a small tree, with inode-number reuse",
 "No test renames; inode reuse depends on the backing FS and never happens in the tests.",
 [L,C],"lfs_rename/lfs_recursive_rename/lfs_unlink with Cache::rename_item/remove_cached_item keyed by inode number")
p("C10","File attributes are reported correctly through the cache",
 "getattr through LazyFS reports for every object the type, mode, owner, inode number, size and link count that the sequence of operations implies, st_blocks consistent with the size, and access/modification times: times set explicitly are reported exactly until the next change, writing or truncating moves mtime forward, and reading or syncing never changes mtime.",
 ["histories"],"all sequences of data and attribute operations (chmod, chown, utimens, write, truncate, link, fsync, clear) on a file",
 "No test looks at attributes other than st_size and, once, st_nlink.",
 [L,C],"lfs_getattr metadata override from the cache, lfs_utimens, update_content_metadata")
p("C11","A crash fault kills LazyFS at exactly the configured operation and timing",
 "After lazyfs::crash::timing=T::op=O::from_rgx=R[::to_rgx=S], LazyFS is killed by SIGKILL at the first operation O whose path(s) contain a match of the given expression(s) - from_rgx against the source, to_rgx against the destination, an omitted one matching everything - before it has any effect or (if it succeeds) after it has taken its full effect according to T, and never at any other operation, path or timing. Several crash faults can be pending at once, and internal steps of another operation do not count as O.",
 ["fault_sequences","histories","inputs"],"all combinations of op, timing, path expressions and operation sequences",
 "No test configures a crash fault.",
 [L,M],"trigger_crash_fault/add_crash_fault called before/after every operation; FIFO parsing in fht_worker")
p("C12","A configured clear fault fires exactly at its Nth operation, before or after",
 "A [[injection]] of type clear-cache with op, from (and to), timing, occurrence N and crash clears all unsynced data exactly once: immediately before or after the N-th such operation on that path (or path pair) and at no other moment, then either kills LazyFS (crash=true) or lets it continue correctly (crash=false). Operations of other kinds or on other paths, and internal steps of other operations, neither fire nor count.",
 ["fault_sequences","histories","configurations"],"all op kinds x timing x occurrence x crash flag x operation sequences",
 "No test uses configured injections; off-by-one occurrence errors or a deadlock when continuing are invisible.",
 [L,CF,FA],"trigger_configured_clear_fault, ClearF counter, command_fault_clear_cache locking")
p("C13","torn-op persists exactly the chosen parts of the chosen write, then crashes",
 "With a torn-op fault on a file (configured or sent over the FIFO), LazyFS is killed right after the write numbered occurrence to that file, and the backing file then holds its last synced content with exactly the listed parts of that write applied at their offsets - equal parts with the remainder going to the last part, or the explicit parts_bytes - and nothing else. If parts_bytes does not sum to the write's size nothing is torn; other writes and files are unaffected before the fault.",
 ["fault_sequences","histories","inputs"],"all part layouts, persist subsets, occurrences, write sizes/offsets and preceding histories",
 "No test uses torn-op.",
 [L,FA,CF],"split_write part arithmetic + crash-after-write fault")
p("C14","torn-seq persists exactly the chosen writes of the chosen group, then crashes",
 "With a torn-seq fault on a file, in the group of consecutive unsynced writes numbered occurrence (a group is two or more writes to that file without an fsync of it in between) exactly the writes listed in persist reach the backing file, LazyFS is killed right after the last listed write, and everything else unsynced is lost. (If only the first write is listed, the group is recognised, and LazyFS killed, at its second write.) fsync of the file starts a new group; writes or faults on other files neither count nor are persisted.",
 ["fault_sequences","histories"],"all persist subsets, occurrences and interleavings of writes/fsyncs over two files",
 "No test uses torn-seq.",
 [L,FA,CF],"persist_write pending first write, ReorderF counters, restart_counter on fsync")
p("C15","The FIFO accepts every valid command and survives every invalid one",
 "Each newline-terminated command written to the FIFO takes effect exactly once and in order, independent of its length and of how many commands are written together; unknown, incomplete or malformed commands (missing or bad fields, bad numbers, bad expressions) are rejected without changing any state, without arming any fault and without stopping LazyFS or the processing of later commands. A fault command is acknowledged as accepted exactly when it armed its fault.",
 ["inputs","histories"],"all small sequences of well-formed and malformed commands, including field omissions, long and batched commands",
 "Tests only ever send a single well-formed clear-cache.",
 [M,L],"fht_worker read loop and field parsing, add_crash_fault/add_torn_op_fault/add_torn_seq_fault validation")
p("C16","The configuration file determines exactly the cache and faults in force",
 "Every valid configuration (sizes with units, blocks per page, manual geometry, eviction flag, FIFO paths, injections) yields exactly that cache geometry and those faults; an invalid injection (missing key or type, value out of range or of the wrong type, unknown type or operation, second torn fault of one kind for a file) is ignored with an error while the valid ones stay in force, and it never arms a fault or prevents start-up. The configuration file is the one given with --config-path or -c, wherever its path lies, and all other command line arguments reach FUSE unchanged.",
 ["configurations"],"all combinations of configuration keys present/absent and valid/invalid values from a small domain",
 "The tests use one configuration file without injections.",
 [CF,FA,M],"Config::load_config, setup_config_by_size/manually, validate() of each fault type")
p("C17","The unsynced-data report names exactly the unsynced files and blocks",
 "lazyfs::unsynced-data-report lists exactly the files that currently have written but unsynced data, under all their names used since the mount or the last clear, with block ranges that cover exactly the unsynced blocks and the right total byte count, and reports that everything is synced when that is so; issuing the report changes nothing. (A file into which a torn fault is being injected is left out, with a note saying so, until its next fsync.)",
 ["histories"],"all histories of writes/fsyncs/clears/checkpoints over several files with a report at every position",
 "No test requests a report.",
 [L,C,E],"command_unsynced_data_report, Cache::report_unsynced_data, get_dirty_blocks_info")
p("C18","Cache usage is accounted exactly and pages are never leaked",
 "The usage shown by lazyfs::display-cache-usage is the percentage of pages holding cached blocks of existing files: a page counts when it holds at least one block; usage grows only with newly cached blocks, returns to 0% after clear-cache or after all files are removed, is reduced by truncating or unlinking files, and stays at or below 100%. No sequence of operations makes pages permanently unusable or lets two blocks share a page slot.",
 ["histories","configurations"],"all histories of write/truncate/unlink/rename/fsync/clear over small page geometries, usage queried at every position",
 "No test queries the usage.",
 [L,E,P],"free_pages/owner_pages_mapping bookkeeping, remove_cached_blocks, truncate_cached_blocks")
p("C19","Concurrent operations and commands are atomic and never deadlock",
 "Under any interleaving of file operations from several threads with each other and with FIFO commands (clear-cache, checkpoint, usage, report, adding faults), every operation completes (no deadlock, no crash of LazyFS), each has the effect and result it would have in some sequential order that respects which request ended before which began, a clear or checkpoint (also one that an injected clear fault makes) takes effect at one moment, the final contents, sizes, names and durable data are those of such an order, and LazyFS threads never access the same memory unsynchronised or after it was freed. (A size reported while a write, truncate or O_TRUNC open of the same file is under way may be any the file has meanwhile; the kernel serialises modifications of one file and changes of one directory.)",
 ["schedules"],"all schedules up to a preemption bound of 2-3 concurrent operations/commands, at lock and system-call granularity",
 "The tests are single threaded (lfscheck's threads use disjoint files and a handful of schedules).",
 [L,C,E],"cache_command_lock, eviction_mtx, FileDataLock, lock_cache_mtx, per-item locks, names_mtx, faults_lock, engine lock")
p("C20","A crash in the middle of a sync never damages other data",
 "If LazyFS is killed between any two (or in the middle of any) backing-store writes issued by fsync, fdatasync, checkpoint or eviction, then after remount every byte of each file is either its last synced value or its value at the time of that sync, each size is one of the two (or between), files not being synced are untouched, and a sync completed before is not undone. Syncs with nothing pending do not modify the backing file's content.",
 ["crash_points","histories"],"all crash points and torn-write prefixes of all syncing operations after small histories",
 "No test kills LazyFS during an operation.",
 [E,P,C],"sync_pages pwritev/ftruncate order, full_checkpoint loop")
p("C21","Backing-store errors are reported and never destroy cached data",
 "If a backing-store call fails (EIO, ENOSPC, short write, failed open), the operation that needed it reports that error instead of success, no bytes other than those requested become visible, an fsync that failed leaves the data cached and unsynced so that a later successful fsync makes it durable, and a failed rename or unlink leaves the file and its unsynced data intact.",
 ["fault_sequences","histories"],"all single backing-call failures at every call position of small histories",
 "Tests never inject backing-store errors.",
 [L,C,E],"return values of pwrite/pwritev/ftruncate/open/rename/unlink in lfs_* and sync_pages")
p("C22","clear-cache completion is signalled exactly once, after the clear took effect",
 "When fifo_path_completed is configured, each lazyfs::clear-cache command produces exactly one line finished::clear-cache on it, written only after the cache has been cleared, and no other command or event produces any output there; without it nothing blocks.",
 ["histories","schedules"],"all small sequences of FIFO commands and operations, with the notification observed at each position",
 "Tests do not configure the completion FIFO.",
 [M,L],"fht_worker completion write after command_fault_clear_cache")
p("C23","The log parser groups operations without losing, inventing or reordering any",
 "For every LazyFS operation log, logparse reports the logged operations in order: each file's or pair's sequence is preserved, repeated groups, no longer than the group limit, are collapsed only when equal (sizes, offsets and modes aside) and with the right count, operation and path filters remove exactly the operations not selected (one with two paths is selected if both are), and the summary counts equal the number of logged operations.",
 ["inputs"],"all logs up to a bounded length over a small alphabet of operations and files, and all option combinations",
 "logparse has no tests.",
 [LP],"parse.py line matching, grouping and counting")
p("C24","Directory, symlink and permission operations pass through unchanged",
 "mkdir, rmdir, symlink, readlink, readdir, chmod, chown, access, link and rename give through LazyFS the same results, error codes and resulting tree as the same calls on the backing file system, including every failing case (missing or existing names, non-empty directories, wrong types), and a failing call changes neither the tree nor any cached data.",
 ["histories","inputs"],"all short sequences of namespace operations over a small tree, mirrored on a plain directory",
 "No test exercises directories, symlinks, permissions or failing namespace calls.",
 [L],"pass-through operations lfs_mkdir/lfs_rmdir/lfs_symlink/lfs_readlink/lfs_readdir/lfs_chmod/lfs_chown/lfs_access")
p("C25","The operation log and the acknowledgements of faults are complete and exact",
 "With log_all_operations on, every file system operation LazyFS receives and carries out is logged exactly once, in the order received, with its path or both paths and the size, offset or open mode given, and no operation is logged that was not received (getattr lines aside); with it off none is. When a crash or clear fault fires it is acknowledged exactly once, with its operation and timing and followed by a report of the data unsynced at that moment, and no fault is acknowledged that does not fire. All of it goes to standard output and to the logfile if one is configured, and is there even if the fault kills LazyFS.",
 ["histories","fault_sequences"],"all histories of operations and commands with logging on/off and to a file; all operations and timings of a fault against short histories",
 "No test reads the log.",
 [L,M],"spdlog::info in every lfs_ operation, trigger_crash_fault/trigger_configured_clear_fault, logger set-up in main")
p("C26","Every descriptor LazyFS opens is closed again, and no other",
 "After every operation or command, whether it succeeded or failed (also because a backing-store call failed), LazyFS holds exactly the descriptors it held after mounting plus one for each file or directory handle that applications have open; once all handles are closed none remain, so the space of deleted files is given back and LazyFS can run for any length of time. It never closes a descriptor that is not open.",
 ["histories","fault_sequences"],"all sequences of succeeding and failing operations and commands, with caches that are large, full or evicting and with faults armed; every backing-store call of an operation failing",
 "Tests are too short to run out of descriptors, and never take an error path.",
 [L,C,E],"every open()/opendir() in the lfs_ operations and in the cache engine's write-back paths, with all their early returns")
p("C27","The mount scripts start and stop LazyFS exactly as their options say",
 "mount-lazyfs.sh starts LazyFS exactly once, with exactly the mount point, configuration and root given (in any order and spelling of the options, also when the paths contain spaces or wildcards; of an option given twice the last one counts), in the foreground if and only if -f is given; if an option or value is missing, an argument is unknown, or a path does not exist, it starts nothing, says so and ends. umount-lazyfs.sh unmounts exactly the mount point given, or ends without unmounting anything.",
 ["inputs"],"all orders and spellings of the options, all small command lines of the unmount script, every missing, unknown or wrong argument at every position",
 "No test runs the scripts with more than one kind of command line.",
 ["lazyfs/scripts/mount-lazyfs.sh","lazyfs/scripts/umount-lazyfs.sh"],"option loop, path checks and the final command of both scripts")
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in props: f.write(json.dumps(x)+"\n")
print(len(props))
