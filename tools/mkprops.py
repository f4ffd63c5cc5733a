#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=observe or [],hook_needed=None)))
LF="lazyfs/src/lazyfs.cpp"; CA="libs/libpcache/src/cache.cpp"; EN="libs/libpcache/src/engine/backends/custom/custom_cache.cpp"
PG="libs/libpcache/src/engine/page/page.cpp"; BO="libs/libpcache/src/engine/page/block_offsets.cpp"
DA="libs/libpcache/src/item/data.cpp"; IT="libs/libpcache/src/item/item.cpp"; BI="libs/libpcache/src/item/block_info.cpp"
FA="libs/libpcache/src/faults.cpp"; CO="libs/libpcache/src/config/config.cpp"; MA="lazyfs/src/main.cpp"

p("C01","Reads return exactly the most recently written bytes",
"A read of any byte range of a regular file returns, for every position, the byte most recently written there through the file system (or the byte already in the backing file if it was never overwritten), and zero for positions inside the file that were never written. It returns exactly the number of bytes between the offset and the end of the file, capped by the requested size, and nothing from beyond the end of the file. This holds whatever mixture of the requested blocks is in the cache, on disk only, or already synced.",
["inputs","histories","configurations"],"every file, offset, size and every prior sequence of writes, truncates, fsyncs and cache clears; every block size and cache size",
"The tests read back a handful of small offsets with one configuration; they do not reach unaligned ranges that straddle cached and uncached blocks, gaps, or reads that cross the end of the file.",
[LF,CA,EN,PG,DA],[("lfs_read block loop",LF),("lfs_write block loop",LF),("Cache::get_data_blocks / put_data_blocks",CA),("CustomCacheEngine::get_blocks / allocate_blocks",EN),("Page::get_block_data / update_block_data",PG)],
[("contents","cached items per inode",CA),("page data","block bytes in page memory",PG)],["bytes and count returned by read"])

p("C02","fsync makes a file's current contents and size durable",
"When fsync or fdatasync on a file returns success, the backing file holds exactly the file's current logical contents and size: every byte written before the fsync and no stale byte past the size. The result holds however many blocks are dirty, in whatever order and at whatever distance they were written, and after an immediate cache clear or crash of the file system reads still return that content.",
["inputs","histories","crash_points"],"every set of dirty blocks and every crash after fsync returns",
"Tests fsync small contiguous files; they do not cover sparse dirty sets, long runs over the vector-I/O limit, several blocks per page, partially filled middle blocks or shrunk files.",
[EN,CA,LF],[("CustomCacheEngine::sync_pages run building and pwritev",EN),("Cache::sync_owner",CA),("lfs_fsync",LF)],
[("page dirty flag","page has data not yet on disk",PG),("block clean flag","block already synced",EN)],["backing file bytes and size after fsync"])

p("C03","Unsynced writes never reach the backing file by themselves",
"While the cache has room, eviction is off and no fault fires, a write, or a truncate that extends or shrinks a file, does not change the bytes or the size of the backing file until fsync or a checkpoint is requested for it. Reads, attribute queries, opens and renames never change backing file data either.",
["inputs","histories"],"every sequence of operations without fsync, checkpoint or fault",
"Tests look at the backing file in a few fixed scenarios, not after every sequence of overlapping writes, re-reads, renames and truncates.",
[LF,CA,EN],[("lfs_write cache-first path",LF),("lfs_truncate",LF),("Cache::truncate_item",CA)],[],["backing file bytes and size"])

p("C04","Clearing the cache drops exactly the unsynced state",
"After the clear-cache fault, every file reads and stats as its backing file: all synced data is still there, all unsynced writes, truncations and cached attributes are gone. Every cache page becomes free again, and later operations behave as on a freshly mounted file system.",
["histories","crash_points"],"every history of operations before and after the clear",
"Tests clear after one or two writes; whether every item, mapping, lock and page is released for every reachable cache state cannot be sampled.",
[LF,CA,EN],[("Cache::clear_all_cache",CA),("Cache::remove_cached_item",CA),("CustomCacheEngine::remove_cached_blocks",EN),("command_fault_clear_cache",LF)],
[("file_inode_mapping","path to inode map",CA),("contents","cached items",CA)],["reads, stat, backing file, cache usage after clear"])

p("C05","A full cache never loses or corrupts data",
"When a write does not fit in the cache (cache full, eviction off), the bytes that cannot be cached are written straight to the backing file at the right position, and cached blocks keep working. Afterwards reads, sizes and fsync results are the same as with an unlimited cache.",
["inputs","histories","configurations"],"every cache size, every fill level and every write range relative to what is cached",
"Tests never run with a cache smaller than the data written.",
[LF,EN,CA],[("cache_full branch and pwrite fallback in lfs_write",LF),("allocation failure result -1",EN),("put_data_blocks removes the block on failure",CA)],[],["read results and backing file"])

p("C06","Cache pages are never shared, leaked or double-booked",
"At every moment each cache page is either free or belongs to exactly one file, and every cached block occupies its own space, overlapped by no other block. Pages return to the free pool exactly when the data in them is dropped, so the reported cache usage is exactly the percentage of pages that hold cached data and repeated use never exhausts the cache while data is absent.",
["histories","configurations"],"every sequence of cache operations and every geometry (pages, blocks per page)",
"A unit test samples a few allocation patterns; exclusivity and no-leak are invariants over all histories.",
[EN,PG,BO],[("free_pages / owner_pages_mapping / owner_free_pages_mapping bookkeeping",EN),("Page::get_allocate_free_offset, remove_block, reset",PG),("get_engine_usage",EN)],
[("free_pages","ids of empty pages",EN),("search_index","page id to page",EN)],["cache-usage command; data never overwritten by other files"])

p("C07","Truncate sets the size, keeps the prefix and zero-fills growth",
"After truncating a file to a size, the file has exactly that size, the bytes before min(old size, new size) are unchanged, and every byte between the old and the new size reads as zero, also when the file is later extended or written past the cut. Truncate and open with truncation return 0 on success, and a following fsync makes the truncated file durable.",
["inputs","histories"],"every old size, new size, cache state and every later extension",
"Existing tests truncate few sizes and do not re-extend after shrinking inside a block or across blocks per page.",
[LF,CA,DA,EN,PG],[("lfs_truncate",LF),("Cache::truncate_item",CA),("Data::truncate_blocks_after",DA),("CustomCacheEngine::truncate_cached_blocks",EN),("Page::write_null_from",PG)],[],["size, read contents, return code, backing file after fsync"])

p("C08","Renames, hard links and unlinks keep data with the right file",
"Unsynced data follows the file through rename (also of directories) and is visible through every hard link; unlinking one name leaves the data reachable through the others. Removing the last name, or renaming over a file, discards only that file's cached state, and a file later created under an old name never sees old data.",
["histories","inputs"],"every sequence of link, rename, unlink and create over any set of names",
"Tests use one rename or link at a time with fixed names.",
[CA,LF],[("Cache::rename_item",CA),("Cache::remove_cached_item",CA),("Cache::insert_inode_mapping",CA),("lfs_rename / lfs_recursive_rename / lfs_link / lfs_unlink",LF)],
[("file_inode_mapping","path to inode map",CA),("nlinks","cached link count",CA)],["content read under each name"])

p("C09","Reported attributes describe the logical file",
"Attribute queries on a regular file report the size including unsynced writes and truncates, the number of 512-byte blocks that this size occupies in whole I/O blocks, the number of hard links, and modification times updated by the latest write or truncate. Files that are not cached, and directories, links and devices, report exactly what the backing file system reports.",
["inputs","histories"],"every file kind and every history",
"Tests compare sizes after a few writes only.",
[LF,IT,CA],[("lfs_getattr",LF),("Item::update_metadata",IT),("metadata update in lfs_write / lfs_truncate",LF)],[],["stat results"])

p("C10","torn-op persists exactly the selected parts, then crashes",
"When a torn-op fault is configured for a file, the configured occurrence of a write to it leaves in the backing file exactly the selected parts of that write at their true positions and nothing of the other parts, and then the file system crashes after that write. With a number of parts, the write is cut in equal parts with the remainder belonging to the last part; with byte sizes, they must add up to the write or no fault is injected. Other occurrences and other files are not affected.",
["inputs","fault_sequences","crash_points"],"every write size and offset, every parts / parts_bytes / persist selection and every occurrence",
"Tests inject one or two splits with evenly dividing sizes.",
[LF,FA],[("LazyFS::split_write",LF),("SplitWriteF",FA)],[("counter","writes seen so far",FA)],["backing file bytes at the crash"])

p("C11","torn-seq persists exactly the selected writes of the chosen group",
"When a torn-seq fault is configured for a file, exactly the selected writes of the configured group of consecutive writes (at least two writes, with no fsync of that file between them) are stored in the backing file, unmodified and in place, and the file system crashes after the last selected one. An fsync of the file starts a new group, a lone write never counts as a group, and writes to other files are never affected.",
["histories","fault_sequences","crash_points"],"every interleaving of writes and fsyncs over any files, every group number and persist selection",
"Tests replay one scripted sequence.",
[LF,FA],[("LazyFS::persist_write",LF),("get_and_update_reorder_fault / restart_counter / check_and_delete_pendingwrite",LF)],[("pending_write","first write of a group, held back",LF),("group_counter","groups seen",FA)],["backing file bytes at the crash"])

p("C12","clear faults fire at exactly the configured operation",
"A configured clear fault takes effect exactly once, at the configured occurrence (counting from 1) of the configured operation on the configured path (both paths for link, rename and symlink), before the operation runs or after it completed as configured, and never for other operations, paths or occurrences. With crash set the process is killed at that point; without it the unsynced data is dropped and the file system keeps serving requests.",
["inputs","fault_sequences","histories"],"every operation, path, timing, occurrence and every history of operations",
"Tests configure one fault on one operation and only see that the process died.",
[LF,FA],[("LazyFS::trigger_configured_clear_fault",LF),("calls at entry and exit of each operation",LF)],[("counter","occurrences of the operation",FA)],["which operation sees the fault"])

p("C13","Injected crash faults hit exactly the matching operations",
"A crash fault added at run time kills the process at the configured moment (before or after) of the next operation of the configured kind whose path matches the given pattern anywhere; for two-path operations each given pattern must match its own path and an omitted one is ignored. Operations that do not match, of other kinds, or that failed in the after case, do not crash.",
["inputs","fault_sequences"],"every operation kind, timing, pattern pair and path pair",
"Tests inject single-path crashes with literal names.",
[LF,MA],[("LazyFS::trigger_crash_fault",LF),("LazyFS::add_crash_fault",LF)],[],["process killed or not"])

p("C14","Only well-formed faults are accepted, and as they were given",
"A fault given in the configuration file or by command is accepted only if it is well-formed: known operation and timing, positive occurrence, both paths for two-path operations and one for the others, a positive number of parts, or positive part sizes, persisted parts positive and within range, and at most one torn fault of each kind per file. Ill-formed faults are rejected and never injected; accepted ones carry exactly the given parameters, with persisted writes taken in increasing order.",
["inputs","configurations"],"every combination of parameter values",
"Tests cover a few malformed examples.",
[FA,CO,LF,MA],[("ClearF / ReorderF / SplitWriteF validate",FA),("Config::load_config",CO),("add_torn_op_fault / add_torn_seq_fault",LF),("fht_worker",MA)],[],["errors reported, faults installed"])

p("C15","The unsynced-data report lists exactly the unsynced data",
"The unsynced data report lists exactly the files that have blocks not yet synced, and for each exactly those blocks with their byte ranges and the page holding them; files that are fully synced do not appear. The names reported for a file are exactly the known paths of that inode.",
["histories"],"every history of writes, fsyncs, truncates and clears",
"Tests only grep the log for one file.",
[CA,EN,LF],[("Cache::report_unsynced_data",CA),("CustomCacheEngine::get_dirty_blocks_info",EN),("Cache::find_files_mapped_to_inode",CA),("command_unsynced_data_report",LF)],[("block clean flag","synced since last write",EN)],["report contents"])

p("C16","A checkpoint persists every file and keeps the cache",
"After a cache checkpoint every known file's backing data and size equal its logical contents and size, as if each had been synced. The cache keeps serving the same contents and the unsynced report becomes empty.",
["histories"],"every cache state",
"One test with one file.",
[CA,LF,EN],[("Cache::full_checkpoint",CA),("Cache::sync_owner",CA)],[],["backing files after checkpoint"])

p("C17","Eviction replaces the least recently used page",
"With eviction on, when the cache is full a new block replaces the page that was used least recently (a block added to it, or a block read from it), only the blocks of that page leave the cache, after their unsynced data was written back, and all others stay readable. The recency order always lists each page in use at most once and never a free page.",
["histories","configurations"],"every sequence of reads and writes over a full cache",
"No test runs with eviction on and a full cache.",
[EN],[("_apply_lru_after_page_visitation_on_WRITE / READ",EN),("_get_next_free_page eviction branch",EN)],[("lru_main_vector","recency order",EN),("page_order_mapping","page to list position",EN)],["which blocks remain cached"])

p("C18","Locks are balanced and never self-deadlock",
"Every operation and command releases on every path every lock it took, never waits for a lock it holds itself, and takes the cache and item locks in a consistent order. Commands that clear, checkpoint or measure the cache exclude running operations, and a fault that clears the cache in the middle of an operation does not hang it.",
["schedules","inputs","fault_sequences"],"every path through every operation, with any fault configured",
"A leaked or doubly taken lock on a rare path shows only as a hang under particular inputs.",
[LF,CA,EN],[("cache_command_lock",LF),("lock_cache_mtx, item_locks, lockItem / unlockItem",CA),("engine lock",EN)],[],["operation returns; later operations proceed"])

p("C19","The cache has exactly the configured geometry",
"The cache gets exactly the configured number of pages, page size and block size; when a total size is given it is converted with its unit and rounded to whole pages, with one block per page. Defaults apply exactly to the values that are not given.",
["configurations"],"every configuration file",
"Tests use one configuration.",
[CO,EN,PG],[("Config::load_config / constructors / setup functions",CO),("CustomCacheEngine constructor",EN)],[],["cache capacity, fault parameters"])

p("C20","Other operations pass through with the right result",
"Operations that do not touch cached file data (directories, links, permissions, ownership, access checks, seeking, attributes) act on exactly the given path and arguments in the backing file system once, and return its result, or the negated error number when it fails. No cached file data changes.",
["inputs"],"every path, argument and error",
"Tests check few success cases and no error codes.",
[LF],[("lfs_mkdir, rmdir, chmod, chown, symlink, link, access, readlink, lseek, utimens, rename, unlink",LF)],[],["return value and backing tree"])

p("C21","Reads and writes never touch memory outside their buffers",
"Serving a read, write, truncate, fsync or fault never reads or writes memory outside the caller's buffer, the block being cached or the page holding it, never dereferences a missing entry, and never lets offsets overflow, for every offset and size that the interface allows.",
["inputs","histories","configurations"],"every offset and size, every geometry",
"Tests do not run with sanitizers or with unaligned ranges.",
[LF,CA,EN,PG,DA],[("memcpy / memset in lfs_read, lfs_write",LF),("Page::get_block_data, _rewrite_offset_data, write_null_from",PG),("map lookups with at()",EN)],[],["no out-of-bounds access"])

p("C22","Concurrent operations on the same file are linearizable",
"Concurrent reads, writes, fsyncs and commands from several clients produce results equal to those of some sequential order of the operations.",
["schedules"],"every interleaving of operations",
"Interleavings are not explored by tests.",
[LF,CA,EN],[("locks in cache, item and engine",CA)],[],["results of concurrent operations"])

p("C23","Every injected command is eventually executed",
"Every well-formed command line written to the fault pipe is eventually executed once, in order, and the worker keeps running after malformed input.",
["schedules","histories"],"every sequence and timing of commands",
"Liveness over unbounded time.",
[MA],[("fht_worker",MA)],[],["command effects and acknowledgements"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
