#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
BC="file_systems/common/blockcache/blockcache.go"
BS="file_systems/common/basicstream/basicstream.go"
CO="utilities/compression/compression.go"
R8="utilities/compression/rle8.go"
RG="utilities/compression/rle_grouper.go"
DD="driver/driver.go"
DF="driver/file.go"
DO="driver/fsobject.go"
DE="driver/dirent.go"
F8="file_systems/fat8/"
FA="file_systems/fat/"
P=[]
def p(id,title,st,over,text,why,files,mech,obs,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

# ---------------------------------------------------------------- block cache
p("C01","Block reads always return the current contents, even around failed I/O",
 "Whatever mix of block reads, writes, in-place edits, dirty-markings, flushes and resizes came before, a successful read of a block range through the block cache returns, for every block, the bytes last stored in it through the cache or, if it was never stored to, the bytes the backing storage holds. A read that needs a block the storage fails to deliver reports an error rather than success, and the same read returns the right bytes once the storage works again, even if the failed attempt left partial data behind. The byte count a read reports is the number of bytes it delivered into the caller's buffer, and memory passed to a read or write is the caller's again once it returns.",
 ["histories","fault_sequences"],"every sequence of cache operations, every block size and block count, every set of storage fetches/flushes that fail or half-complete",
 "blockcache_test.go only drives always-succeeding callbacks through a handful of fixed sequences; no fetch ever fails or delivers a partial block, so the loaded/dirty bookkeeping after an error is never exercised.",
 [BC],[("loaded/dirty bitmaps updated only after a successful fetch",BC+":loadBlockRange"),("ReadAt/GetSlice/Data load before exposing",BC+":ReadAt,GetSlice,Data")],
 ["BlockCache.ReadAt","BlockCache.GetSlice","BlockCache.Data","calls arriving at the fetch callback"],None,
 [("loadedBlocks","which blocks are present",BC),("dirtyBlocks","which blocks differ from storage",BC)])
p("C02","A successful flush leaves storage exactly equal to what was written",
 "When a flush reports success, every block written or marked dirty through the cache is in the backing storage with its latest bytes, and no block other than those written or marked since they last reached storage has been touched. When a flush reports an error nothing acknowledged is lost: a later successful flush writes every block that had not reached storage, and blocks already flushed are not written again. Storage frozen at any moment (a crash between or during device writes) holds, block by block, either the previously flushed contents or contents that were current when that block was being flushed.",
 ["histories","fault_sequences","crash_points"],"every history of writes/marks/resizes/flushes, every subset of device writes that fail or tear, every crash point between device writes",
 "The existing tests flush once, on storage that never fails, and there is no crash or retry test at all.",
 [BC],[("only dirty blocks are flushed and are cleaned only after a successful write",BC+":flushBlockRange"),("WriteAt/MarkBlockRangeDirty/Resize set the dirty bit",BC)],
 ["calls arriving at the flush callback","bytes of the simulated device after Flush and at each crash point"])
p("C03","Accesses outside a block cache are refused without side effects",
 "A read, write, slice request, dirty-marking or bounds check that refers to any block outside the cache's current block range fails with the out-of-range error, never crashes, performs no storage I/O and leaves the cache's contents, the caller's buffer and the set of blocks pending write-back unchanged. This holds for any start block and any count or buffer size, however large, and immediately after growing or shrinking the cache.",
 ["inputs","histories"],"all start/count/length combinations including values whose byte size overflows an integer, at all cache sizes reached by resizing",
 "Tests probe two or three neighbouring out-of-range values; arithmetic overflow and bounds after a resize are never reached.",
 [BC],[("CheckBounds guards every entry point",BC+":CheckBounds")],["errors returned","device call log","contents read afterwards"])
p("C04","Resizing a block cache keeps survivors, zeroes growth and fails cleanly",
 "After a successful resize of a block cache the blocks that survive keep their current contents and their pending changes, added blocks read as zeros and are written to storage by the next flush even if never touched, and removed blocks never reappear when the cache is grown again. A resize the storage refuses (no space, not supported, not permitted) reports that very error and changes nothing: same size, same contents, same pending changes.",
 ["histories","fault_sequences"],"all sequences of grow/shrink/write/flush, including resize to and from zero blocks, with any subset of storage resizes failing",
 "No existing test grows then shrinks then grows, resizes to zero, or has a resize fail; none flushes blocks added by a resize.",
 [BC],[("storage is resized first, state is swapped only on success",BC+":Resize")],["BlockCache.TotalBlocks/Size","contents read afterwards","device after Flush"])
p("C05","A cache over a stream or slice moves exactly the right bytes despite short I/O",
 "A block cache wrapped around a seekable stream or byte slice reads block i from and writes block i to byte offset i*blocksize and nowhere else, including blocks added by growing the cache after it was created. Partial reads by the stream never surface as stale or zeroed data in the middle of existing contents, bytes beyond the end of the stream read as zeros, and a seek, read or write failure or a write the stream did not fully accept is reported as an error, with a later retry able to complete. When growing or shrinking is allowed the stream is resized to exactly the new number of blocks; when it is not, the attempt fails and neither the stream nor the cache changes.",
 ["histories","fault_sequences","configurations"],"all operation histories, all legal partial-read behaviours of the wrapped stream, all error injections on its seek/read/write/truncate, resizing allowed or not, truncation supported or not",
 "Tests wrap only in-memory byte slices that never short-read, never fail and are never resized.",
 [BC],[("WrapStream/WrapSlice callbacks",BC+":WrapStream"),("seekToBlock",BC+":seekToBlock")],["bytes of the simulated stream","errors returned"])
# ---------------------------------------------------------------- basic stream
p("C06","Byte streams over block storage behave like ordinary files",
 "For any sequence of reads, writes, positioned reads and writes, seeks and truncations on healthy storage, a byte stream over block storage returns the same data, counts, end-of-file conditions, positions and sizes as an ordinary file with the same contents would: a write that reaches past the end extends the file, gaps and truncate-extensions read as zeros even where the block storage held old data, and nothing outside the written range changes. Invalid requests (negative offsets, seeks before the start, unknown origins, negative sizes, opening with a size beyond the storage) fail with an error, never crash, and change nothing. Memory passed to reads and writes isn't changed or used by the stream afterwards.",
 ["inputs","histories"],"all operation sequences, all offsets and lengths relative to block boundaries and end of file, all block sizes and initial sizes",
 "basicstream_test.go never writes at all: it only reads and seeks within a full-size read-only stream, so no write, extension, truncation or end-of-file path is covered.",
 [BS,BC],[("implWriteAt/ReadAt block arithmetic",BS),("Truncate",BS+":Truncate"),("position handling in Read/Write/Seek",BS)],
 ["return values","Size/Tell","contents read back"],None,[("size","exact byte size",BS),("position","stream pointer",BS)])
p("C07","Sync, close and O_SYNC writes make acknowledged data durable",
 "After a successful sync or close, and after every successful write or truncate on a stream opened for synchronous I/O, the backing storage holds exactly the stream's contents in every block the stream occupies. If making data durable fails the operation reports an error, the data stays readable through the stream, and a later successful sync stores it; once a sync has succeeded, a crash immediately afterwards loses nothing that was acknowledged before it.",
 ["histories","fault_sequences","crash_points"],"all write/truncate/sync histories, all flush or resize failures at any device call, crash after any device call",
 "No test performs a write through a stream, so nothing is ever synced; no device failure or crash is simulated.",
 [BS,BC],[("Sync/Close flush the cache",BS+":Sync,Close"),("O_SYNC handling",BS+":implWriteAt,Truncate"),("writes mark blocks dirty",BS)],
 ["simulated device contents after Sync/Close/O_SYNC write"])
p("C08","A failed stream operation damages nothing outside what it targeted",
 "When storage errors make a stream read, write, truncate or sync fail, the error is reported to the caller rather than swallowed, no byte outside the range the operation targeted changes, the size stays at the old or requested value, and the stream pointer moves by exactly the number of bytes the call reports as transferred. The stream remains usable: once the storage recovers, later operations see consistent contents.",
 ["histories","fault_sequences"],"all operation histories with any fetch, flush or resize call failing (including out-of-space while extending)",
 "No existing test injects any storage error beneath a stream.",
 [BS,BC],[("errors propagated from GetSlice/Resize/Flush",BS)],["return values","contents, size and position afterwards"])
p("C09","Bulk copies into and out of a stream transfer everything or say so",
 "Copying from a reader into a stream or from a stream into a writer returns success only if every byte the source produced was transferred, in order, and the reported count equals the number of bytes actually transferred. If the source, the destination or the storage fails part-way the copy reports an error (a premature short write counts as one), never loops forever, and whatever was transferred is a prefix of the source; a source's clean end of data is not an error.",
 ["inputs","fault_sequences"],"all source chunkings (including zero-length reads and data returned together with end-of-file or an error), all destination short writes and errors, storage failures at any call",
 "ReadFrom and WriteTo have no tests at all.",
 [BS],[("ReadFrom/WriteTo loops",BS+":ReadFrom,WriteTo")],["returned count and error","stream/destination contents"])
p("C10","Open modes of a stream are always enforced",
 "A stream opened read-only never changes size, contents or storage through any call and refuses every mutating call with the not-permitted error; a write-only stream refuses reads the same way; an append stream's sequential writes always land at the current end of file wherever the pointer was, and positioned writes to it are refused; a stream opened with truncation starts empty. Refused calls have no side effects and perform no storage writes.",
 ["inputs","histories","configurations"],"all combinations of access mode, append, truncate and sync flags, all operation sequences",
 "Tests only ever open streams read-only and never attempt a forbidden operation.",
 [BS,"flags.go"],[("ioFlags checks",BS),("IOFlags.Read/Write/Append",  "flags.go")],["errors returned","device call log","contents"])
# ---------------------------------------------------------------- compression
p("C11","Compressing then decompressing an image gives back the identical image",
 "For every byte sequence, RLE8 compression followed by RLE8 decompression, and image compression followed by image decompression (to a writer or to bytes), reproduces the input exactly, regardless of how the input and compressed streams are chunked or how the transports split their reads. The compressed RLE8 form is the documented one (a byte twice followed by a count of 0-255 further repeats), and every reported byte count equals the number of bytes written to the output.",
 ["inputs","schedules"],"all inputs (run lengths around 1, 2, 257, 258 and multiples, all byte values) and all read/write chunkings",
 "Tests use a few fixed strings and in-memory readers that deliver everything in one chunk.",
 [CO,R8,RG],[("CompressRLE8/DecompressRLE8",R8),("CompressImage/DecompressImage",CO)],["output bytes and counts"])
p("C12","Compression never reports success unless everything was read and written",
 "If reading the input or writing the output fails at any point during compression or decompression, the call reports an error that wraps the original cause, and never success; success implies the complete output was delivered to the writer. What was delivered before the failure is a prefix of the correct output when decompressing.",
 ["fault_sequences"],"every byte position at which the reader or writer can fail, every kind of failure, every chunking",
 "No existing test uses a reader or writer that fails.",
 [CO,R8,RG],[("error returns in the codec loops and gzip Close",CO)],["returned error","bytes accepted by the writer"])
p("C13","Damaged or truncated compressed data never decodes silently wrong",
 "Decompressing an image file that was truncated, bit-flipped, had bytes dropped or duplicated, or was never a compressed image either reports an error or yields exactly the original image, and a truncated stream is always reported as an error. For RLE streams without a checksum, a stream ending inside a run is an error rather than a silent end. Decoding any input terminates without crashing and its output is bounded by what the format allows.",
 ["inputs","fault_sequences"],"all truncation points, bit flips, lost/duplicated chunks and arbitrary garbage inputs",
 "Tests contain one malformed RLE8 input and no damaged image file.",
 [CO,R8],[("gzip checksum and RLE end-of-stream checks",CO),("missing repeat count check",R8)],["returned error and output bytes"])
p("C14","Run grouping yields exactly the maximal runs and surfaces every error",
 "Reading runs from a byte source yields maximal runs whose concatenation is exactly the source's bytes: consecutive runs differ in value, no run is empty, the last run is returned either with or just before end-of-file, and end-of-file persists. If the source fails, the error is returned with an invalid (zero-length) run, no partial run is passed off as complete, and chunking of the source never changes the runs.",
 ["inputs","schedules","fault_sequences"],"all byte sequences, all chunkings, failures at every byte",
 "Tests cover a dozen fixed in-memory inputs; no source ever fails or short-reads.",
 [RG],[("GetNextRun",RG)],["runs and errors returned"])
p("C15","Recursive run-length encoding round-trips and reports failures",
 "Encoding any byte sequence with the recursive run-length encoder produces the documented form (byte twice, then one 255 per further 255 repeats, then the remainder byte) and decoding it gives back the original bytes, also when the encoding is applied more than once and decoded as many times, whatever the chunking. I/O failures and streams that end inside a run are reported as errors, and reported counts equal the bytes written.",
 ["inputs","schedules","fault_sequences"],"all inputs with run lengths around multiples of 255, all chunkings, all failure and truncation points",
 "The recursive decoder has no test at all, and the encoder is tested on a few fixed strings.",
 [R8],[("CompressRLERecursive/DecompressRLERecursive",R8)],["output bytes, counts and errors"])
p("C16","The zip/unzip tools exit 0 only when the output file is complete and correct",
 "Running the image compression tool and then the expansion tool on any file reproduces it byte for byte. If the input is missing, unreadable, truncated, corrupt or fails while being read, or the output cannot be created or written in full (for example on a full disk), the tool prints a message and exits with a non-zero status; exit status 0 always means a complete, correct output file, of the size that is reported. The tools never damage their input, even if it is named as the output too.",
 ["inputs","fault_sequences"],"all input files, delivery chunkings through pipes, corruption/truncation points, full-disk and size-limit failures on the output",
 "There are no tests of the command-line tools.",
 ["cmd/zipimage/main.go","cmd/unzipimage/main.go",CO],[("exit codes in main",  "cmd/zipimage/main.go"),("exit codes in main","cmd/unzipimage/main.go")],["process exit status, stderr and output file"])
# ---------------------------------------------------------------- driver
p("C17","Driver path operations behave like a correct hierarchical file system",
 "On a healthy implementation, every path operation of the driver (stat, lstat, mkdir, mkdir-all, create/open, link, readlink, remove, read directory, change/get working directory, change mode/owner/times, truncate) has the effect and the success or failure a POSIX-like file system would have for the same history, for absolute and relative paths at any depth containing '.', '..', repeated separators and the current directory. Failures report the matching error (not found, exists, not a directory, is a directory, directory not empty) and change nothing. The status an open file reports is its present one, not the one from when it was opened.",
 ["histories","inputs"],"all histories of operations over arbitrary directory trees and path spellings",
 "The driver package has no tests at all.",
 [DD,DO,DE],[("path resolution",DD+":getObjectAtPathNoFollow"),("NormalizePath",DD+":NormalizePath"),("per-operation checks",DD)],
 ["return values of driver operations","tree held by the simulated implementation"],None,[("workingDirPath","current directory",DD)])
p("C18","File contents written through the driver read back exactly",
 "Data written to a file through the driver (open/create and write, whole-file write, truncate, append, bulk copy) and then closed reads back byte for byte, with exactly the same length, through any later read path (whole-file read, open and read, positioned reads, stat size), whatever the block size and however the length relates to it. Opening with truncate or writing a whole file replaces all previous contents, and other files are never affected, nor are bytes read before or the memory they were written from. A file that was only opened, even for writing, never changes anything: closing it leaves contents alone which were written through another file or by path in the meantime.",
 ["inputs","histories"],"all file sizes and write patterns relative to block size, all interleavings of writes on several open files",
 "The driver package has no tests at all.",
 [DD,DF,BS,BC],[("file handle built on block cache and stream",DF+":NewFileFromObjectHandle"),("size recorded in the object",DF)],
 ["ReadFile/Open/Stat results","blocks and size held by the simulated implementation"])
p("C19","The driver never reports success for an operation that did not happen",
 "If the file system implementation returns an error during an operation (out of space, I/O failure, not supported, at any internal step), the driver operation, or the close of the file it concerns, reports an error instead of success. (Releasing handles that were only used to look something up or were never written through doesn't count.) The failed operation affects nothing but the objects it was asked to act on, never crashes, and later operations work normally once the fault clears. Likewise nothing done with a file that has been closed reports success.",
 ["fault_sequences","histories"],"all positions at which any implementation call can fail with any error, in all operation histories",
 "The driver package has no tests, and no test injects an implementation failure.",
 [DD,DF],[("error propagation in each operation",DD),("close/sync error propagation",DF)],["operation results versus simulated implementation state"])
p("C20","Every object handle is released exactly once and never used afterwards",
 "For every driver operation, successful or failing at any internal step, every handle obtained from the implementation is closed by the time the operation returns, or, for an open file, by the time the file is closed; no handle is ever used or closed again after being closed. In particular no handle remains open once all files are closed, and operations on a closed file fail without reaching the implementation.",
 ["histories","fault_sequences"],"all operation histories and all failure points inside operations",
 "No test counts handles or exercises failing operations in the driver.",
 [DD,DF],[("defer Close in each operation",DD),("File.Close",DF+":Close")],["open/close/use log of the simulated implementation's handles"])
p("C21","Mount permissions are enforced on every operation",
 "On a mount without write permission no operation modifies the contents or times of an existing object; without insert permission nothing new can be created; without delete permission nothing can be removed; without administer permission modes and owners cannot be changed. Every refused operation fails with an error before any modifying call reaches the implementation, and operations the mount does permit are not refused on permission grounds.",
 ["configurations","histories"],"all combinations of mount permission flags with all operations, open flags and object states",
 "No test mounts anything through the driver.",
 [DD,"api.go"],[("mount flag checks",DD+":OpenFile"),("flag definitions","api.go:MountFlags")],["modifying calls reaching the simulated implementation","errors returned"])
p("C22","The driver keeps every promise it makes to file system implementations",
 "Whatever the caller does, the driver calls an implementation only within its documented contract: objects are created or linked only under names that do not exist and in parents that are existing directories, hard-link sources are never directories, block reads and writes are whole blocks inside the object's current bounds (even if it was resized through another file or by path in the meantime), only empty directories are unlinked, names passed down are single path components, and resize requests are in bytes. Looking up a name that doesn't exist is allowed; handles passed back to the implementation are the ones it gave out. The other way round, everything an implementation leaves to the base it's offered for object handles is answered with \"not implemented\" (or an empty name and status, and \"not the same object\"), and the driver passes that on as an error and never crashes on it.",
 ["histories","inputs","fault_sequences"],"all operation histories including repeated creates of one name, symlinked paths and failing calls",
 "There is no test implementation that checks the contract; the driver package is untested.",
 [DD,DF,"api.go"],[("existence and type checks before implementation calls",DD)],["arguments of every call arriving at the simulated implementation"])
p("C23","Symbolic links resolve correctly and every resolution terminates",
 "A path through symbolic links resolves to the object reached by interpreting each link relative to the directory that contains it (absolute targets from the root), in any path component and through chains of links. Any cycle of links, direct or through intermediate directories, produces the link-cycle error in bounded time and never hangs or crashes; operations defined on the link itself (lstat, readlink, lchown, remove) act on the link and not its target, and opening with the no-follow flag fails if the last component is a link.",
 ["inputs","histories"],"all configurations of links, relative/absolute targets, chains and cycles anywhere in a path",
 "No test contains a symbolic link.",
 [DD],[("resolveSymlink / getObjectAtPath*",DD)],["object reached, or error","implementation call count"])
p("C24","Removal deletes exactly what was named and nothing else",
 "Removing a file, link or empty directory removes that entry and nothing else; recursive removal removes the named directory and everything beneath it, never follows symbolic links out of the tree, and leaves everything outside it untouched. The root directory can never be removed, a non-empty directory is refused by plain removal, and if recursive removal fails part-way it reports an error, has removed only things beneath the named directory, and can be completed by repeating it once the fault is gone.",
 ["histories","fault_sequences"],"all trees (with links and hard links pointing in and out), all targets, failure at every internal step",
 "The driver package has no tests.",
 [DD],[("Remove/RemoveAll/removeDirectory",DD)],["tree held by the simulated implementation before and after"])
# ---------------------------------------------------------------- FAT8
p("C25","A formatted FAT8 image is complete, mountable and correctly laid out",
 "Formatting an image of a supported size produces, whatever the file contained before, an image of the full physical size with an erased directory, a zero information sector and three identical allocation tables that mark exactly the directory track's clusters reserved and all others free, and that image then mounts. If any device operation fails during formatting, the format reports an error; unsupported sizes are refused without touching the image.",
 ["inputs","fault_sequences"],"all supported/unsupported sizes, all prior file contents, a failure at every device call",
 "The format tests compare the produced image with itself, never mount it, never inject a device error and always start from an empty file.",
 [F8+"formattingdriver.go",F8+"common.go",F8+"iobase.go"],[("FormatImage",F8+"formattingdriver.go"),("GetGeometry",F8+"common.go")],["bytes of the simulated image","errors returned","subsequent mount"])
p("C26","FAT8 mounting detects disagreeing allocation tables, as a crash leaves them",
 "Mounting succeeds only if the three allocation table copies on the image are identical and the image has a supported size; if a crash, torn write, bit flip or lost write has made them differ, or the device fails, mounting reports an error (corruption for differing copies) and leaves the volume unmounted, and it succeeds once the image is repaired. Mounting modifies nothing on the image, and flushing a mounted volume writes all three copies so that a completed flush always mounts again.",
 ["crash_points","fault_sequences","inputs"],"crash after or inside every device write of a format or flush, every corrupted byte of every table copy, a failure at every device call",
 "No test mounts an image, so corruption detection is never exercised.",
 [F8+"driver.go",F8+"iobase.go"],[("GetFAT compares the copies",F8+"iobase.go:GetFAT"),("writeFAT writes all copies",F8+"iobase.go:writeFAT")],["mount result","image bytes"])
p("C27","FAT8 block and cluster I/O touches exactly the addressed sectors",
 "Reading back any sector range or cluster, by its number or by its position in a file, returns what was last written to it, a write changes only the sectors it addresses, the last sector and last cluster are as usable as the first, and any access outside the image, with an invalid cluster number or with a wrong-sized buffer is refused without touching the image. Device errors and short transfers are reported. Bytes which were read stay as they are whatever happens next.",
 ["inputs","histories","fault_sequences"],"all sector ranges and cluster numbers of both disk geometries, all write/read histories, a failure or short transfer at any device call",
 "No test reads or writes sectors or clusters.",
 [F8+"iobase.go"],[("ReadDiskBlocks/WriteDiskBlocks bounds",F8+"iobase.go"),("cluster address computation",F8+"iobase.go")],["image bytes","errors returned"])
p("C28","FAT8 volume state and statistics follow mount, flush, format and unmount",
 "A volume that is mounted refuses a second mount and refuses formatting with the documented errors without touching the image; unmounting makes both possible again; a failed mount leaves it unmounted. Volume statistics after mounting an image agree with the image's actual block size, size and free clusters (and with its number of directory entries, while the directory is erased) and do not change while nothing is modified. Flushing and unmounting write nothing to the image unless a volume is mounted.",
 ["histories","fault_sequences"],"all sequences of format/mount/flush/unmount with failures at any device call",
 "No test mounts, unmounts or remounts a volume.",
 [F8+"driver.go",F8+"formattingdriver.go"],[("isMounted state machine",F8+"driver.go"),("stat kept for FSStat",F8+"driver.go")],["errors returned","FSStat","image bytes"])
# ---------------------------------------------------------------- FAT
p("C29","FAT boot sectors are decoded correctly or rejected, never crash",
 "For every boot sector describing a valid FAT12, FAT16 or FAT32 volume the decoded parameters (sectors per table, total and data sectors, root directory sectors, first data sector, cluster count and size, FAT version) are those the FAT specification defines. A header with a zero or out-of-range field (sector, cluster and table sizes, reserved sectors, number of tables, total sectors, a cluster size above 32 KiB) or whose reserved area, tables and root directory don't fit the volume is rejected with an error, a truncated or failing source is reported as an I/O error (which wraps the source's), and no input makes decoding crash.",
 ["inputs","fault_sequences"],"all header byte patterns, all truncation points, read failures and chunkings",
 "The FAT package has no tests.",
 [FA+"common.go"],[("NewFATBootSectorFromStream",FA+"common.go"),("DetermineFATVersion",FA+"common.go")],["returned structure or error"])
p("C30","FAT file reads return exactly the file's bytes or an error, and terminate",
 "Reading a file on a FAT volume returns exactly the bytes stored in its cluster chain, cut to its recorded size (an empty file reads as empty). If the chain is cyclic, too short, points outside the volume or a device read fails or is short, the read reports an error and terminates; it never returns wrong or truncated data as success. Bytes which were read stay as they are whatever is read next.",
 ["inputs","fault_sequences"],"all chain layouts and file sizes, all corruptions of the chain, a failure or short read at any device call",
 "The FAT package has no tests.",
 [FA+"driverbase.go"],[("listClusters/readCluster/ReadFile",FA+"driverbase.go")],["ReadFile results against the simulated image"])
p("C31","FAT paths and directory listings reflect the on-disk directory",
 "Looking up a path on a FAT volume finds the entry with that name at every level or reports not-found, and reports not-a-directory when a component is a file; listing a directory returns every live entry exactly once with its recorded name, size, kind (file, directory or device), attribute flags, writability and times, skipping deleted ones, whether the directory ends with a free slot or fills its clusters exactly. Two listed entries are the same file exactly if they begin with the same cluster (entries without one aside). Arbitrary directory bytes never crash or hang the lookup or listing, and device or chain errors are reported.",
 ["inputs","fault_sequences"],"all directory contents and sizes, deleted entries, arbitrary bytes, cyclic directory chains, device failures",
 "The FAT package has no tests.",
 [FA+"driverbase.go",FA+"dirent.go"],[("resolvePathToDirent/readDirFromDirent",FA+"driverbase.go"),("NewRawDirentFromBytes/NewDirentFromRaw",FA+"dirent.go")],["Readdir/Stat results against the simulated image"])
p("C32","Removing a FAT file frees exactly its clusters, safely at every crash point",
 "Removing a file deletes its directory entry first and then frees exactly the clusters of its chain, from the end, once each, and no other cluster; directories are refused. If any step fails the error is reported, and at every intermediate point no directory entry refers to a freed cluster and no other file's clusters are affected.",
 ["crash_points","fault_sequences","inputs"],"all chains and directory layouts, a failure or crash at every call to the volume",
 "The FAT package has no tests.",
 [FA+"driverbase.go"],[("Remove ordering",FA+"driverbase.go:Remove")],["sequence of volume mutations"])
p("C38","Changing a FAT entry's mode or times changes exactly that, or fails cleanly",
 "Changing the mode of a file or directory on a FAT volume updates that entry exactly once, making it read-only exactly if nobody is given write permission, and nothing else; changing its times updates it exactly once with the given access and modification times (to the precision FAT has), and nothing else. An entry's mode and its attribute flags never disagree about this. Setting the accessed, modified, created or deleted time of a directory entry changes that time alone; the creation time can't be had or set once an entry is deleted, and the deletion time can only be had then (setting it marks the entry as deleted). Times before 1980, which FAT can't represent, are refused without any change. If the entry can't be found or updated the error is reported, and a failed lookup changes nothing. Operations FAT doesn't have (symbolic and hard links, ownership) are refused as not supported, without any change.",
 ["fault_sequences","inputs","histories"],"all trees, modes and times, all histories of changes, failures and crashes at any call to the volume",
 "The FAT package has no tests.",
 [FA+"driverbase.go",FA+"dirent.go"],[("Chmod/Chtimes",FA+"driverbase.go"),("SetLastAccessedAt/SetLastModifiedAt",FA+"dirent.go")],["entry updates arriving at the simulated volume","results of Stat afterwards"])
# ---------------------------------------------------------------- pure
p("C33","Unix v6 inode mode conversion preserves permissions and type",
 "Converting on-disk Unix v6 inode flags to standard mode bits and back preserves permissions, set-id bits and file type, rejects unsupported types, and decoded inodes carry their exact 24-bit size, block count and timestamps.",
 ["inputs"],"all flag words and inodes","The package has no tests.",["file_systems/unixv6/dirents.go"],[("Convert* functions","file_systems/unixv6/dirents.go")],["return values"])
p("C34","FAT8 file names convert to disk form and back consistently",
 "Every valid FAT8 name converts to exactly nine bytes and back to the same name ignoring case, and names that are empty or too long are rejected.",
 ["inputs"],"all strings","Tests use four fixed names.",[F8+"common.go"],[("FilenameToBytes/BytesToFilename",F8+"common.go")],["return values"])
p("C35","Predefined disk geometries are consistent and looked up exactly",
 "Every predefined disk geometry is found by its slug with its table values and a total size equal to the product of its dimensions, and unknown slugs are refused.",
 ["inputs"],"all slugs","No tests cover the geometry table.",["disks/disks.go","disks/disk-geometries.csv"],[("GetPredefinedDiskGeometry","disks/disks.go")],["return values"])
p("C36","Errors keep their identity and message all the way to the user",
 "An error built up from a predefined driver error (or a new one, or a foreign error cast to a driver error) by adding messages and wrapping causes, to any depth, is still recognised as that predefined error and as each of its causes, and as no predefined error it wasn't built from, and its text contains the base error's text and every added message; building further errors from it doesn't change it. Where there's no error, none is made up by casting it. That still holds for what the user of the driver gets when a call into the implementation fails with such an error in the middle of an operation, or of reading or writing an open file.",
 ["inputs","histories","fault_sequences"],"all ways of building errors from one another, all operations and all calls into the implementation which can fail",
 "Two fixed ways of building an error are tested; no test passes one through another layer.",["errors.go",DD,"driver/file.go",BS,BC],[("WithMessage/Wrap/CastToDriverError","errors.go"),("error returns",DD)],["errors.Is and text of the errors operations return"])
p("C37","Operating-system open flags translate to exactly the same open behaviour",
 "Opening a file through the driver with any combination of operating-system open flags, translated for the driver, does exactly what the flags mean, whatever state the path is in: reading and writing are possible exactly with the access mode asked for, append mode always writes at the end, a missing file is created only on request, exclusive creation refuses anything that exists (symbolic links included), truncation empties the file, and in synchronous mode every completed write is in the implementation's storage at once. Flags without a counterpart change nothing.",
 ["inputs","histories"],"all flag combinations the operating system specifies, all states of the path, all histories of operations on the opened files",
 "No tests cover the translation, and no test opens a file through the driver.",["flags.go",DD],[("OSFlagsToIOFlags","flags.go"),("OpenFile",DD+":OpenFile")],["results of operations on the opened file","effects on the tree"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
