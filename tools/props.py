#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text lives here so that it can be edited comfortably)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": q},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "observe_at": list(observe)}})
W = "vrs/RecordFileWriter.cpp"
p("C01", "Successful recordings keep every record exactly once, byte for byte",
  "When a recording session ends with a success status and no I/O error occurred, every record created before the file was closed can be read back exactly once, from that session's file, with its stream, type, timestamp, format version and payload unchanged. No record which was not created appears, records created after the close belong to the next file, and file and stream tags read back as set. This holds for every writing mode (all at once, explicit batches, automatic), compression setting and thread count, chunking, preallocated index, streams added while recording, and several sessions with one writer.",
  ["schedules", "configurations", "histories"],
  "every interleaving of producer, control, writer and compression threads; every combination of writing mode, compression preset, pool size, chunk limit, front index, late streams and session count",
  "The unit tests run a few fixed configurations on whatever interleaving the machine gives; a lost or duplicated record needs a particular overlap of collect, compress, recycle and close.",
  [W, "vrs/RecordManager.cpp", "vrs/Record.cpp", "vrs/IndexRecord.cpp", "vrs/Compressor.cpp"],
  [("record collection by timestamp", "vrs/RecordManager.cpp collectOldRecords"), ("batch queue under a mutex", W + " addRecordsReadyToWrite"), ("ordered write queue over a compression pool", W + " writeRecordsMultiThread")],
  [("active records", "records created, not yet collected", "vrs/RecordManager.h")], ["files written", "status of close"])
p("C02", "Index order is total, and a stream's creation order is kept",
  "The index of a readable file lists the records sorted by timestamp, then stream, then position in the file, whatever the order in which the records were created or written. Records of one stream which have the same timestamp, created one after the other, are listed in creation order when sorting is enabled. A file written in one go has its records physically in timestamp order, and index entries describe exactly the records at their position.",
  ["schedules", "histories", "configurations"],
  "every interleaving of producers, collectors and writer threads; timestamps that are increasing, equal, or out of order; all writing modes",
  "Equal timestamps that straddle two batches collected by two threads need a specific interleaving; tests use increasing timestamps from one thread.",
  [W, "vrs/RecordManager.cpp", "vrs/IndexRecord.cpp", "vrs/RecordFileReader.cpp"],
  [("sort key with creation order", "vrs/RecordFileWriter.h SortRecord"), ("sorted insertion", "vrs/RecordManager.cpp createRecord"), ("index sorted when read", "vrs/IndexRecord.cpp Reader::readRecord")])
p("C03", "A write fault is never silent",
  "If any write, seek, open, truncate or close needed for a recording fails, or the disk becomes full, the operation that ends the recording reports an error, or the file is complete and correct all the same. A success status therefore always means that every record of the session reads back. After a failure the writer stays usable: closing returns in bounded time, and a new recording can be made and is correct.",
  ["fault_sequences", "schedules", "configurations"],
  "every I/O operation of a recording failing, in every writing mode, alone or repeatedly, transiently or for good",
  "No unit test injects storage errors in the recording path; the fault has to hit one particular operation.",
  [W, "vrs/DiskFile.cpp", "vrs/DiskFileChunk.hpp", "vrs/IndexRecord.cpp", "vrs/Record.cpp", "vrs/DescriptionRecord.cpp"],
  [("sticky first file error", W + " setFileError"), ("close error merged in the status", W + " completeAndCloseFile")])
p("C04", "After a crash, what reached the disk is recovered exactly",
  "If the process dies, or the disk loses the end of a recording (for one with a separate head file, possibly also the end of the head), at any point, then opening the file either fails with an error or yields a subset of the created records, each one unchanged and listed at most once, with the tags of the streams intact. Every record whose bytes, and all bytes before it, had completely reached the disk is recovered. Opening a damaged file never crashes, hangs, or returns altered data as valid.",
  ["crash_points", "schedules", "configurations"],
  "a crash at every I/O operation including in the middle of a write, with user-space buffers lost; truncation at every offset",
  "Tests check a handful of prepared truncated files; a crash has a different effect at each write, header update and index flush.",
  ["vrs/IndexRecord.cpp", "vrs/RecordFileReader.cpp", W, "vrs/DescriptionRecord.cpp", "vrs/FileFormat.cpp"],
  [("index rebuilding", "vrs/IndexRecord.cpp Reader::rebuildIndex"), ("index entries appended to the head file", "vrs/IndexRecord.cpp appendToSplitIndexRecord")])
p("C05", "Index repair is faithful, idempotent, and never damages a file",
  "Rebuilding the index of an unindexed or truncated file gives exactly the records that are in the file, in the same order and at the same place as its normal index would have. When the repair is also written to the file and the file has at least one complete record, the file afterwards opens with an index, shows the same records, and repairing it again changes nothing; after the repair fails or is interrupted at any point, the file still yields those records.",
  ["crash_points", "fault_sequences", "inputs"],
  "files of every layout cut at every offset, repairs interrupted at every I/O operation or hit by an I/O error",
  "Tests repair a couple of prepared files on a disk that never fails.",
  ["vrs/IndexRecord.cpp", "vrs/RecordFileReader.cpp", "vrs/DiskFile.cpp"],
  [("rebuild then rewrite in place", "vrs/IndexRecord.cpp Reader::rebuildIndex"), ("switch to update mode", "vrs/DiskFile.cpp reopenForUpdates")])
p("C06", "Chunked recordings form one file and announce each chunk once, complete",
  "The chunks of a recording, put one after the other, are one valid file: no record is split or lost at a chunk limit, and every chunk but the last respects the limit unless a single record exceeds it. A chunk listener is told of every chunk exactly once, with its own index and path, only when the chunk has its final content, and the last notification is the only one flagged as last.",
  ["schedules", "configurations", "fault_sequences"],
  "record sizes around the chunk limit, all writing modes, thread counts and interleavings, failures to create a chunk",
  "Tests write one chunked file with one pattern of sizes and no failure; the content at notification time is not examined.",
  [W, "vrs/NewChunkHandler.h", "vrs/DiskFile.cpp", "vrs/IndexRecord.cpp"],
  [("chunk switch before a record", W + " writeOneRecord"), ("notification after the switch", "vrs/NewChunkHandler.h NewChunkNotifier")])
p("C07", "Asynchronous disk engines write the same bytes as plain writes",
  "Whatever sequence of writes, overwrites, seeks, truncations and chunk switches is made through the asynchronous disk file, with any engine, buffer and queue setting, the files after a successful close hold exactly the bytes a plain file would, of exactly that length. If any underlying operation fails or is cut short, an error is reported by a later operation or by close, or the content is right. No operation blocks forever.",
  ["schedules", "fault_sequences", "configurations"],
  "completion order and delay of every asynchronous write, failed submissions, failed, short or interrupted writes, buffer sizes, counts and queue depths",
  "The kernel decides when asynchronous writes complete; tests see only its usual order, never an error.",
  ["vrs/AsyncDiskFileChunk.cpp", "vrs/AsyncDiskFileChunk.h", "vrs/DiskFile.cpp"],
  [("buffer pool with free, queued and in-flight sets", "vrs/AsyncDiskFileChunk.cpp"), ("first error kept for the next call", "vrs/AsyncDiskFileChunk.cpp")])
p("C08", "Recording always progresses, and queue accounting balances",
  "Every call of the recording interface returns in bounded time under every schedule, and records handed over explicitly, or created before the cutoff of automatic writing, reach the writer without further calls. The tracked size of the background queue never exceeds the bytes handed over, and is back to zero whenever everything handed over has been processed, be it written or dropped because of an error.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving, including starved writer and compression threads, spurious wake-ups and clock jumps, with and without I/O errors",
  "A lost wake-up or a leaked count needs a precise interleaving, and shows as a rare hang.",
  [W, "vrs/os/Event.cpp", "vrs/helpers/JobQueue.h"],
  [("wake-up event", W + " writeEventChannel"), ("atomic byte counter", W + " queueByteSize_"), ("job queues", "vrs/helpers/JobQueue.h")])
p("C09", "Purging and batch limits drop exactly what they should",
  "Purging removes exactly the data records older than the limit and keeps, for each stream, the most recent configuration and state records and all tags records; sending records to disk takes exactly the active streams' records older than the limit, and leaves the rest in memory in timestamp order. Inactive streams never get records in a file. While a file is being recorded automatic purging removes nothing, and it resumes after the file is closed.",
  ["schedules", "histories", "inputs"],
  "all sequences of record creation, purge, collection and activation, with equal and out-of-order timestamps, concurrent producers and purge thread",
  "Tests cover increasing timestamps on one thread; the kept record depends on ties and on insertion order.",
  ["vrs/RecordManager.cpp", W],
  [("keep the newest configuration and state", "vrs/RecordManager.cpp purgeOldRecords"), ("purge pause flag", W + " purgingPaused_")])
p("C10", "Tags and stream descriptions are durable once the file is created",
  "All file tags and all stream tags set before a file is created, of any content and size, read back identical, for each stream separately. Tags of a stream added during recording read back identical too. If the recording is interrupted at any point after file creation returned and its bytes reached the disk, the tags are still all there.",
  ["inputs", "crash_points", "configurations"],
  "arbitrary tag names and values (empty, long, binary), any number of streams of any type, crashes at any later I/O operation",
  "Tests set a few short tags and close the file normally.",
  ["vrs/DescriptionRecord.cpp", "vrs/TagsRecord.cpp", "vrs/Recordable.cpp", "vrs/RecordFileReader.cpp"],
  [("description record written first", "vrs/DescriptionRecord.cpp writeDescriptionRecord"), ("tags record for late streams", "vrs/RecordFileWriter.cpp addRecordable")])
p("C11", "Reading returns exact data or an error, under any read fault",
  "When a read, seek or open fails or returns less than asked while a valid file is opened or read, the call reports an error, or delivers exactly the recorded data; never altered, partial or another record's data as a success. A record lost because the end of the file is missing is reported. Once the fault is gone, the same reader or a fresh one reads every record correctly.",
  ["fault_sequences", "inputs", "histories"],
  "a fault at any I/O operation of any sequence of record reads, in any order, with compressed and plain records and several chunks",
  "No test makes a read fail.",
  ["vrs/RecordFileReader.cpp", "vrs/DiskFile.cpp", "vrs/RecordReaders.cpp", "vrs/Decompressor.cpp", "vrs/RecordFormatStreamPlayer.cpp"],
  [("read with explicit length", "vrs/DiskFile.cpp read"), ("decompression into the caller's buffer", "vrs/RecordReaders.cpp")])
p("C12", "Damaged files are rejected or read safely",
  "Opening and reading a file with arbitrary corrupt bytes never accesses memory out of bounds, crashes, loops forever, or allocates memory out of proportion to the file and the record being read. Records stored before and away from the damage whose index entry is intact are still delivered unchanged or reported as errors.",
  ["inputs", "fault_sequences"],
  "bit flips, garbage blocks, zeroed blocks, duplicated blocks and truncation anywhere in files of every layout",
  "Tests contain a few hand-made bad files.",
  ["vrs/IndexRecord.cpp", "vrs/RecordFileReader.cpp", "vrs/DescriptionRecord.cpp", "vrs/Decompressor.cpp", "vrs/FileFormat.cpp", "vrs/RecordFormat.cpp"],
  [("size checks against the file", "vrs/IndexRecord.cpp validateClassicIndexAllocation"), ("header sanity checks", "vrs/FileFormat.cpp")])
p("C13", "Navigation queries agree with a linear search",
  "For every file, stream, record type, index and timestamp, each lookup (n-th record of a stream, by type, by time, nearest in time, range limits, counts, first and last records, index of a record) returns what a linear search over the list of records gives, including with ties, absent streams, and empty files.",
  ["inputs", "histories"],
  "random record sets with equal timestamps, negative times and sparse streams; any sequence of queries, before and after reads, which use and fill internal caches",
  "Tests query a few positions in regular files; caches make the answer depend on earlier queries.",
  ["vrs/RecordFileReader.cpp", "vrs/IndexRecord.cpp"],
  [("binary searches on the sorted index", "vrs/RecordFileReader.cpp"), ("lazily built stream index", "vrs/RecordFileReader.cpp getIndex")])
p("C14", "Files opened together behave as one merged file",
  "Opening several related files together shows the union of their records sorted by time, each read from the file it comes from, with a distinct stream id for each stream of each file, and lookups that agree with a linear search. Unrelated or unreadable files make the opening fail with an error and leave nothing open.",
  ["inputs", "configurations", "fault_sequences"],
  "any number of files with colliding stream ids, equal timestamps and different lengths; failing reads while opening",
  "Tests merge two or three similar files.",
  ["vrs/MultiRecordFileReader.cpp"],
  [("unique stream id generation", "vrs/MultiRecordFileReader.cpp"), ("merged record index", "vrs/MultiRecordFileReader.cpp")])
p("C15", "Copying, filtering and merging is faithful, or reports failure",
  "A copy that reports success contains exactly the records selected by the filters, unchanged, with their tags; merging keeps the records of all sources (one of those with the same stream, type and time), with distinct or combined streams as asked; a filter editing structured records while they are copied changes exactly the fields, images and audio it edits, and decimation keeps the records its intervals or time buckets say. If a source record cannot be read or the destination cannot be written, the operation reports an error.",
  ["fault_sequences", "schedules", "configurations"],
  "any time range, stream and type filter, compression setting and thread count, destination chunking, with read and write faults at any operation",
  "Tests copy healthy files on a healthy disk.",
  ["vrs/utils/FilterCopy.cpp", "vrs/utils/FilterCopyHelpers.cpp", "vrs/utils/FilteredFileReader.cpp", "vrs/utils/cli/DefaultDecimator.cpp", "vrs/utils/cli/MakeZeroFilterCopier.cpp"],
  [("record by record copier", "vrs/utils/FilterCopyHelpers.cpp"), ("throttled background writing", "vrs/utils/ThrottleHelpers.cpp")])
p("C16", "Checks and comparisons give sound verdicts",
  "Verifying a file, computing its checksum, and comparing two files give the same answer whatever the storage layout, compression or chunking of the same records. They succeed on intact files; a changed, missing or added record or tag gives a different checksum and an unequal comparison, and a record that cannot be read, or decoded when decoding is asked, makes the check fail.",
  ["inputs", "fault_sequences"],
  "random record sets, every kind of one-record difference, read faults at any operation",
  "Tests compare a few prepared files and never fail a read.",
  ["vrs/utils/Validation.cpp", "vrs/utils/xxhash/xxhash.cpp"],
  [("record digest", "vrs/utils/Validation.cpp")])
p("C17", "Atomically replaced files and caches are never partial",
  "A file replaced through the atomic writer holds, at every moment and after a crash or failure at any point, either its complete old or its complete new content; a failed or abandoned replacement leaves the old content (it may be gone only if the system refused the final rename). A cached file description is either absent, rejected, or exactly what was stored, and a missing, truncated, partial, overwritten or unreadable cache never changes what is read from the recording.",
  ["crash_points", "fault_sequences", "schedules"],
  "a crash or error at every I/O operation, torn writes, corrupt cache content, and several users of one cache at the same time",
  "Tests write and read back the cache once without failures.",
  ["vrs/DiskFile.cpp", "vrs/FileDetailsCache.cpp", "vrs/FileCache.cpp", "vrs/RecordFileReader.cpp"],
  [("write aside and rename", "vrs/DiskFile.cpp AtomicDiskFile"), ("cache file with size and magic checks", "vrs/FileDetailsCache.cpp")])
p("C18", "A multi-chunk disk file behaves like one array of bytes",
  "Any sequence of reads, writes, overwrites, seeks, skips, truncations, chunk additions and reopenings on a disk file made of several chunks gives the data, positions, sizes, end-of-file state and errors that one contiguous array of bytes would. Short reads and failures are reported with the number of bytes transferred.",
  ["histories", "inputs", "fault_sequences"],
  "random operation sequences over random chunk layouts, including empty chunks and offsets at chunk limits, with and without I/O faults",
  "Tests use a few fixed chunk sizes and patterns.",
  ["vrs/DiskFile.cpp", "vrs/DiskFileChunk.hpp", "vrs/FileHandler.cpp"],
  [("position mapped to a chunk", "vrs/DiskFile.cpp setPos")])
p("C19", "Events and job queues neither lose nor invent work",
  "Every job sent to a queue before it is ended is received exactly once, in order, unless it was cancelled or cleared (cancelled jobs are handed to the cleanup function), and waiting returns at the latest at its timeout or when the queue ends. An event dispatched to an event channel wakes one waiter, or all waiters, as configured (events dispatched in quick succession may be merged while a waiter is still being woken); a waiter never misses an event dispatched before its wait began when looking back is allowed, and reports the number of missed events truthfully; destroying a channel releases its waiters. A semaphore never grants more than was posted, and a timed wait lasts as long as asked.",
  ["schedules", "histories"],
  "every interleaving of senders, receivers and ending, spurious wake-ups, timeouts of every length",
  "Wake-up races depend on schedules that a test on real threads rarely produces.",
  ["vrs/helpers/JobQueue.h", "vrs/os/Event.cpp", "vrs/os/Semaphore.cpp", "vrs/os/Event.h"],
  [("condition variable with predicate", "vrs/helpers/JobQueue.h"), ("event counters", "vrs/os/Event.cpp")])
p("C20", "Stream identities are unique",
  "Two streams of the same kind never get the same identity in one process (up to the 65,535 identities a kind has), however many threads create them, their serial numbers are unique, and a temporary reset of the numbering affects only its own scope and restores the previous numbering exactly. A writer refuses a second stream with an identity it already has, without losing the first.",
  ["schedules", "histories"],
  "concurrent creation of streams of mixed types, nested scopes, resets",
  "Tests create streams on one thread.",
  ["vrs/Recordable.cpp", W],
  [("instance counters under a mutex", "vrs/Recordable.cpp getNewInstanceId")])
p("C21", "Structured records decode to what was encoded",
  "A record written from structured data (metadata layouts with values, arrays, vectors, strings and maps; images; audio; custom blocks) is delivered to a player, from a file, block by block with the same values, including when the reader's layout is an older or newer version of the writer's: known fields (same label and type) keep their values and unknown ones take defaults. Block sizes and formats survive the round trip, images and audio are described by the layout before them or by the latest configuration record read, and an undecodable record is reported, not misread. Layouts can be described as JSON and made again, mapped, cloned, copied and printed without changing a value.",
  ["inputs", "configurations", "fault_sequences"],
  "random layouts, block formats and values, layout versions with added, removed and reordered fields, partial reads",
  "Tests use a few fixed layouts and values.",
  ["vrs/DataLayout.cpp", "vrs/RecordFormat.cpp", "vrs/ContentBlockReader.cpp", "vrs/RecordFormatStreamPlayer.cpp"],
  [("fields matched by name and type", "vrs/DataLayout.cpp mapLayout"), ("content block size computation", "vrs/RecordFormat.cpp")])
p("C22", "Recording is free of data races",
  "Using the recording interface as documented, from several threads creating records while one controls the writer, never has two threads access the same memory without synchronisation when one of them writes. The same holds for chunked writing, event channels, job queues, disk I/O engines and stream creation, and for unrelated writers, readers and copies, each used by its own thread.",
  ["schedules", "configurations"],
  "every interleaving of producers, control, writer, compression and purge threads over all writing modes",
  "A race shows only when two unsynchronised accesses meet, and then often without a visible effect.",
  [W, "vrs/RecordManager.cpp", "vrs/IndexRecord.cpp", "vrs/DiskFile.cpp", "vrs/os/Event.cpp"],
  [("mutexes and atomics in the writer", W)])
p("C23", "Extraction writes what a recording holds, or says it failed",
  "Extracting the images, the audio or all the data of a recording writes every image once (its bytes, or a PNG image with the same pixels), every run of audio blocks of one format as a WAV file with exactly their samples and a matching header, and, when extracting all the data, the description of every record with content, in the order of the recording. This holds with any interleaving of the threads which save images, and for each of several extractions in one process. When extracting audio or all the data reports success, everything was read and written completely, whatever failed meanwhile: storage errors and unread records are reported. An audio track is only called a success when its file is complete.",
  ["schedules", "fault_sequences", "inputs"],
  "every interleaving of the reading thread with the saving threads; every write, close or read which can fail; all image, audio and record formats",
  "Tests extract nothing.",
  ["vrs/utils/cli/DataExtraction.cpp", "vrs/utils/DataExtractor.cpp", "vrs/utils/ImageExtractor.cpp", "vrs/utils/AudioExtractor.cpp", "vrs/utils/AudioTrackExtractor.cpp", "vrs/utils/PixelFrame.cpp"],
  [("job queue of images to save, joined at the end", "vrs/utils/ImageExtractor.cpp"), ("status collected by the extractors", "vrs/utils/DataExtractor.cpp completeOutput")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
