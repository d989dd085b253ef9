#!/usr/bin/env python3
# Writes /verif/properties.jsonl (single source for the property texts).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, obs, meaning=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": obs, "hook_needed": None}})

p("C01", "Every sample written is read back exactly, in order, from the open file",
  "For any history of successful channel writes on an open file (any supported element type, any group of channels per call, any samples per channel including none, either layout, property writes and new writers in between), each channel afterwards reads back as exactly the concatenation, in write order, of the samples written to it, bit for bit. No sample is lost, duplicated, reordered or attributed to another channel.",
  ["histories", "inputs"], "All finite histories of channel writes, property writes, flushes and writer re-acquisitions over any channel names, types, sizes and layouts.",
  "The tests write one or two fixed batches of a few doubles; whether a segment may be written without repeating its object list, and where each sample then lands, depends on the whole preceding history.",
  ["src/file/file_writer.rs", "src/index/writing.rs", "src/index/building.rs", "src/file/channel_reader.rs", "src/raw_data/write.rs"],
  [("metadata elision when the live channel list matches", "index/writing.rs check_write_values, file_writer.rs DataStreamWriter"), ("per-segment data location index", "index/building.rs add_segment")],
  ["TdmsFile::read_channel", "TdmsFile::channel_length"])
p("C02", "Reopening a written file shows exactly what the writing handle showed",
  "After any history of successful writes and a flush or drop of the writer, opening the same bytes again (from memory or from a real path) succeeds and shows the same groups, channels, lengths, samples and properties as the handle that wrote them. This stays true when writing continues after the reopening, across any number of close and reopen rounds; loading an existing path never changes it (complete, cut short or no TDMS data at all), loading a missing path fails and creates nothing, and creating at an existing path leaves an empty file.",
  ["histories", "inputs"], "All histories of writes interleaved with any number of close and reopen rounds, on in-memory streams and on files.",
  "The existing tests never reopen what they wrote: the bytes are only ever interpreted through the index the writer itself built.",
  ["src/file/mod.rs", "src/file/file_writer.rs", "src/io/writer.rs", "src/io/reader.rs", "src/index/building.rs"],
  [("index rebuilt from segment headers", "file/mod.rs build_index"), ("append position of a new writer", "file/mod.rs writer()")],
  ["TdmsFile::load", "TdmsFile::create", "TdmsFile::new", "all read and list calls"])
p("C03", "Every file produced is a well-formed TDMS file that other readers decode",
  "After any history of successful writes the bytes produced are a valid TDMS 2.0 file by NI's format description: segments chain exactly to the end of the file, every header's offsets, flags, counts, type codes and lengths agree with the bytes that follow, and 'same as before' shortcuts are only used where the format allows. A decoder written only from the format description recovers from them every channel's samples and every property that was written.",
  ["histories", "inputs"], "All write histories; all element and property types; both layouts.",
  "Existing writer tests compare the header bytes of a few hand-made segments; the declared sizes and list shortcuts are only wrong for particular types and sequences of writes.",
  ["src/io/writer.rs", "src/meta_data.rs", "src/raw_data/write.rs", "src/properties.rs", "src/index/writing.rs", "src/io/data_types"],
  [("lead-in offsets computed from planned sizes", "io/writer.rs write_segment"), ("size() of metadata, properties and values", "meta_data.rs, properties.rs, io/data_types")],
  ["bytes received by the underlying stream"])
p("C04", "Any valid TDMS file from another writer is read as the format prescribes",
  "For every valid TDMS file whose channels hold fixed-size types (little or big endian segments, interleaved or contiguous, several chunks per segment, partial object lists, lists carried over from earlier segments with or without metadata, channels joining and leaving, property-only segments, an unfinished last segment length), the groups, channels, lengths, samples and properties shown are exactly those the format description assigns. Channels of unsupported kinds (strings, DAQmx) are refused with an error and never shown as data, and a string channel does not disturb its neighbours.",
  ["inputs"], "All valid segment sequences over fixed-size channel types; README assumption that channels of one segment have equal length for interleaved data.",
  "The tests load one LabVIEW file; the meaning of a segment depends on all earlier ones, on byte order, layout and chunk count, a space no sample set covers.",
  ["src/meta_data.rs", "src/io/reader.rs", "src/index/building.rs", "src/raw_data"],
  [("segment parsing per byte order", "io/reader.rs, meta_data.rs"), ("active object list and format inheritance", "index/building.rs"), ("chunk arithmetic and readers", "raw_data")],
  ["TdmsFile::new", "all read and list calls"])
p("C05", "Reading from any start position returns exactly that slice of the channel",
  "Reading a channel from any start sample into a buffer of any length fills the buffer's beginning with exactly the samples start, start+1, ... of the channel's full content, up to the buffer's or the channel's end, and leaves every later buffer element untouched. Positions at, on either side of, or beyond any segment, chunk or channel boundary behave no differently.",
  ["inputs", "histories"], "All files, channels, starts (0 to the largest 64-bit value) and buffer lengths.",
  "The offset tests use a few aligned and unaligned starts in files of one or two segments; the skip arithmetic differs per layout, chunk count and boundary.",
  ["src/file/channel_reader.rs", "src/raw_data/contigious_multi_channel_read.rs", "src/raw_data/interleaved_multi_channel_read.rs"],
  [("read plan with per-block skips", "file/channel_reader.rs read_plan"), ("sub-block and row skipping", "raw_data readers")],
  ["TdmsFile::read_channel_from", "TdmsFile::read_channel"])
p("C06", "Reading several channels at once equals reading each one alone",
  "Reading any list of channels in one call (any order, repeats included, channels of different lengths or written in different segments, buffers of different lengths, any common start) fills each buffer exactly as a separate read of that channel with the same start and buffer would. Buffer elements past what that separate read would fill stay untouched.",
  ["inputs", "histories"], "All files of one element type per call, all channel lists, buffer lengths and starts.",
  "The tests read two or three equally long channels in file order; the shared read plan, progress and skip bookkeeping only diverges when lengths, order, or positions differ between channels.",
  ["src/file/channel_reader.rs", "src/raw_data/mod.rs", "src/raw_data/records.rs", "src/raw_data/contigious_multi_channel_read.rs", "src/raw_data/interleaved_multi_channel_read.rs"],
  [("joint read plan and progress", "file/channel_reader.rs"), ("record plan per block", "raw_data/records.rs")],
  ["TdmsFile::read_channels", "TdmsFile::read_channels_from"])
p("C07", "Properties keep the last value written, exactly, and only where written",
  "For any history of property writes on the file, groups and channels, reading a property returns the most recently written value with the same type and the same bits, on that object only, both on the open file and after reopening. Listing an object's properties gives each of its names once with that value; properties never written read as absent, and data writes never alter properties nor property writes data.",
  ["histories", "inputs"], "All histories mixing property writes, data writes and reopenings; all property types, names and values including NaN payloads, empty and long strings.",
  "The tests write a handful of properties once; overwriting, type changes, cross-object leakage and interaction with data segments arise only in histories.",
  ["src/properties.rs", "src/index/mod.rs", "src/index/building.rs", "src/file/file_writer.rs", "src/io/data_types/strings.rs"],
  [("property map updated per segment", "index/mod.rs ObjectData::update"), ("property value codecs", "properties.rs")],
  ["TdmsFile::read_property", "TdmsFile::read_all_properties"])
p("C08", "Listings show exactly the groups and channels in the file, and all are usable",
  "The groups listed are exactly the distinct groups of all objects in the file, each once, and the channels listed for a group are exactly that group's channels, each once, with no channel of a similarly named group. Every path listed can be used as is to obtain the channel's length, data and properties.",
  ["histories", "inputs"], "All sets of object paths, including empty names, names with slashes, quotes, shared prefixes and non-ASCII text, created by this library or by others.",
  "Tests use simple distinct names; prefix matching and path parsing only fail for particular combinations of names.",
  ["src/file/mod.rs", "src/index/querying.rs", "src/paths.rs"],
  [("group extraction and prefix range", "file/mod.rs list_groups, index/querying.rs")],
  ["TdmsFile::list_groups", "TdmsFile::list_channels_in_group"])
p("C09", "Object paths round-trip, classify correctly and never collide",
  "For any group and channel names, the path built from them reports those names back (with single quotes shown as double quotes), converts to text and back unchanged, is accepted as a channel path exactly if it names a channel, and differs from the path of any other (quote-normalised) names. Parsing any text as a path returns a path that prints as that same text, or an error, and never panics.",
  ["inputs"], "All Unicode names and all strings offered as paths.",
  "Tests use one ordinary and one quoted name; slashes, quotes at the ends, empty names and malformed paths are unexplored.",
  ["src/paths.rs"], [("path parsing and escaping", "paths.rs parse_path, escape_name, path_levels")],
  ["PropertyPath", "ChannelPath"])
p("C10", "Data and properties are only ever delivered as their own type",
  "Reading a channel or converting a property as a type that its stored type does not support returns a type error naming the two types and leaves the output untouched for that data; reading as a supported type returns the exact values. This holds for every pair of stored and requested type, in every layout and byte order, for single and multi channel reads, and when different blocks of one channel have different types.",
  ["inputs", "configurations"], "All pairs of stored type and requested type, all layouts and byte orders.",
  "Tests try a few mismatches; the check is per block and per type, and a wrong one silently reinterprets bytes.",
  ["src/raw_data/records.rs", "src/io/data_types", "src/properties.rs"],
  [("type validation before reading a block", "raw_data/records.rs validate_types_match"), ("strict conversions", "properties.rs")],
  ["TdmsFile::read_channel*", "TryFrom<PropertyValue>"])
p("C11", "No input bytes can make the library panic, abort or loop",
  "For any byte sequence presented as a file, loading and then any listing, property, length, read (any type, start and buffer) or append call returns normally, with a result or an error: no panic, no arithmetic overflow, no abort on an impossible allocation. The work of a call stays bounded by what the file and the caller's buffers hold: stream operations in proportion to their bytes, time and memory at most to segments times channels plus bytes, never to the counts or lengths the file merely declares.",
  ["inputs", "histories"], "All byte sequences, and all call sequences on what they load as.",
  "Tests cover three malformed headers; hostile values can sit in any count, offset or type field and interact.",
  ["src/meta_data.rs", "src/io/reader.rs", "src/index", "src/raw_data", "src/paths.rs", "src/io/data_types/strings.rs"],
  [("checked arithmetic and fallible reservation", "meta_data.rs, io/reader.rs, raw_data/mod.rs"), ("sub-block loops", "raw_data readers")],
  ["every public call on TdmsFile"])
p("C12", "No undefined behaviour: memory is never read before it is written",
  "No safe use of the library, with any stream implementation behaving arbitrarily within the safe stream interface, causes undefined behaviour: no uninitialised memory is exposed to the stream or the caller, and no access is out of bounds or misaligned. This includes short, interrupted, failing and buffer-inspecting streams.",
  ["inputs", "fault_sequences"], "All call histories over all safe stream implementations.",
  "Ordinary tests run natively on well-behaved in-memory streams, where uninitialised reads are invisible.",
  ["src/io/data_types/strings.rs"], [("string buffer filled by the reader", "io/data_types/strings.rs read_string_with_length")],
  ["Miri, valgrind"])
p("C13", "A file cut short at any byte keeps everything completely written before",
  "If a valid file is cut at any byte, it still opens and shows every object, property and sample of all segments that lie completely before the cut, exactly; of the cut segment it shows only true values or nothing. Writing can then continue: after reopening, the surviving content and everything written since are both intact.",
  ["crash_points", "histories"], "All cut positions in all files produced by write histories or by other writers; followed by any further writes and reopenings.",
  "No test opens a truncated file that once was valid, and the outcome depends on the exact cut byte and on what is written afterwards.",
  ["src/file/mod.rs", "src/meta_data.rs", "src/index/building.rs"],
  [("end-of-file handling while indexing", "file/mod.rs build_index, meta_data.rs Segment::read"), ("append position", "file/mod.rs writer()")],
  ["TdmsFile::new on truncated bytes", "TdmsFile::writer after truncation"])
p("C14", "Write success means bytes reached the stream; faults lose nothing older",
  "When all write calls and a following sync return success, everything written is in the underlying stream and has been flushed, even if the stream accepts bytes piecemeal or reports interruptions. When the stream fails at any point, some call reports the error, and a fresh open of what reached the stream shows everything synced before, intact, with any newer write either wholly present or (in part) absent but never wrong.",
  ["fault_sequences", "histories"], "All write histories, all positions and kinds of write, flush and seek faults, all short-write patterns.",
  "Tests write to memory buffers that never fail or write short.",
  ["src/io/writer.rs", "src/file/file_writer.rs", "src/file/mod.rs"],
  [("buffered writer and sync", "io/writer.rs LittleEndianWriter")],
  ["bytes and flushes seen by the stream", "results of write_channels, write_properties, sync"])
p("C15", "Read faults are reported, never turned into wrong or missing content",
  "A stream that returns data piecemeal or reports interruptions gives exactly the same results as a perfect one. When a read or seek fails hard, the affected call returns an error rather than success with wrong, missing or truncated content, and once the stream works again the same handle reads everything correctly.",
  ["fault_sequences", "inputs"], "All files and call sequences, all positions and kinds of read and seek faults, all short-read patterns.",
  "Tests use memory buffers that always fill the request and never fail.",
  ["src/file/mod.rs", "src/io/reader.rs", "src/io/data_types", "src/raw_data"],
  [("error propagation while indexing and reading", "file/mod.rs build_index, raw_data readers")],
  ["results of every call against a fault-free twin"])
p("C16", "Writes only append, reads never write, refused writes change nothing",
  "Every successful write only adds bytes after the complete segments already in the file and never alters a byte of them, and no load, list, property, length or data read ever writes to the stream. A write call that is refused (no channels, the same channel twice, a value count that does not divide evenly, an element type that cannot be stored) leaves the stream and everything the handle shows unchanged, and later writes behave as if it had not happened.",
  ["histories", "inputs"], "All histories of successful and refused writes and of reads.",
  "Tests check that an error is returned, not that nothing changed, and never observe the stream.",
  ["src/file/mod.rs", "src/file/file_writer.rs", "src/raw_data/write.rs"],
  [("validation before writing", "file_writer.rs DataStreamWriter::new, raw_data/write.rs from_slice"), ("append position", "file/mod.rs writer()")],
  ["write events on the stream"])
p("C17", "Loading reads only headers; reading touches only the segments it needs",
  "Loading a file reads segment headers and metadata but never starts a read inside raw data, so its cost and memory depend on the metadata and not on the amount of data. Reading samples starts reads only inside the raw data of segments that hold requested samples of requested channels, whatever else the file contains, and stops once the buffers are full.",
  ["inputs", "histories"], "All files and all single or multi channel reads.",
  "Tests see only results; wasted or misplaced reads leave results unchanged.",
  ["src/file/mod.rs", "src/file/channel_reader.rs", "src/raw_data"],
  [("seek to next segment", "file/mod.rs build_index"), ("block skipping in the read plan", "file/channel_reader.rs read_plan")],
  ["read and seek events on the stream", "allocator"])
p("C18", "Each value type encodes as the format defines, and sizes agree",
  "For every element and property type, encoding in either byte order yields exactly the bytes the format defines, the reported size equals the number of bytes written and consumed, and decoding returns the same value bit for bit; decoding from fewer bytes is an error. Conversions between native values and property values, and between timestamps and calendar times, are lossless within the documented precision and fail with an error outside their range.",
  ["inputs"], "All values of all types, both byte orders.",
  "Tests check one or two values per type; NaN payloads, extremes, extended bytes, negative and extreme timestamps and size bookkeeping are not covered.",
  ["src/io/data_types", "src/properties.rs"],
  [("per type codecs", "io/data_types"), ("conversion impls", "properties.rs")],
  ["TdmsStorageType", "DataType", "PropertyValue conversions"])
p("C19", "How a file is segmented or encoded never changes what it contains",
  "Two valid files holding the same logical content (objects, properties, samples per channel in order) but differing in byte order, layout, chunking, segment boundaries, metadata repetition or channel order within segments give identical results to every listing, property, length and read call.",
  ["inputs", "configurations"], "All logical contents and all pairs of valid encodings of them.",
  "Tests read each layout on separate fixed data and never compare representations.",
  ["src/index/building.rs", "src/raw_data", "src/io/reader.rs"],
  [("byte order and layout specific readers", "raw_data/mod.rs")],
  ["paired handles over two encodings"])
p("C20", "A channel's reported length is exactly the number of samples it yields",
  "For every file that loads, valid, cut short or hostile, the length reported for a channel equals the number of samples that a read with a larger buffer delivers, and every sample position below it can be read on its own. Objects without data report zero and unknown objects report nothing.",
  ["inputs", "histories", "crash_points"], "All files that load; all channels.",
  "Tests check lengths of a few fixed files; length and reading are computed by separate code from counts, chunk sizes and byte lengths.",
  ["src/index/mod.rs", "src/index/building.rs", "src/raw_data/mod.rs", "src/file/channel_reader.rs"],
  [("sample counts per location", "index/building.rs insert_data_block"), ("chunk count from byte length", "raw_data/mod.rs number_of_chunks")],
  ["TdmsFile::channel_length against TdmsFile::read_channel*"])
p("C21", "Reads are repeatable and independent of earlier reads and failed calls",
  "The result of any read, list, length or property call depends only on the file's content: repeating it, or preceding it by any sequence of other reads, including ones that fail (missing objects, wrong types, starts past the end, stream errors), gives the same result. Acquiring and dropping a writer without writing changes nothing either.",
  ["histories"], "All sequences of read calls, successful or failing, on one handle.",
  "Each test performs one or two reads on a fresh handle.",
  ["src/file/mod.rs", "src/file/channel_reader.rs"],
  [("absolute seeks before each block", "raw_data readers")],
  ["call results against a fresh handle"])
p("C22", "Files and channels beyond 4 GiB and 2^32 samples are addressed exactly",
  "Segments, chunks, samples and start positions beyond 2^32 bytes or samples are located exactly: lengths, reads at any position and appended writes give the right values on files of any size up to the 64-bit limits of the format, and reaching a far sample costs no more work than a near one.",
  ["inputs"], "All files with large offsets, sample and chunk counts; all start positions.",
  "Test files are a few kilobytes; narrowing conversions and overflow only show beyond 4 GiB.",
  ["src/raw_data", "src/file/channel_reader.rs", "src/index", "src/io/reader.rs"],
  [("64-bit offsets, seeks relative to blocks", "raw_data readers, index/building.rs")],
  ["reads over a sparse virtual stream"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
