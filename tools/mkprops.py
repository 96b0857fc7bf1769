#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": state, "meaning": "state the property talks about"}]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Box headers are written and read exactly",
 "WriteBoxInfo writes exactly the ISO/IEC 14496-12 box header for the requested size, type and form (32-bit size when it fits and no large header is requested, 64-bit size otherwise, size 0 when the box extends to the end of the file) at the writer's current offset, and returns the real offset, the header size written and the size adjusted to it. ReadBoxInfo returns offset, size, header size, type and ExtendToEOF of the header that starts at the reader's current offset and leaves the reader at the first payload byte, and SeekToStart, SeekToPayload and SeekToEnd seek to offset, offset+header size and offset+size. Reading back what was written gives the same description.",
 ["inputs"], "every 64-bit size, every 4-byte type, every header form, every start offset, every byte string that may stand where a header is expected",
 "the tests use a handful of sizes and offsets; the boundaries between the three header forms and the arithmetic on 64-bit sizes have unboundedly many instances",
 ["box_info.go"], [("WriteBoxInfo", "box_info.go"), ("ReadBoxInfo", "box_info.go"), ("SeekToStart/SeekToPayload/SeekToEnd", "box_info.go")])

prop("C02", "Traversal visits every box once, in file order, with the right information",
 "ReadBoxStructure and ReadBoxStructureFromInternal call the handler exactly once for each top-level box and, when the handler calls Expand, for each direct child of that box in file order, with the box's true offset, size, header size, type, full path from the root and the parameters given to that Expand (or to the top-level call). ReadPayload gives the decoded payload of that very box, ReadData its exact payload bytes, Expand the children after its own fields, in whatever order and however often the handler calls them and wherever it leaves the reader; the values the handler returns come back in visiting order. A handler's error stops the traversal and is returned.",
 ["inputs", "histories"], "every well-formed box tree and every sequence of handler actions (skip, ReadPayload, ReadData, Expand, move the reader, return a value or an error) at every visited box",
 "the tests run two or three fixed handlers over sample files; interleavings of handler actions and tree shapes are unbounded",
 ["read.go", "box_info.go", "marshaller.go"], [("readBoxStructureFromInternal", "read.go"), ("readBoxStructure", "read.go"), ("ReadHandle.ReadPayload/ReadData/Expand", "read.go")],
 observe="the handler callback and its ReadHandle")

prop("C03", "A malformed box structure is always reported and traversal always ends",
 "When a visited level contains a box smaller than its own header, a box reaching past the end of its parent, a truncated header below the top level, or 1 to 7 bytes left over after the last child of a box that is not QuickTime compatible, the traversal (ReadBoxStructure, Expand, ExtractBox) returns an error instead of a result; a box whose end lies beyond the 63-bit offset range is rejected as well. The traversal visits only boxes whose declared extent lies inside their parent, and on every finite input it terminates after finitely many visits, each at a larger offset than the previous sibling.",
 ["inputs"], "every byte string as a file and every handler that expands supported boxes",
 "malformed inputs are unbounded in number and the tests contain almost none; non-termination cannot be observed by an assertion",
 ["read.go", "box_info.go", "extract.go"], [("ReadBoxInfo size checks", "box_info.go"), ("readBoxStructure totalSize accounting", "read.go")])

prop("C04", "A box type is interpreted by its context and the latest matching registration",
 "IsSupported, New, GetSupportedVersions and IsSupportedVersion of a box type resolve to the most recently registered definition whose context predicate accepts the Context, and to the numbered ilst item when no definition matches, UnderIlst is set and the numeric type is between 1 and the keys entry count; otherwise the type is unsupported and ErrBoxInfoNotFound is returned. The Context each box is visited with is derived only from its ancestors and preceding siblings: UnderWave, UnderIlst, UnderIlstMeta, UnderIlstFreeMeta and UnderUdta below those boxes, IsQuickTimeCompatible after a top-level ftyp naming brand 'qt  ', and the keys entry count after a keys sibling.",
 ["inputs", "configurations"], "every 4-byte type, every combination of context flags and key counts, every sequence of registrations, every nesting of context-making boxes",
 "the product of types, contexts, registrations and nestings is far larger than the few the tests try",
 ["mp4.go", "anytype.go", "box_types_metadata.go", "box_types_3gpp.go", "read.go"], [("getBoxDef", "mp4.go"), ("AddBoxDef/AddBoxDefEx/AddAnyTypeBoxDef/AddAnyTypeBoxDefEx", "mp4.go"), ("context propagation", "read.go")])

prop("C05", "Extraction equals filtering the full traversal",
 "ExtractBoxes returns, in file order and without duplicates, exactly the boxes whose path from the root (or from the given parent) matches at least one of the given paths component by component, where the any-type matches every type; an empty list of paths gives nothing and an empty path an error. ExtractBoxesWithPayload returns the same boxes, each with the payload (and context-dependent type) that ReadPayload gives for it during a traversal, and both report an error when a box that has to be opened to find matches cannot be opened.",
 ["inputs"], "every box tree, every set of paths including wildcards and prefixes of each other, with and without a parent",
 "path sets and trees multiply; the tests use a few paths on one or two files",
 ["extract.go", "read.go", "mp4.go"], [("ExtractBoxes/ExtractBoxesWithPayload", "extract.go"), ("BoxPath.compareWith", "read.go"), ("matchPath", "extract.go")])

prop("C06", "Every supported payload decodes to the fields its layout prescribes",
 "For every supported box type, version, flag set and context, Unmarshal/UnmarshalAny/ReadPayload of a payload that satisfies the box's published layout succeeds, returns the number of bytes the fields occupy, and yields for each field exactly the value at its bit position: optional and version-dependent fields present exactly when version, flags or controlling fields say so, counted lists with exactly their count, signed fields sign-extended, strings up to their terminator, absent fields zero. A payload with a version the box does not support is refused with ErrUnsupportedBoxVersion and the reader is put back to the start of the payload.",
 ["inputs"], "every value of every field of every supported box, every version byte, every flag combination, every context",
 "each box is tested with one or two literal payloads; the values of fields, list lengths and flag sets are unbounded",
 ["marshaller.go", "field.go", "internal/bitio/read.go", "box_types_iso14496_12.go", "box_types_iso14496_14.go", "box_types_metadata.go", "box_types_iso23001_7.go"], [("Unmarshal", "marshaller.go"), ("isTargetField", "field.go"), ("GetFieldSize/GetFieldLength/IsOptFieldEnabled/OnReadField", "box_types_*.go")])

prop("C07", "Encoding writes exactly the prescribed bytes and round-trips",
 "For every box value whose counters agree with its lists, Marshal writes exactly the bits its layout prescribes for the active fields in layout order (truncating integers to the field width, terminating strings, variable-length integers in four octets) and returns the number of bytes written, and decoding those bytes in the same context gives an equal value back. Marshal fails when a counted list, at any nesting depth, has fewer elements than its counter says or the fields do not end on a byte boundary, and writes only the counted elements when a list is longer.",
 ["inputs"], "every value of every supported box type, version, flag set and context",
 "the tests marshal one or two literals per box; round-trip equality is a statement about all values",
 ["marshaller.go", "field.go", "internal/bitio/write.go", "box_types_iso14496_12.go", "box_types_iso14496_14.go"], [("Marshal", "marshaller.go"), ("OnWriteField", "box_types_*.go"), ("WriteBits", "internal/bitio/write.go")])

prop("C08", "Decoding never depends on bytes outside the box payload",
 "Whatever the payload bytes, a successful Unmarshal reports n not larger than the payload size, its value depends only on the payload bytes (not on what precedes or follows them in the reader), and fields that would extend past the payload make it fail instead of taking bytes from the next box. Byte arrays whose declared length exceeds what the reader can still supply are refused before a buffer of that length is allocated.",
 ["inputs"], "every payload byte string (valid, truncated, extended, with any counter altered) for every box type, embedded in any surroundings",
 "overruns appear only for particular corrupted counters; a test cannot list them",
 ["marshaller.go", "box_types_iso14496_12.go", "box_types_metadata.go"], [("overrun check", "marshaller.go Unmarshal"), ("readerHasSize", "marshaller.go"), ("Meta.BeforeUnmarshal", "box_types_iso14496_12.go")])

prop("C09", "The Writer produces a well-formed nested box tree with exact sizes",
 "After any balanced sequence of StartBox, Write, Marshal to the Writer, CopyBox, Seek back and forth, and EndBox, every box on the output has a header whose size is the distance from its start to the position at which its EndBox was called, children lie inside their parents, all bytes written are preserved, and the writer is left at the position where EndBox was called. EndBox returns the final BoxInfo; a box whose final size no longer fits the header form reserved by StartBox is reported as an error; CopyBox copies exactly the bytes of the source box or fails.",
 ["histories"], "every balanced sequence of Writer operations with every header form, type and payload length",
 "operation sequences are unbounded; the tests run three fixed sequences",
 ["write.go", "box_info.go"], [("Writer.StartBox/EndBox/CopyBox", "write.go"), ("biStack", "write.go")], state="biStack, underlying writer's content and position")

prop("C10", "I/O failures surface as errors and legal short reads change nothing",
 "If the underlying reader, seeker or writer fails at any call of any operation (reading headers, payloads, data, traversal, extraction, probing, IDR search, Marshal, Writer), the operation returns an error rather than a result; only io.EOF at a top-level box boundary is the normal end. A reader that returns fewer bytes than asked, data together with io.EOF, or arbitrary chunk sizes gives the same results as one that returns everything at once.",
 ["fault_sequences"], "every operation, every position of the failing call, every chunking of the reads",
 "a fault at each of hundreds of call positions per operation cannot be written as unit tests one by one",
 ["marshaller.go", "internal/bitio/read.go", "internal/bitio/write.go", "internal/util/io.go", "box_info.go", "read.go", "write.go", "probe.go", "extract.go"], [("ReadBit", "internal/bitio/read.go"), ("ReadString", "internal/util/io.go"), ("marshalSlice/marshalUint", "marshaller.go")])

prop("C11", "Arbitrary input never causes a panic or endless loop",
 "For every byte string presented as a file, ReadBoxStructure with expansion, ReadPayload and Stringify of what was decoded, ExtractBoxWithPayload, Probe, FindIDRFrames and the bitrate functions return a result or an error: no panic, and a number of reads bounded by the input's size and declared counts. The same holds for FindIDRFrames, GetBitrate and GetMaxBitrate on every Track, Samples and Segments value without nil entries.",
 ["inputs"], "every byte string up to the sizes explored, mutants of valid files included, and every sample/chunk table",
 "absence of panics and hangs is a statement about all inputs",
 ["marshaller.go", "read.go", "box_info.go", "probe.go", "string.go", "box_types_iso14496_12.go"], [("length arithmetic", "marshaller.go"), ("nalOffset arithmetic", "probe.go FindIDRFrames"), ("window arithmetic", "probe.go Samples.GetMaxBitrate")])

prop("C12", "Probe reports the movie's brands, tracks and tables exactly",
 "For every well-formed file, Probe returns the ftyp brands and version, the mvhd timescale and duration, FastStart exactly when moov precedes every mdat, and one Track per trak in file order with its id, mdhd timescale and duration, codec, encryption, edit list, AVC and AAC configuration. Samples are the stts runs expanded in order with sizes from stsz and composition offsets from ctts by sample index, chunks the stco (or co64) offsets in order, each with the samples-per-chunk of the stsc run that covers it; a missing mandatory box is an error.",
 ["inputs"], "every combination of run-length tables, versions, box orders, codecs and optional boxes",
 "run-length tables and their combinations are unbounded; the tests check two sample files",
 ["probe.go", "extract.go"], [("Probe", "probe.go"), ("probeTrak", "probe.go"), ("detectAACProfile", "probe.go")])

prop("C13", "Probe summarises each movie fragment exactly",
 "For every moof in file order Probe returns a Segment with its offset, the tfhd track id and default duration, the tfdt base decode time of either version, and from the trun: the sample count, the total duration and size (per-sample values when the flags say they are present, otherwise defaults times count), and as CompositionTimeOffset the minimum over samples of accumulated duration plus composition offset. A moof without tfhd is an error; a moof without trun has zero count, duration and size.",
 ["inputs"], "every flag combination of tfhd and trun, both versions, every per-sample value and count",
 "flag combinations times per-sample values are unbounded; tests use one sample file",
 ["probe.go", "box_types_iso14496_12.go"], [("probeMoof", "probe.go"), ("Trun.GetSampleCompositionTimeOffset", "box_types_iso14496_12.go")])

prop("C14", "FindIDRFrames finds exactly the samples containing an IDR slice",
 "For a track with AVC configuration FindIDRFrames returns, in increasing order, exactly the indexes of the samples whose length-prefixed NAL unit sequence contains a NAL unit of type 5, locating sample data from the chunk offsets, samples per chunk and sample sizes and using the configured NAL length size; samples of size zero contain none. Without AVC configuration it returns nothing, and data that cannot be read gives an error.",
 ["inputs"], "every chunk/sample table, every NAL length size 1 to 4, every sequence of NAL units",
 "sample tables and NAL sequences are unbounded; one sample file is tested",
 ["probe.go"], [("FindIDRFrames", "probe.go")])

prop("C15", "Bitrates are the exact averages and window maxima of the samples",
 "Samples.GetBitrate and Segments.GetBitrate equal floor(8*total size*timescale/total duration) over the samples (or the segments of the given track), and zero when the total duration is zero, computed exactly whenever the result fits 64 bits. Samples.GetMaxBitrate equals the largest such value over the windows of a slide along the samples - each window is extended sample by sample until its duration reaches timeDelta or the samples end, and then loses samples at its front, at least one, until its duration is below timeDelta -, windows without duration left out, and zero for timeDelta zero; Segments.GetMaxBitrate equals the largest single-segment bitrate of the track.",
 ["inputs"], "every sequence of sample sizes and durations, every timescale and window length",
 "the sliding window is correct or not for all sequences; tests try one",
 ["probe.go"], [("Samples.GetBitrate/GetMaxBitrate", "probe.go"), ("Segments.GetBitrate/GetMaxBitrate", "probe.go")])

prop("C16", "Stringify shows exactly the active fields with their values",
 "Stringify and StringifyWithIndent list, in layout order, exactly the fields that are active for the box's version, flags, controlling fields and context, minus constants and hidden fields, each once and with its own value in the format the layout prescribes (decimal, hexadecimal, string with unprintable characters replaced by '.', UUID, language code, fixed point, named constants, nested structures and lists with only the counted elements). The indented form contains the same fields and values.",
 ["inputs"], "every value of every supported box type, version, flag set and context, with and without indentation",
 "one literal string per box is tested",
 ["string.go", "internal/util/string.go", "box_types_iso14496_12.go", "box_types_metadata.go", "box_types_iso23001_7.go"], [("stringifyStruct and friends", "string.go"), ("StringifyField", "box_types_*.go"), ("FormatSignedFixedFloat1616 and friends", "internal/util/string.go")])

prop("C17", "Independent concurrent use gives the sequential results without data races",
 "When several goroutines at the same time traverse, extract, decode, stringify, encode and probe, each with its own reader, writer and box values, every one of them obtains exactly the result it would obtain alone, under every schedule, and no two of them access shared memory without synchronisation when none registers box definitions meanwhile.",
 ["schedules"], "every interleaving of independent operations on any mix of files and boxes",
 "unit tests are sequential",
 ["mp4.go", "field.go", "marshaller.go", "read.go", "string.go"], [("boxMap and shared field tables", "mp4.go"), ("resolveFieldInstance copies", "field.go")], state="boxMap, field tables, package-level slices")

prop("C18", "mp4tool edit changes only what it was asked to",
 "mp4tool edit copies the input to the output box by box: boxes of the dropped types (at any depth that is rewritten) disappear, tfdt boxes get the requested base media decode time in the field of their version, and every other box keeps its type, order and nesting and its fields: boxes of unsupported types and mdat are copied byte by byte, the payload of every other box is encoded again from its decoded fields (so its bytes stay the same whenever they are what Marshal writes for them). Sizes of the enclosing boxes are adjusted to the new content, and the output is a well-formed box tree.",
 ["inputs"], "every input tree made of supported and unsupported boxes, every combination of the options",
 "the edit command has no tests at all in this repository",
 ["cmd/mp4tool/internal/edit/edit.go", "write.go", "marshaller.go"], [("editFile", "cmd/mp4tool/internal/edit/edit.go")])

prop("C19", "mp4tool divide partitions the fragments by track without loss",
 "mp4tool divide writes, for each track of a fragmented file, an init segment with ftyp, sidx and a moov holding the unchanged mvhd, mvex, pssh and udta boxes and that track's own trak (but no other trak), and media segment files which hold, in order, every moof of that track followed by its mdat, unchanged, and nothing of other tracks. The track's media playlist names each segment with the total duration of its fragment in seconds (per-sample durations, or the default of the tfhd or trex box) and a target duration that covers the longest one, and the master playlist names the playlists of the video and audio tracks, with the resolution and the peak bit rate of the video. A file that cannot be divided gives an error exit instead of a crash.",
 ["inputs"], "every fragmented file with video and audio tracks in any interleaving",
 "the divide command has no tests at all in this repository",
 ["cmd/mp4tool/internal/divide/divide.go", "probe.go", "write.go"], [("divide", "cmd/mp4tool/internal/divide/divide.go")])

prop("C20", "mp4tool extract, dump, psshdump and probe report the file truthfully",
 "mp4tool extract writes exactly the raw bytes of every box of the given type at any depth in file order; dump prints one line per box, indented by depth, with type, size and the same field text as Stringify; psshdump prints for every pssh under moov or moof the version, flags, system id, data size and base64 of the whole box; probe prints the values of the Probe API and the derived bitrates. Each exits non-zero with a message when the file cannot be parsed.",
 ["inputs"], "every file and every combination of the command options",
 "the commands are tested on the sample files only",
 ["cmd/mp4tool/internal/extract/extract.go", "cmd/mp4tool/internal/dump/dump.go", "cmd/mp4tool/internal/psshdump/psshdump.go", "cmd/mp4tool/internal/probe/probe.go"], [("extract", "cmd/mp4tool/internal/extract/extract.go"), ("dump", "cmd/mp4tool/internal/dump/dump.go"), ("psshdump", "cmd/mp4tool/internal/psshdump/psshdump.go"), ("probe", "cmd/mp4tool/internal/probe/probe.go")])

prop("C21", "User-defined boxes follow their mp4 tags",
 "A struct registered by the user with mp4 tags is decoded, encoded and stringified as its tags say: order, size (1 to 64 bits, fixed or dynamic), len (fixed or dynamic), ver/nver, opt/nopt (decimal or hexadecimal) and opt=dynamic, string, boxstring, varint, extend, const, hidden, dec, hex, iso639-2 and uuid, for all integer kinds, booleans, strings, arrays, slices, pointers and nested structs at any bit alignment. OnReadField and OnWriteField overrides, BeforeUnmarshal and GetFieldSize/GetFieldLength/IsOptFieldEnabled are consulted on the innermost struct that implements them; bit readers and writers refuse unaligned byte access.",
 ["programs", "inputs"], "every struct definition in the tag language and every value of it",
 "struct definitions are unbounded; the tests contain one large example",
 ["field.go", "marshaller.go", "string.go", "internal/bitio/read.go", "internal/bitio/write.go"], [("buildField/parseFieldTag", "field.go"), ("resolveFieldInstance/isTargetField", "field.go"), ("ReadBits/WriteBits", "internal/bitio")])

prop("C22", "Accessors agree with the stored fields",
 "Flag operations (GetFlags, SetFlags, AddFlag, RemoveFlag, CheckFlag) treat the three flag bytes as one 24-bit number and touch no other bits; ftyp brand operations (HasCompatibleBrand, AddCompatibleBrand, RemoveCompatibleBrand) behave as set operations on the brand list; version-dispatched getters return the field of the box's version (zero for unknown versions) and fixed-point getters the exact value of the stored number. A box type converts to and from a number and a four-character text without loss, prints as its four characters or else as hexadecimal digits, and matches exactly itself and the any-type; the named brands, flag masks, profiles, descriptor tags and data types have the numbers of the fields they stand for.",
 ["inputs", "histories"], "every flag value and operation sequence, every brand list, every field value, version and index, every box type",
 "values and operation sequences are unbounded; most getters are tested with one value",
 ["box.go", "box_types_iso14496_12.go"], [("FullBox flag methods", "box.go"), ("BoxType", "mp4.go"), ("Ftyp brand methods", "box_types_iso14496_12.go"), ("Get* methods", "box_types_iso14496_12.go")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
