claim("C01", "TLA+ header format; TLC enumerates boundary headers, proves write/read faithful on the spec and judges every recorded WriteBoxInfo/ReadBoxInfo/SeekTo call",
      "All combinations of boundary sizes, offsets, forms (sparse files up to 2^63-1), every header of generated files, all reader habits." + COMMON)
claim("C02", "TLA+ transition system of the traversal; exhaustive model checking, every behaviour replayed; recorded traversals judged event by event",
      "Exhaustive handler behaviours on small files plus random files (TLC-generated trees) with random handler scripts, readers, gigabyte holes, starts from a box." + COMMON)
claim("C03", "TLA+ traversal system with error states (model-checked: broken structures reported, progress, termination); traces of mutated files judged event by event",
      "Every small value of every size field of nested boxes, truncations, size/offset mutations up to 2^64, extraction on the same files." + COMMON)
claim("C04", "TLA+ registry with context predicates and context derivation; TLC enumerates contexts and judges registry answers and traversal contexts",
      "All registered types and odd types in all 64 flag contexts (thorough; a quarter in quick), contexts of metadata-heavy generated files, user registrations over built-in ones." + COMMON)
claim("C05", "TLA+ extraction defined as the filter of the specified traversal; TLC judges every recorded ExtractBox(es)(WithPayload) call",
      "Path sets derived from each generated file with wildcards, duplicates, missing and empty paths, from the root or a parent." + COMMON)
claim("C12", "TLA+ definition of what a file says about its movie (on top of the specified traversal and extraction); TLC generates movies and judges every recorded Probe call",
      "Movies with tables pointing into generated media data, all orders, missing/duplicate/unknown-version boxes, damaged copies, gigabyte media data, all reader habits." + COMMON)
claim("C13", "TLA+ definition of a fragment's summary; TLC judges every recorded Probe call on fragmented files",
      "All combinations of the trun and tfhd flags in both versions with boundary values, generated fragments, damaged copies, offsets beyond 2^32." + COMMON)
claim("C14", "TLA+ search for IDR slices over sparse files; TLC judges every recorded FindIDRFrames call",
      "Generated NAL sequences with length sizes 1-4 (and 0, 5, 8), damaged lengths, unreadable data, chunks in any order, gigabyte NAL units, end to end from Probe." + COMMON)
claim("C15", "TLA+ exact 128-bit bitrate arithmetic and window system; TLC judges every recorded bitrate call",
      "Boundary and random sample and segment sequences, timescales up to 2^32-1, window lengths around partial sums." + COMMON)
claim("C16", "TLA+ definition of the text of every box value; TLC generates values and judges every recorded Stringify and StringifyWithIndent call",
      "Values of every supported type over versions, flags and contexts, including lists longer and shorter than their counters, UTF-8 edge cases, fixed-point rounding edges." + COMMON)
claim("C09", "TLA+ writer as a transition system on a sparse output; exhaustive model checking, every balanced behaviour replayed; recorded uses judged operation by operation",
      "Every balanced use of up to 5 (thorough 6) operations over all header forms, plus random uses (nesting, seeks, copies, marshalled boxes, outputs beyond 4 GiB)." + COMMON)
claim("C10", "TLA+ traversal system with a failing device (fault transitions) and outcome rule for every other operation; TLC judges recorded runs with a failure at each I/O call",
      "Every operation with the failure at every call (sampled beyond some hundreds), as error, partial transfer or early end of file; traversals that go on after a recovered failure judged event by event; results under nine reading habits compared." + COMMON)
claim("C21", "TLA+ interpretation of the mp4 tags and a bit reader/writer transition system; random declarations compiled into the driver and given to TLC, which generates values and judges every decode, encode and text",
      "80 random structures per run (quick; 500 thorough) over the whole tag language with overrides, about 2000 values of them and damaged payloads; 1500 (20000) random call sequences of the bit reader and writer; limits: no integers wider than 64 bits, no lists of lists or of pointers." + COMMON)
claim("C22", "TLA+ transition system of flags and brands (model-checked, every transition replayed) and table of getters; TLC generates values and judges every recorded history and getter call",
      "All transitions of a small universe of bits and brands; histories on values of every registered type with masks of 32 bits; every getter on values whose every field is distinct, in every version, at every index; box types as text, number and pattern." + COMMON)
claim("C11", "TLA+ outcome and cost model of every use (termination of the traversal model-checked); TLC-generated files, movies and payloads, damaged in every way, are used and TLC judges each recorded outcome and cost",
      "About 20 000 inputs per run (quick): payloads of every box type in its context with broken bytes and foreign payloads, scribbled and cut files and movies, small-alphabet and random bytes, arbitrary tracks; excluded: declared tables of billions of entries (memory)." + COMMON)
claim("C17", "TLA+ model of independent processes over a shared constant registry (AsAlone, Unchanged, progress model-checked); every interleaving TLC prints is imposed on the reader and writer calls of real operations, whose records TLC compares with the sequential ones and with the specifications of the single operations",
      "All 924+1680 interleavings (a sample of 1500 in quick) of 2-3 operations of random kinds at the granularity of their I/O calls; free-running batches from a cold start; the same mix under the race detector, each kind of box and operation first used concurrently; data races that need a schedule inside one operation are seen only through the race detector." + COMMON)
claim("C18", "TLA+ transition system of edit writing through the writer system, model-checked against the tree it should make and against the judge's definition; TLC judges every recorded run of mp4tool edit",
      "Exhaustive small trees x options (10 000 cases; a sample replayed in quick), generated movies, fragments and files with broken and gigabyte copies; comparisons run by run on sparse outputs." + COMMON)
claim("C19", "TLA+ transition system of divide over the boxes of a file, model-checked (partition, init segments, progress) against the judge's definition; TLC judges every recorded run of mp4tool divide: files and playlists",
      "Every sequence of up to 4 (thorough 5) boxes of nine kinds (a sample of 500 replayed in quick), generated fragmented movies of several tracks, damaged copies, boxes extending to the end." + COMMON)
claim("C20", "TLA+ definition of what extract, dump, psshdump and probe print, on top of the specified traversal, texts and movie summary; TLC judges every recorded run of mp4tool",
      "Generated files, movies and fragments, one box of every type, all options of dump, damaged copies, files up to 200 000 bytes of payload." + COMMON)
