"""What each property's check runs (harness, sanitizer variant, number of cases) and how its evidence is described."""
A = "asan"
PLAN = {}

def P(pid, runs, rule, technique, note, level="exploration", must=(), assumptions=()):
    PLAN[pid] = dict(runs=runs, rule=rule, technique=technique, note=note, level=level, must_observe=list(must), assumptions=list(assumptions))

def R(harness, variant=A, **kw):
    return dict(harness=harness, variant=variant, **kw)

COMMON = ["one finite sample of inputs per seed; gcc/clang sanitizer runtimes are trusted", "little-endian x86-64 Linux build"]

P("C01", [R("c01_roundtrip", cases_quick=16000, cases_thorough=400000)],
  "random documents (dimension sets, M, positions, pixel types, payload sizes around the block boundaries) written with random delivery variant, order and reservation; a case is non-trivial if a complete file was written and compared; distinct by the hash of the file",
  "model-based round-trip monitor under ASan/UBSan, with an independent container parser as second observer",
  "Every document generated is compared byte for byte through the reader and through an independent parser; held on the sampled documents.",
  must=["subblock-compared", "attachment-compared", "metadata-compared", "add-callback", "add-memptr", "add-strided", "add-linewise"], assumptions=COMMON)

P("C02", [R("c02_structure", cases_quick=12000, cases_thorough=300000)],
  "random documents written by the writer and random editing sessions of the reader-writer; each closed file is parsed by an independent validator (kinds, alignment, extent, overlap, padding, directory/segment agreement, chain walk); distinct by the hash of the closed file",
  "structural validator (offline checker over the produced file) after randomised writer runs and editing histories, under ASan/UBSan",
  "Every file left behind by a sampled history is validated segment by segment; held on all of them.",
  must=["writer-file-validated", "rw-file-validated", "segment-validated", "rw-replace-subblock-larger", "rw-replace-attachment-larger"], assumptions=COMMON)

P("C03", [R("c03_history", cases_quick=12000, cases_thorough=300000)],
  "random histories of add/replace/remove/read/reopen with a model of the expected state, compared after each step and through a reader after each close; distinct by the operation log",
  "model-based history monitor (state comparison after each operation and after re-opening), under ASan/UBSan",
  "Every state along the sampled histories equals the model.",
  must=["rw-full-compare", "reader-compare", "rw-replace-subblock-larger", "rw-replace-subblock-smaller", "rw-replace-attachment-larger", "rw-remove-subblock", "rw-remove-attachment", "existing-file", "new-file"], assumptions=COMMON)

P("C04", [R("c04_statistics", cases_quick=24000, cases_thorough=500000)],
  "random sub-block sets (dimensions, scenes, M, pyramid scales including the tolerance bands' neighbourhood) and random editing histories; statistics compared with a by-definition reference; distinct by the sub-block set and operation log",
  "reference recomputation of statistics from the model, after opening and after random edits, under ASan/UBSan",
  "Reported statistics equal the by-definition ones on every sampled set and history; scale factors within 10% of a tolerance boundary are not judged.",
  must=["reader-statistics", "rw-statistics", "stat-pyramid-compared", "reader-statistics-after-editing"], assumptions=COMMON)

P("C05", [R("c05_enumerate", cases_quick=16000, cases_thorough=300000)],
  "random documents, enumerated in full and by random subset queries (partial planes, regions touching and missing, layer-0 restriction, attachment type/name), with early termination and lookups of absent indices; distinct by document and query",
  "by-definition reference for enumeration, subset queries and lookups, under ASan/UBSan",
  "Every sampled query returned exactly the items satisfying the definition.",
  must=["reader", "reader-writer", "subset-nonempty", "att-subset-nonempty", "absent-looked-up"], assumptions=COMMON)

P("C06", [R("c06_codecs", cases_quick=14000, cases_thorough=200000)],
  "random bitmaps (pixel type, size incl. 1-pixel, stride, content from constant to noise) compressed with every codec/option/level/output-size variant and decoded; byte-packing helpers over random widths/heights/strides; distinct by pixel content and options",
  "encode/decode round-trip monitor with guarded exact-size buffers, under ASan/UBSan (JPEG-XR third-party C code: ASan)",
  "Every sampled bitmap decoded to the identical pixels, no write beyond the announced size.",
  must=["decoded-zstd0", "decoded-zstd1", "decoded-zstd1-hilo", "decoded-jxr", "too-small-refused"], assumptions=COMMON)

P("C07", [R("c07_decode", cases_quick=40000, cases_thorough=800000)],
  "sub-blocks with exact, short, long and mismatching payloads for each compression mode and resolution-protocol option; fresh memory is filled with a pattern, the result is compared with the documented protocol; distinct by payload and options",
  "reference decode with poisoned fresh memory (uninitialised-memory influence shows as difference), under ASan/UBSan",
  "Every sampled payload decoded to the pixels (or refusal) the protocol demands.",
  must=["decoded:raw-short", "decoded:zstd1hilo-exact", "decoded:zstd1hilo-short"], assumptions=COMMON)

P("C08", [R("c08_tiles", cases_quick=48000, cases_thorough=300000)],
  "random tile arrangements (dimensions, scenes, M, overlaps, pixel types, compressions, huge offsets), regions, planes, filters, backgrounds, options and destinations (new or caller bitmap of any stride), through reader and reader-writer, plus the bare compositor; every pixel is judged against the definition; distinct by result and request",
  "per-pixel reference composite with guarded caller bitmaps (padding and lock monitors), under ASan/UBSan",
  "Every pixel of every sampled composite equals the by-definition composite; invalid plane coordinates were refused without touching the destination. Tiles of equal M-index overlapping each other are judged as either one.",
  must=["composite-with-tiles", "composite-empty", "several-tiles", "invalid-plane-rejected", "compositor", "with-cache", "repo-rw"], assumptions=COMMON)

P("C09", [R("c09_pyramid", cases_quick=60000, cases_thorough=300000)],
  "random multi-resolution documents (factor 2/3/4, several layers mixed on the same plane), every layer incl. absent ones and the layer-0 identification, random regions, planes, options, destinations; every pixel is judged; distinct by result and request",
  "per-pixel reference composite of the requested layer and cross-check with the tile accessor on layer 0, under ASan/UBSan",
  "Every pixel of every sampled composite equals the composite of exactly the requested layer's tiles (tile positions aligned to the layer's pixel grid).",
  must=["layer0-tiles", "layer1-tiles", "layer2-tiles", "layer1-empty", "layer0-equals-tile-accessor"], assumptions=COMMON)

P("C10", [R("c10_scaling", cases_quick=12000, cases_thorough=150000)],
  "random (multi-resolution) documents with scenes, random regions, zooms in (0,1], filters, backgrounds and destinations; zoom 1 is judged exactly, other zooms by the set of admissible source pixels (distance at most one pixel) of the admissible tiles; distinct by result and request",
  "per-pixel reference with interval semantics for resampling, under ASan/UBSan",
  "Every pixel of every sampled result shows an admissible source pixel of an admissible tile, or the background where no tile is; zooms within 10% above a layer's zoom (documented tolerance) are not judged.",
  must=["zoom1", "from-layer0", "from-pyramid-layer", "scaled-with-tiles", "wrong-size-rejected", "invalid-plane-rejected"], assumptions=COMMON)

P("C11", [R("c11_masks", cases_quick=30000, cases_thorough=300000)],
  "documents whose tiles carry masks of any size, stride and content (beside other chunks), composed with all three accessors and the bare compositor with and without mask-awareness, cache and visibility check; masks decoded and compared bit by bit; malformed mask chunks of 13 kinds; distinct by result and request",
  "per-pixel reference composite with masks, bit-exact mask comparison, under ASan/UBSan",
  "Every mask decoded to its bits, every malformed one was rejected, every pixel of every mask-aware result equals the reference.",
  must=["mask-decoded", "tile-mask-aware", "pyramid-mask-aware", "scaling-mask-aware", "tile-plain", "compositor", "malformed:too few bits"], assumptions=COMMON)

P("C12", [R("c12_cache", cases_quick=16000, cases_thorough=300000), R("c12_cache", variant="tsan", env={"C12_ONLY_CONCURRENT": "1"}, cases_quick=4000, cases_thorough=60000)],
  "random sequences of add/overwrite/get/prune against a model with LRU order; concurrent sequences by 2-6 threads with tagged items; compositions with all accessors with and without a cache that is pruned in between; distinct by operation log or result",
  "model-based monitor of the cache (content, LRU order, accounts), concurrent invariant monitor under TSan and ASan, differential composition with/without cache",
  "Content, eviction order and accounts equalled the model after each operation of each sampled sequence; no data race, no foreign or torn entry in the concurrent runs; compositions with cache were identical to those without.",
  must=["overwrite", "prune-evicting", "get-present", "concurrent-hits", "transparency-compared", "cache-filled-by-accessor"], assumptions=COMMON)

P("C13", [R("c13_multichannel", cases_quick=20000, cases_thorough=300000)],
  "random sets of 1-6 channel bitmaps (Gray8/Gray16/Bgr24/Bgr48, any stride), weights, tinting, black/white points inside and outside [0,1], look-up tables, opaque/alpha destinations of any stride; invalid sets (mismatching sizes, null entries, unsupported pixel types, illegal tables); every pixel is judged; distinct by result and channel description",
  "per-pixel reference composite in double precision (tolerance of one rounding unit) with guarded caller bitmaps, under ASan/UBSan",
  "Every pixel of every sampled composite equals the by-definition blend within one unit; every invalid set was refused.",
  must=["weighted", "unweighted", "refused:null source", "channel:Gray16-lut-tinted", "channel:Bgr24-bw"], assumptions=COMMON)

P("C14", [R("c14_hostile", env={"ASAN_EXTRA": "max_allocation_size_mb=64:max_malloc_fill_size=0"}, cases_quick=24000, cases_thorough=1200000, stall=200)],
  "byte- and structure-aware mutations of valid documents (directory, segment headers, sizes, coordinates, payloads, metadata, attachments, masks; truncations; duplicated and self-referencing structures), and hostile XML/text/bitstreams handed to the parsers; each accepted document is read completely and edited; distinct by mutated bytes",
  "ASan/UBSan/leak detection with bounded allocations, and a progress monitor for hangs, while the whole read/edit API is applied to hostile input",
  "No memory error, undefined behaviour, leak, foreign exception or hang on any sampled hostile input. Interior of invalid JPEG-XR streams is excluded.",
  must=["opened", "open-refused", "edit-opened", "bitmap-created", "composition", "metadata-valid", "mask-decoded"], assumptions=COMMON)

P("C15", [R("c15_faults", cases_quick=8000, cases_thorough=60000)],
  "random reading, writing and editing workloads; for each, up to 40 fault positions over all its reads and writes (failing or transferring fewer bytes, once or twice in a row), with failed operations repeated or given up; distinct by file content and fault",
  "fault injection at every stream transfer with differential comparison to the fault-free run and to a model of the completed operations, under ASan/UBSan",
  "Every injected fault was reported by the operation it hit (or had no effect on the result), repeating succeeded with the fault-free result, and the finished file contained exactly the completed items.",
  must=["read-faults", "write-faults", "edit-faults", "fault-reported-read", "fault-reported-read-short", "fault-reported-write", "fault-reported-write-short", "gave-up-adding"], assumptions=COMMON)

P("C16", [R("c16_refusals", cases_quick=20000, cases_thorough=400000)],
  "random mixes of valid and invalid requests (14 kinds) to the writer under random declared bounds (incl. extreme ones) and to the reader-writer on existing documents, plus calls on objects not open; distinct by resulting file",
  "decision oracle for accept/refuse, byte comparison with the document made without the refused requests, model comparison after each refusal, under ASan/UBSan",
  "Every sampled invalid request was refused, every valid one accepted, and refused requests left no trace.",
  must=["refused:coordinate-out-of-bounds", "refused:dimension-missing", "refused:dimension-unexpected", "refused:m-out-of-bounds", "refused:m-out-of-bounds-without-dim-bounds", "refused:duplicate", "refused:duplicate attachment", "accepted", "rw-accepted", "rw-refused:duplicate sub-block", "rw-refused:replace: no data function", "reader-lifecycle", "bytes-compared"], assumptions=COMMON)

P("C17", [R("c17_threads", variant="tsan", cases_quick=3000, cases_thorough=60000)]
  + [R("c17_threads", variant="tsan", cases_quick=16, cases_thorough=16, seed_add=1000 + k) for k in range(6)]
  + [R("c17_threads", cases_quick=400, cases_thorough=8000, seed_add=77)],
  "2..6 threads run random operations (27 kinds) on one reader, its sub-blocks, bitmaps, metadata, accessors and a shared cache, some with a concurrent Close, some on independent objects, on a stream without synchronisation of its own and on the library's streams; many fresh processes race the first use; distinct by the order in which the threads' operations started",
  "ThreadSanitizer (and ASan) on concurrent workloads; every result is compared afterwards with a single-threaded run on a fresh reader",
  "No data race was reported on the schedules seen and every result equalled the single-threaded one.",
  must=["ops-compared", "thread-switches", "cold-start", "case-close", "case-independent", "concurrent-writes", "op:tile-accessor", "op:zstd", "op:jxr"], assumptions=COMMON + ["zstd itself (system library) is not instrumented by the race detector"])

P("C18", [R("c18_bitonal", cases_quick=160000, cases_thorough=4000000)],
  "random bitonal bitmaps (any width/height/stride, exactly sized memory, noise in padding), sequences of get/set/fill/set-all with regions inside, partly and far outside, decimation with all region sizes, masked and plain copies with conversion, nearest-neighbour resizing (whole and region to region), filling, MD5, rectangle arithmetic up to the integer limits; inconsistent arguments; distinct by resulting content",
  "bit-by-bit / pixel-by-pixel reference by definition, padding and lock accounting of caller bitmaps, under ASan/UBSan",
  "Every bit and pixel equalled the definition on every sampled input; nothing outside the rows was touched.",
  must=["fill", "set", "get", "set-all", "outside-refused", "lock-info-refused", "copy-masked", "copy", "resize-full", "resize-roi", "fill-bitmap", "md5", "rect-intersect"] + ["decimate-region-%d" % k for k in range(8)], assumptions=COMMON)

P("C19", [R("c19_text", cases_quick=100000, cases_thorough=2000000)],
  "random coordinates, bounds and index sets with values up to the integer limits, formatted and parsed; texts of the documented grammars in all their variations and mutations of them; histories of set/clear on coordinate and bounds objects; enumeration of bounds; compression-option strings (valid and invalid); UTF-8 conversion; distinct by text",
  "independent reference parsers (three-valued: must accept / must refuse / not judged) and map models, under ASan/UBSan",
  "Every sampled text was accepted or refused as documented, with the documented value; every object equalled its map model after each operation.",
  must=["coordinate-roundtrip", "coordinate-valid-text", "coordinate-invalid-text", "bounds-valid-text", "bounds-invalid-text", "index-set-valid", "index-set-invalid", "options-valid", "options-invalid", "object-histories", "compared", "enumerated", "enumeration-cancelled", "utf8"], assumptions=COMMON)

P("C24", [R("c24_frames", cases_quick=60000, cases_thorough=300000)],
  "random documents (negative and large origins, several pyramid layers, without layer 0) opened by reader (also re-opened with another default) and reader-writer with each default frame; points and rectangles up to the integer limits between all frames; regions given in each frame to all overloads of the three accessors; the origin while tiles are added, removed and replaced; distinct by request and result",
  "reference transform in 64-bit arithmetic, inverse check, differential composition between frames plus per-pixel reference, under ASan/UBSan",
  "Every sampled transform shifted by exactly the layer-0 origin (or was refused when not representable); every composition was identical in each frame.",
  must=["transform:pixel-raw", "transform:raw-pixel", "unrepresentable-refused", "invalid-frame-refused", "edit-add", "edit-remove", "edit-replace", "reopened", "accessor:tile-pixel", "accessor:pyramid-pixel", "accessor:scaling-pixel"], assumptions=COMMON)

P("C23", [R("c23_display", cases_quick=120000, cases_thorough=1200000)],
  "random gamma values and strictly increasing spline points, black/white points inside, outside, next to each other and far away, tables of 1..65536 entries; random display settings (all modes, full-precision numbers) written by each overload into fresh and used metadata, read back, cloned, written again, stored in files; hand-written XML with fields missing and in any order; the display-settings helper; distinct by table content and XML",
  "reference curves by definition (natural cubic spline, power function, toe-slope formula) in double precision, value-by-value comparison through XML, under ASan/UBSan",
  "Every table entry was within one level of the curve (20 of 65535 for 16-bit tables with gamma < 1, which are computed in single precision), and every setting came back unchanged.",
  must=["gamma", "gamma-toe", "spline", "lut-inside", "lut-outside", "single-entry", "round-trip", "hand-written", "helper-lut", "through-file", "overwritten", "coerced", "channel-gamma", "channel-spline", "channel-linear"], assumptions=COMMON)

P("C20", [R("c20_metadata", cases_quick=5600, cases_thorough=120000)],
  "histories of builder operations (paths with indices and attribute selectors, values of every type, attributes, removal, refused operations) on fresh and parsed documents, serialised in every mode, stored through writer or reader-writer and read again; hand-written documents with every structured field present or absent, in any order, with entities, CDATA and comments; the metadata writers (general, scaling, T and Z axes, channels, custom key/values, statistics); metadata prepared by the writer; metadata of sub-blocks; dates; distinct by document",
  "tree model of the document compared node by node (reader, re-parsed builder, path look-ups), reference values for every structured field, under ASan/UBSan",
  "Every sampled document read back equal to the model, and every structured field equalled what the XML says.",
  must=["builder-history", "builder-from-xml", "via-file", "via-rw", "value", "attribute", "path-found", "path-absent", "set-refused", "bad-path", "structured-document", "field", "channel", "spectrum", "scaling", "written-document", "prepared", "prepared-channel", "custom-key", "date", "date-invalid", "subblock-tag", "stage-position"], assumptions=COMMON)

P("C21", [R("c21_capi", cases_quick=9000, cases_thorough=200000), R("c21_capi", variant="tsan", cases_quick=2400, cases_thorough=50000, env={"C21_THREADS": "1"})],
  "random sessions of 20-150 calls through the C API over generated documents (valid and truncated), each object shadowed by the same object of the C++ API on the same bytes; whole writer sessions with every parameter; null, stale, foreign and invented handles for every function; null for every required pointer; faults in the caller's streams and failing allocations; many threads on one reader handle; distinct by bitmaps and files compared",
  "differential monitor (C API against C++ API: result code, every out-parameter, JSON value by value, pixels, written bytes), life-time automaton of the caller's streams (closed exactly once, never used afterwards, open as long as an object needs it), race detector, ASan/UBSan/LSan",
  "Every call agreed with the C++ API or was refused where it has to be; no exception crossed the boundary; every caller stream was closed exactly once.",
  must=["sessions", "json-values", "bitmaps-compared", "files-written", "bad-handle-calls", "null-calls", "allocation-failed", "stream-faults", "stale-handles", "foreign-handles", "release-refused", "unlock-refused", "thread-operations"], assumptions=COMMON)

P("C22", [R("c22_streams", cases_quick=48000, cases_thorough=1000000), R("c22_streams", variant="tsan", cases_quick=6000, cases_thorough=100000, env={"VERIF_THREADS_ONLY": "1"})],
  "histories of reads and writes at arbitrary offsets (also beyond 4 GB) on every kind of built-in stream; short transfers, interruptions and errors injected into pread/pwrite; a file-size limit, /dev/full, directories and missing files; memory and attachment streams; an http server on the loopback device with and without range support, error pages, redirects, cut connections and chunked transfer; many threads on one stream; distinct by operation and content",
  "byte-exact shadow of the file compared after every operation and at the end (through independent system calls), directory listing, race detector, ASan/UBSan",
  "Every read returned exactly the bytes of the shadow or was refused where it has to be; every write stored exactly its bytes; no injected error was reported as success.",
  must=["file-history", "write", "read-full", "read-short", "read-at-end", "write-beyond-4GB", "read-beyond-4GB", "memory", "attachment-stream", "opening", "existing-refused", "missing-refused", "directory-refused", "file-limit", "threads"], assumptions=COMMON)

P("C25", [R("c25_resources", cases_quick=24000, cases_thorough=400000)],
  "sessions on readers (raw data, bitmaps, attachments, metadata, all accessors, caches, compositors, codecs with own buffers, damaged files), writers and reader-writers, on memory and file streams, each repeated with a fault at a random point (read, write, bitmap creation, decoder, allocation, callback of the caller); objects kept beyond their reader; distinct by session and fault",
  "online monitors: heap balance (malloc/free hooks, repeated sessions), descriptor balance, lock counters of bitmaps whose memory is inaccessible while unlocked, content of kept objects; LeakSanitizer/ASan/UBSan",
  "After every session, failed or not, heap, descriptors and lock counts were balanced and all kept objects unchanged (leaks after a failing operator new are not judged).",
  must=["scenario-reader", "scenario-writer", "scenario-reader-writer", "delivered-read", "delivered-write", "delivered-bitmap", "delivered-decoder", "delivered-allocation", "delivered-callback", "kept", "temp-buffers"], assumptions=COMMON)

P("C26", [R("c26_foreign", cases_quick=24000, cases_thorough=400000)],
  "files composed byte by byte from random documents: segments in any order with gaps and slack, sparse files of several GB, other file versions, letters in either case, dimensions in any order; entries with one deviation from the specification; one deviation between directory and segment (each attribute, either direction); each opened with every combination of the options",
  "reference content from the generator compared item by item (information, payload, metadata, attachments, header), exact prediction of which sub-block is refused with which error under which option, under ASan/UBSan",
  "Every conforming file was read completely, every deviation was refused or resolved exactly as the options say.",
  must=["conforming-read", "huge-file", "discrepancy-reported", "header-precedence", "directory-precedence", "opened-after-refusal", "refused: size of a dimension", "refused: size of M, pyramid", "accepted: size of M, pyramid", "refused: X or Y missing"], assumptions=COMMON)
