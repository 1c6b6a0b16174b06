import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=["Src/libCZI/"+f if "/" not in f or f.startswith("StreamsLib") else f for f in files],
                   mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)

p("C01","Writer round trip: whatever is written is what a reader gets back",
 "For every document handed to the CZI writer (sub-blocks with any coordinates, M-index, positions, sizes, pixel types and compression tags; metadata XML; attachments; any of the ways to supply the payload; any option for size reservation, duplicates and bounds), closing the writer and opening the result with the reader yields exactly the same set of sub-blocks (descriptive information, pixel payload, sub-block metadata and sub-block attachment byte for byte), the same XML and the same attachments - nothing lost, added or altered.",
 ["inputs","configurations"],"all documents, all payload-delivery variants (callback with arbitrary chunking, memory, strided, line-wise), all writer options",
 "The tests write a handful of fixed documents; offsets, paddings, sorting and chunking depend on combinations of sizes, counts and options which they do not sample.",
 ["CziWriter.cpp","CziWriter.h","CziSubBlockDirectory.cpp","CziAttachmentsDirectory.cpp","CziUtils.cpp","CZIReader.cpp","CziParse.cpp","libCZI_Write.h"],
 [("write of sub-blocks, attachments, metadata","CziWriter.cpp: CWriterUtils, CCziWriter"),("payload delivery variants","libCZI_Write.h / CziWriter.cpp: AddSubBlockHelper"),("parsing","CziParse.cpp: ReadSubBlock, ReadSubBlockDirectory, ReadAttachment, ReadMetadataSegment")],["IOutputStream/IStream bytes","ICZIReader results"])

p("C02","Files produced by writer and reader-writer are structurally sound",
 "Every file left behind by a closed writer or reader-writer is a well-formed CZI container: the header's directory/metadata pointers lead to segments of the right kind; every directory entry leads to exactly one live segment whose embedded entry agrees with it; no two live segments overlap; every segment is 32-byte granular, lies inside the file, has UsedSize <= AllocatedSize covering its contents, unused bytes of newly allocated segments are zero; and the segment chain from offset 0 can be walked over all live segments.",
 ["inputs","histories","configurations"],"all documents and edit histories, all reservation options",
 "The unit tests read files back through the same library, so that a misplaced or overlapping segment is only seen if it happens to destroy what the test reads; they do not look at the container with an independent parser.",
 ["CziWriter.cpp","CziReaderWriter.cpp","CziStructs.h","FileHeaderSegmentData.h"],
 [("segment placement and size bookkeeping","CziWriter.cpp: CWriterUtils::Write*; CziReaderWriter.cpp: Finish, nextSegmentInfo")],["bytes of the output stream"])

p("C03","In-place editing equals the edit history applied to a model",
 "For every history of adding, replacing and removing sub-blocks and attachments, replacing the metadata, reading back, closing and re-opening on an existing or new file, the reader-writer shows at each moment - and any reader of the closed file shows afterwards - exactly the state a simple in-memory model of that history predicts; items which were not edited keep their information and content byte for byte.",
 ["histories","inputs"],"all sequences of editing operations and reopen points on all initial documents",
 "The tests perform one or two fixed operations on one small file; the state machine of the appended position, in-place-or-append decisions and directory rewrite is only exercised by longer mixed histories.",
 ["CziReaderWriter.cpp","CziReaderWriter.h","CziSubBlockDirectory.cpp","CziAttachmentsDirectory.cpp"],
 [("edit operations","CziReaderWriter.cpp: Sync*/Replace*/Remove*"),("final directory write-out","CziReaderWriter.cpp: Finish"),("in-memory directories","CReaderWriterCziSubBlockDirectory, CReaderWriterCziAttachmentsDirectory")],["ICziReaderWriter results","reopened file"])

p("C04","Sub-block statistics and pyramid statistics match the sub-blocks present",
 "The statistics reported for a document (count, M-index range, bounding boxes of all / layer-0 sub-blocks, per-dimension bounds, per-scene bounding boxes, and the per-scene pyramid-layer counts) always equal what is computed by definition from the set of sub-blocks currently in the document - for the reader and, after any sequence of edits, for the reader-writer.",
 ["inputs","histories"],"all sets of sub-blocks, all edit histories",
 "The tests compare statistics of a few fixed lists; incremental update, invalidation on remove/replace and consolidation depend on the history.",
 ["CziSubBlockDirectory.cpp","CziSubBlockDirectory.h","libCZI_Utilities.cpp"],
 [("incremental statistics","CziSubBlockDirectory.cpp: CSbBlkStatisticsUpdater"),("invalidate on modification","CReaderWriterCziSubBlockDirectory::TryModifySubBlock/TryRemoveSubBlock")],["ISubBlockRepository::GetStatistics/GetPyramidStatistics"])

p("C05","Enumeration and lookup agree with the content of the document",
 "Enumerating sub-blocks or attachments reports every item exactly once with its true attributes and an index under which reading returns that item; subset enumeration (plane coordinate, region, layer-0 restriction; attachment type and name) reports exactly the items satisfying the predicate by definition; early termination is honoured; looking up an index or key that does not exist reports absence and nothing else.",
 ["inputs"],"all documents, all queries",
 "The tests use a few queries on a few documents.",
 ["CZIReader.cpp","CziReaderCommon.cpp","CziUtils.cpp","CziSubBlockDirectory.cpp","CziAttachmentsDirectory.cpp","CziReaderWriter.cpp","IndexSet.cpp","libCZI_Utilities.cpp"],
 [("subset predicate","CziReaderCommon.cpp: EnumSubset; CziUtils.cpp: CompareCoordinate"),("lookup by index","TryGetSubBlockInfo, ReadSubBlock, ReadAttachment, TryGetSubBlockInfoOfArbitrarySubBlockInChannel")],["ISubBlockRepository / IAttachmentRepository results"])

p("C06","Lossless codecs are lossless and bounded",
 "For every bitmap, pixel type, stride and option, compressing with zstd (plain or with header, with or without hi-lo byte packing, any level) or with lossless JPEG-XR and decoding the result returns the identical pixels; compression never writes beyond the size it was given or announced, and reports failure instead when the output does not fit; the byte-packing helpers are exact inverses of each other for every width, height and stride.",
 ["inputs","configurations"],"all bitmaps, strides, options, destination sizes",
 "The tests use a few fixed bitmap sizes and mostly tightly packed strides.",
 ["zstdCompress.cpp","decoder_zstd.cpp","utilities_simd.cpp","utilities.cpp","jxrlibcompress.cpp","decoder.cpp","libCZI_compress.h"],
 [("compression","zstdCompress.cpp, jxrlibcompress.cpp"),("decompression","decoder_zstd.cpp, decoder.cpp"),("hi-lo packing incl. SIMD","utilities_simd.cpp / utilities.cpp LoHiBytePack*")],["compressed memory blocks","decoded bitmaps"])

p("C07","Decoding a sub-block yields exactly the stored pixels and geometry",
 "Creating a bitmap from a sub-block yields a bitmap of the sub-block's stored pixel type and stored size whose pixels are the stored ones, for uncompressed, zstd0, zstd1 and lossless JPEG-XR payloads; when an uncompressed or zstd payload is shorter or longer than the size implies, the documented resolution protocol (or the requested strictness) decides between exception and zero-filled/cropped result, always deterministically and never exposing uninitialised memory.",
 ["inputs","configurations"],"all payloads incl. wrong-sized ones, all resolution options",
 "The tests cover selected size mismatches and pixel types.",
 ["CreateBitmap.cpp","decoder_zstd.cpp","decoder.cpp","bitmapData.h","CziSubBlock.cpp"],
 [("decode dispatch and size checks","CreateBitmap.cpp"),("size mismatch handling","decoder_zstd.cpp: DecodeAndHandleSizeMismatch*")],["ISubBlock::CreateBitmap"])

p("C08","Single-channel tile composition equals the reference composite",
 "For every arrangement of layer-0 tiles, region of interest, plane, index/scene filter, output pixel type, background and sort option, the single-channel tile accessor's result shows in every pixel the content (pixel type converted) of the topmost tile covering it in M-order, otherwise the requested background; tiles outside the region or filtered out have no influence, the returned bitmap has exactly the requested size and the same result is written into a caller-provided bitmap of any stride without touching bytes outside its rows; invalid plane coordinates are rejected.",
 ["inputs","configurations"],"all tile arrangements, regions and options",
 "The tests compare a few fixed mosaics against golden hashes.",
 ["SingleChannelTileAccessor.cpp","SingleChannelAccessorBase.cpp","SingleChannelTileCompositor.cpp","BitmapOperations.cpp","BitmapOperations.hpp"],
 [("tile selection and M-sort","SingleChannelTileAccessor.cpp, SingleChannelAccessorBase.cpp"),("clipped copy with conversion","SingleChannelTileCompositor.cpp, BitmapOperations.cpp CopyWithOffset")],["accessor output bitmap"])

p("C09","Pyramid-layer composition picks only its layer and composes it correctly",
 "For every multi-resolution document, minification factor and layer number, the pyramid-layer accessor composes exactly the tiles of that layer (tiles of other layers have no influence), at the size ROI divided by the layer's scale, in M-order over the requested background, and layer 0 agrees with the plain tile accessor; requests for layers without tiles yield pure background.",
 ["inputs","configurations"],"all pyramid documents, regions, layer selections and options",
 "The tests use one or two fixed pyramids.",
 ["SingleChannelPyramidLevelTileAccessor.cpp","SingleChannelAccessorBase.cpp","SingleChannelTileCompositor.cpp"],
 [("layer determination","SingleChannelPyramidLevelTileAccessor.cpp: CalcPyramidLayerNo"),("composition","SingleChannelTileCompositor.cpp")],["accessor output bitmap"])

p("C10","Scaled composition shows the right tiles at the right place",
 "For every document, region, zoom (0 < zoom <= 1), scene filter and background, the scaling tile accessor's result has exactly the announced size; at zoom 1 it equals the plain tile composite; at any zoom every pixel safely inside a region shows the value of the topmost tile there from the best suited pyramid layer, pixels with no tile show the background, and nothing outside the requested scenes and plane has any influence.",
 ["inputs","configurations"],"all documents, regions, zooms and options",
 "The tests use a handful of zooms on fixed documents.",
 ["SingleChannelScalingTileAccessor.cpp","SingleChannelAccessorBase.cpp","BitmapOperations.cpp"],
 [("sub-block set determination and pyramid choice","SingleChannelScalingTileAccessor.cpp"),("nearest-neighbour scaling","BitmapOperations.cpp NNResize")],["accessor output bitmap"])

p("C11","Mask-aware composition honours the validity masks",
 "A validity mask stored with a sub-block is decoded to exactly the stored bits (any size and stride; masks which are malformed are rejected, never read out of bounds), and with mask-aware composition enabled a tile contributes exactly those pixels its mask marks valid (pixels outside the mask's extent count as invalid), lower tiles or the background showing elsewhere - irrespective of the visibility-check optimisation, the sub-block cache and the accessor used; without mask-awareness masks have no influence.",
 ["inputs","configurations"],"all tile arrangements, masks, regions and options",
 "The tests contain a few fixed masks on two overlapping tiles.",
 ["SubblockAttachmentAccessor.cpp","SingleChannelAccessorBase.cpp","SingleChannelTileAccessor.cpp","SingleChannelScalingTileAccessor.cpp","BitmapOperationsBitonal.cpp"],
 [("mask parsing","SubblockAttachmentAccessor.cpp"),("masked copy","BitmapOperations.cpp CopyWithOffset with mask / NNScale mask")],["accessor output bitmap"])

p("C12","The sub-block cache is transparent and keeps its accounts",
 "Using the sub-block cache never changes any composition result; an accessor given a cache reads only the sub-blocks which are not in it, and afterwards the cache holds all those it used (with the 'only compressed' option: the compressed ones of them); an entry returned for an index is the last one stored for it; the reported element count and memory usage always equal the sum over the entries actually held, under any sequence of add, overwrite, get and prune from any number of threads; pruning respects both limits, evicts least-recently-used entries first and never invalidates a bitmap still held by a client.",
 ["histories","schedules"],"all operation sequences and interleavings",
 "The tests run short fixed sequences in one thread.",
 ["subblock_cache.cpp","subblock_cache.h"],
 [("LRU cache with accounting","subblock_cache.cpp")],["ISubBlockCache results","accessor output with/without cache"])

p("C13","Multi-channel composition computes the documented colour formula",
 "For every number of channels, pixel types, strides, weights, tinting colours, black/white points and look-up tables, the multi-channel composition result equals (within one grey level of rounding) the documented per-pixel formula and, for Bgra output, the requested alpha; it is written to every pixel of the destination, and inputs are not modified.",
 ["inputs","configurations"],"all bitmaps and channel settings",
 "The tests check a few constant-colour bitmaps.",
 ["MultiChannelCompositor.cpp","MultiChannelCompositor.h","libCZI_Compositor.h"],
 [("per-pixel kernels","MultiChannelCompositor.cpp")],["destination bitmap"])

p("C14","Corrupt or hostile files never cause memory errors, aborts or hangs",
 "Whatever bytes a file contains, opening it and reading everything reachable (sub-blocks, bitmaps other than the interior of JPEG-XR streams, metadata, attachments, masks, statistics, compositions) or opening it for editing either succeeds or throws an exception derived from std::exception: no out-of-bounds or uninitialised access, no undefined behaviour, no crash, no endless loop, and the outcome does not depend on the content of uninitialised memory.",
 ["inputs"],"all byte strings as file content (explored as structure-aware mutations of valid files)",
 "No test feeds malformed files beyond a few hand-made ones.",
 ["CziParse.cpp","CziSubBlock.cpp","CreateBitmap.cpp","CziMetadataSegment.cpp","CziAttachment.cpp","decoder_zstd.cpp","SubblockAttachmentAccessor.cpp","CziReaderWriter.cpp"],
 [("validation while parsing","CziParse.cpp"),("payload size checks","CreateBitmap.cpp, decoder_zstd.cpp")],["ASan/UBSan reports","results"])

p("C15","I/O faults surface as errors and do not corrupt what was completed",
 "If any single read or write of the underlying stream fails or transfers fewer bytes than asked, the operation in progress reports an exception - it never returns data that differ from the fault-free ones; the reader, writer or reader-writer object stays usable: repeating the operation after the fault succeeds with the fault-free result, and a file finished after a failed add contains exactly the items whose addition succeeded (two documented exceptions: a reader-writer regards a stream too short for a file header as a new file, and a removal which reported an error may already have taken effect).",
 ["fault_sequences","inputs"],"every fault position (each read and each write of a workload), failing or short, one-shot",
 "The tests use streams which never fail.",
 ["CziParse.cpp","CZIReader.cpp","CziWriter.cpp","CziReaderWriter.cpp"],
 [("error propagation and state update order","CziWriter.cpp Sync*, CziReaderWriter.cpp Sync*/Replace*"),("short transfer checks","CziParse.cpp, CWriterUtils::CheckBytesWritten")],["IStream faults vs. results"])

p("C16","Invalid write requests are refused without damage",
 "A request the writer or reader-writer must refuse (coordinate, dimension set or M-index outside the declared bounds, duplicate sub-block or attachment, missing data pointer or function, negative size, invalid index, second creation, operation before creation or after closing, data source failing while a new item is added) is refused with an exception and has no effect: the document finished afterwards is exactly the one without the refused requests; conversely, a valid request within the declared bounds is never refused. A reader opened again shows exactly the newly opened document. (After Close, the reader-writer stays operational by design; M-indices equal to INT_MIN/INT_MAX mean 'no M-index'.)",
 ["histories","configurations"],"all mixes of valid and invalid requests under all declared bounds",
 "The tests check single refusals, not that the resulting file is unaffected.",
 ["CziWriter.cpp","CziReaderWriter.cpp","CziSubBlockDirectory.cpp","CziAttachmentsDirectory.cpp"],
 [("bounds check","CCziWriter::CheckCoordinate/ThrowIfCoordinateIsOutOfBounds"),("duplicate check","CWriterCziSubBlockDirectory::TryAddSubBlock, CWriterCziAttachmentsDirectory")],["exceptions","final file"])

p("C17","Concurrent reading and composing is race-free and deterministic",
 "Any number of threads may use one reader (reading sub-blocks, attachments, metadata, statistics, enumerating), its accessors, a shared sub-block cache, decoded bitmaps, the parsed metadata and the library's streams concurrently, and may use independent objects (readers, codecs, builders) in parallel, also for the very first use in a process: there is no data race and every call returns exactly what it returns in a single-threaded run. Closing the reader meanwhile makes later operations fail, while those already under way complete correctly or fail with an exception.",
 ["schedules"],"all interleavings of read-only client operations",
 "The tests are single-threaded.",
 ["CZIReader.cpp","subblock_cache.cpp","StreamImpl.cpp","CziSubBlockDirectory.cpp","utilities_simd.cpp","libCZI_Site.cpp","decoder.cpp","StreamsLib/preadfileinputstream.cpp"],
 [("stateless reading","CZIReader.cpp, CziParse.cpp"),("locks","subblock_cache.cpp, StreamImpl.cpp, CziSubBlock.cpp")],["TSan reports","results per thread"])

p("C18","Bitonal bitmap and pixel utilities are exact and stay in bounds",
 "For every size, stride and clipping situation, the public bitonal-bitmap operations (get, set, fill, set-all, copy/clone, decimate) and pixel utilities compute exactly their definition bit by bit and never touch memory outside the bitmap rows.",
 ["inputs"],"all sizes, strides, rectangles, bit patterns",
 "The tests check a few small hand-written bit patterns.",
 ["BitmapOperationsBitonal.cpp","BitmapOperationsBitonal.h","BitmapOperations.cpp","libCZI_Pixels.cpp","libCZI_Pixels.h"],
 [("bit-addressed operations","BitmapOperationsBitonal.cpp")],["destination bitmap"])

p("C19","Text forms of coordinates, index sets and options round trip",
 "Formatting a coordinate or (non-empty) dimension bounds and parsing the text again yields an equal object; parsing accepts exactly the documented grammar with the documented meaning and rejects everything else without altering the target; membership in an index set is exactly the union of its intervals; setting, clearing, comparing and querying coordinate/bounds objects behave like a map from dimension to value, and enumerating the coordinates of bounds visits each exactly once; compression-option strings are parsed to exactly the stated options; wide strings are converted to their UTF-8 encoding.",
 ["inputs"],"all strings, coordinates, bounds and index sets",
 "The tests contain example strings only.",
 ["DimCoordinate.cpp","libCZI_DimCoordinate.h","IndexSet.cpp","libCZI_Utilities.cpp","utilities.cpp"],
 [("parser/formatter","DimCoordinate.cpp, IndexSet.cpp, libCZI_Utilities.cpp: ParseCompressionOptions")],["API results"])

p("C20","Metadata written through the builder reads back unchanged",
 "Whatever is written through the metadata builder (arbitrary node paths with attribute selectors and indices, values, attributes, prepared scaling/general/channel information) is found by the metadata reader at the same path with the same value after serialising to XML, storing it in a file and parsing again, for any Unicode text that is not merely white space (line ends as XML normalises them) and any selector value without the characters that structure a path; and structured information (scaling, general document info, dimension and channel info, tags and stage position of a sub-block) read from XML equals what the XML says.",
 ["inputs","histories"],"all sequences of builder operations and values",
 "The tests check fixed documents.",
 ["CziMetadataBuilder.cpp","CziMetadata.cpp","XmlNodeWrapper.h","CziMetadataDocumentInfo.cpp","CziMetadataDocumentInfo2.cpp","CziDimensionInfo.cpp","CziDisplaySettings.cpp"],
 [("node path navigation","CziMetadataBuilder.cpp, XmlNodeWrapper.h"),("structured readers","CziMetadataDocumentInfo2.cpp")],["IXmlNodeRead/IXmlNodeRw results"])

p("C21","The C API gives the same answers as the C++ API and is handle-safe",
 "Every result obtained through the C API (file info, statistics, sub-block info and data, bitmaps, attachments, metadata, scaling compositions, writing) equals the one of the C++ API for the same file; every object created is destroyed by exactly one release, calls with null, stale or foreign handles or null pointers return an error code, and no failure inside the library crosses the C boundary as an exception, leak or crash.",
 ["histories","inputs","configurations"],"all sequences of C-API calls on all documents",
 "The C-API tests make a few calls on small files.",
 ["Src/libCZIAPI/src/libCZIApi.cpp","Src/libCZIAPI/inc/misc_types.h","Src/libCZIAPI/src/parameterhelpers.cpp"],
 [("handle magic/shared wrapper","Src/libCZIAPI/src/sharedptrwrapper.h"),("exception translation","libCZIApi.cpp")],["return codes and out parameters","ASan/LSan"])

p("C22","The built-in streams return and store exactly the requested bytes",
 "For every sequence of reads and writes at arbitrary offsets and sizes, the built-in file, memory and HTTP streams return exactly the bytes that are in the file, report the number of bytes transferred truthfully (short only at the end of the data), report an error of the operating system or server as an error, and never read or write elsewhere; reads of one stream by many threads do not disturb each other.",
 ["histories","inputs"],"all operation sequences",
 "The tests read a few ranges.",
 ["StreamImpl.cpp","StreamsLib/preadfileinputstream.cpp","StreamsLib/simplefileinputstream.cpp","StreamsLib/streamsFactory.cpp"],
 [("seek + read/write or pread/pwrite","StreamImpl.cpp, StreamsLib/*")],["stream results vs. shadow copy"])

p("C23","Display settings and gradation curves are evaluated faithfully",
 "Display settings parsed from or written to XML keep every channel's enabled state, weight, tint, black/white point, gamma and spline points; look-up tables created from gamma or splines are monotonic where the curve is, map the black and white points to the ends of the output range, clip outside, and equal the curve's definition at every entry within one level.",
 ["inputs","configurations"],"all channel settings",
 "The tests check a few curves.",
 ["CziDisplaySettings.cpp","splines.cpp","libCZI_Utilities.cpp"],
 [("LUT creation","libCZI_Utilities.cpp Create8BitLookUpTableFrom*"),("spline fit","splines.cpp"),("XML (de)serialisation","CziDisplaySettings.cpp")],["look-up tables","IDisplaySettings"])

p("C24","Frame-of-reference transforms are consistent",
 "Transforming points and rectangles between the raw sub-block coordinate system and the pixel coordinate system shifts by exactly the upper-left corner of the layer-0 bounding box, is invertible, treats the default frame as configured, and region arguments given in either frame select the same pixels in every accessor.",
 ["inputs","configurations"],"all documents (incl. negative origins), all rectangles and frames",
 "The tests check one or two documents.",
 ["CZIReader.cpp","SingleChannelAccessorBase.cpp"],
 [("transform","CZIReader.cpp: TransformPoint/TransformRectangle, GetDefaultFrameOfReference")],["transform results","accessor output"])

p("C25","Resources are released and bitmaps stay locked only while in use",
 "After any sequence of operations, including ones ended by exceptions, closing and releasing all objects returns every allocation made through the library, closes every file it opened, leaves every caller bitmap with balanced lock/unlock counts, and objects handed out earlier (sub-blocks, bitmaps, metadata, attachments, memory blocks) remain valid after the reader they came from is gone.",
 ["histories","fault_sequences"],"all operation histories incl. failing ones",
 "The tests do not track allocations, locks and descriptors.",
 ["CziSubBlock.cpp","bitmapData.h","CZIReader.cpp","SingleChannelTileCompositor.cpp","MultiChannelCompositor.cpp","StreamImpl.cpp"],
 [("RAII and shared ownership","throughout")],["LeakSanitizer","lock counters of caller bitmaps","/proc/self/fd"])
p("C26","Files of any origin are read as the format and the open options say",
 "A file which follows the CZI format is opened and read completely whichever program laid it out: segments in any order, with any allocated size and gaps between them, at any position (beyond 4 GB too), with any file version, dimensions in any order and letters in either case (entries of schema DE, which libCZI does not implement, are out of scope). With the strict coordinate checks, a sub-block whose directory entry has a size or stored size other than one in a dimension other than X and Y, or lacks X or Y, is refused with the documented parse error (M of pyramid sub-blocks is exempt if so requested), and nothing else is; without them the file is read. If the description of a sub-block in its segment differs from the one in the directory (position, size, stored size, pixel type, compression, coordinate, M-index), reading the sub-block is refused with the documented error, or, if discrepancies are to be ignored, gives the description which the policy names as a whole; enumeration always gives the directory's. A reader whose Open was refused can be opened again.",
 ["inputs","configurations"],"all layouts of conforming files, all discrepancies, all open options",
 "The tests read files which libCZI wrote itself and check one or two discrepancies.",
 ["CziParse.cpp","CZIReader.cpp","CziSubBlockDirectory.cpp","libCZI.h"],
 [("directory entry parsing and checks","CziParse.cpp: ParseThroughDirectoryEntries, AddEntryToSubBlockDirectory, ConvertToBitmapInfo"),("comparison with the segment's header","CZIReader.cpp: ReadSubBlock"),("options","libCZI.h: ICZIReader::OpenOptions")],["reader output","exceptions"])

open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P: print(x["id"], x["title"], x["statement"].count(". ")+1)
