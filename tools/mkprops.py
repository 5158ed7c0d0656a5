#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line). Source of truth for the property texts."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state,observe,hook=False):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=observe,hook_needed=hook)))
S='Src/libCZI/'
prop('P01','What a writer was given is what a reader gets back',
 'After a document has been written and closed, a reader that opens the file finds exactly the subblocks, attachments and XML metadata that the writer accepted: each subblock with its coordinate, tile index, logical rectangle, physical size, pixel type, pyramid type, compression id and its pixel data, metadata and attachment bytes, each attachment with its id, names and bytes, the metadata XML and the document id. Nothing is lost, duplicated, reordered into another item or altered, and an item the writer refused (argument out of the declared bounds, duplicate coordinate, duplicate attachment, invalid argument) leaves no trace in the file. The result does not depend on whether data was passed as a buffer, row by row or by callback, nor on whether space for directories and metadata was reserved in advance.',
 ['histories','inputs','configurations'],'Every sequence of writer calls (create with any options, add subblock/attachment/metadata in any order, re-write of the metadata, close), every coordinate, size and payload.',
 'The unit tests write a handful of hand-made documents; the interplay of order, reservation, alignment/padding sizes, refused calls and payload sizes is a product space they sample at a few points.',
 [S+'CziWriter.cpp',S+'CziWriter.h',S+'CziSubBlockDirectory.cpp',S+'CziAttachmentsDirectory.cpp',S+'CZIReader.cpp',S+'CziParse.cpp',S+'CziSubBlock.cpp',S+'CziAttachment.cpp',S+'CziMetadataSegment.cpp'],
 [('CCziWriter::SyncAddSubBlock / SyncAddAttachment / SyncWriteMetadata / Close',S+'CziWriter.cpp'),('CCZIParse::ReadSubBlock / ReadAttachment / ReadMetadataSegment',S+'CziParse.cpp')],
 [('subblock directory','set of entries accumulated by the writer',S+'CziSubBlockDirectory.h'),('attachment directory','set of attachments',S+'CziAttachmentsDirectory.h'),('next segment position','append position in the file',S+'CziWriter.h')],
 ['ICziWriter calls and results','ICZIReader enumeration, ReadSubBlock, ReadAttachment, ReadMetadataSegment'])
prop('P02','Every file produced is a well-formed, non-overlapping segment chain',
 'At every moment when a writer or an in-place editor has closed a file, the file is a gap-free chain of segments starting at offset 0 that contains every live segment: every segment up to the last live one is aligned, its used size fits its allocated size, segments do not overlap, and every live segment lies completely inside the file (what follows the last live segment is unspecified). The header points at exactly one live subblock directory, attachment directory and metadata segment (or at none), every directory entry points at the start of a live segment of the right kind whose own embedded description equals the directory entry, and no byte of one segment is clobbered by writing another.',
 ['histories','inputs','configurations'],'All histories of writer and editor operations, payload sizes and reservation sizes.',
 'Unit tests compare content read back through the same library; overlapping or mis-chained segments often stay invisible until a later edit, and tests never walk the raw chain.',
 [S+'CziWriter.cpp',S+'CziReaderWriter.cpp',S+'CziStructs.h',S+'FileHeaderSegmentData.h'],
 [('CWriterUtils::Write*',S+'CziWriter.cpp'),('CCziReaderWriter::Finish and replace/append helpers',S+'CziReaderWriter.cpp')],
 [('segment chain','(position, id, allocated, used) of all segments','file bytes'),('file header','positions of directories and metadata','file bytes')],
 ['raw bytes of the produced file'])
prop('P03','In-place editing behaves like a map edit, whatever the edit history',
 'For any history of add, replace and remove operations on subblocks, attachments and metadata of an existing or new document, interleaved with closing and re-opening, the document read afterwards equals the document obtained by applying the same operations to an abstract collection: untouched items stay byte-identical, a replaced item has the new content, a removed item is gone, and nothing else changes. During the editing session the editor itself already reports this state. Operations naming an item that does not exist, or adding a duplicate, are refused and leave the document unchanged.',
 ['histories','inputs'],'All editing histories over documents, including growing, shrinking and same-size replacement and repeated open/close.',
 'The tests run a few fixed edits; errors in append position, in-place reuse, directory rewriting and id bookkeeping only show after specific sequences of edits and re-opens.',
 [S+'CziReaderWriter.cpp',S+'CziReaderWriter.h',S+'CziAttachmentsDirectory.cpp',S+'CziSubBlockDirectory.cpp'],
 [('CCziReaderWriter::ReplaceSubBlock / RemoveSubBlock / SyncAddSubBlock / ReplaceAttachment / RemoveAttachment / SyncAddAttachment / SyncWriteMetadata',S+'CziReaderWriter.cpp'),('CReaderWriterCziSubBlockDirectory / CReaderWriterCziAttachmentsDirectory',S+'CziSubBlockDirectory.h')],
 [('item maps','key -> entry of the editor',S+'CziSubBlockDirectory.h'),('next segment position','append position',S+'CziReaderWriter.h')],
 ['ICziReaderWriter calls and results','ICZIReader read-back after close'])
prop('P04','An interrupted write never looks like a complete, different document',
 'If the process stops after any prefix of the byte writes a writer issues, opening the resulting file either fails with an error or yields a document in which every reported item is one that was completely handed to the writer, with its exact content. A subblock or attachment whose bytes had not all reached the file is never reported, and the file only presents the full document once the last directory, the metadata and the header have been written.',
 ['crash_points','histories'],'Every prefix of the sequence of stream writes of every writer history, and torn last writes.',
 'No test truncates the write sequence; there is one crash point per byte written and per history.',
 [S+'CziWriter.cpp',S+'CZIReader.cpp',S+'CziParse.cpp'],
 [('CCziWriter::Close / Finish order of directory, metadata, header writes',S+'CziWriter.cpp')],
 [('header positions','0 until the document is finished','file bytes')],
 ['IOutputStream::Write log','ICZIReader::Open and reads on each prefix'])
prop('P05','I/O errors surface to the caller and never corrupt what was accepted',
 'If the underlying stream fails or writes/reads fewer bytes than asked during any operation of writer, editor or reader, that operation reports an error to its caller; it never reports success. An add operation that failed leaves no entry behind: if the caller goes on and finishes the document, the file contains exactly the items whose operations succeeded, readable and intact. A failing read reports an error or an end-of-data condition, never invented bytes.',
 ['fault_sequences','histories'],'Every position and kind of stream fault (exception, short transfer) in every operation history.',
 'Tests inject at most one fault at a chosen spot; the quantifier is over every I/O call in every history.',
 [S+'CziWriter.cpp',S+'CziReaderWriter.cpp',S+'CziParse.cpp',S+'CZIReader.cpp',S+'CziAttachment.cpp'],
 [('CWriterUtils::WriteSubBlock/WriteAttachment/WriteMetadata, CCziWriter::ThrowNotEnoughDataWritten',S+'CziWriter.cpp'),('CCZIParse::ThrowNotEnoughDataRead',S+'CziParse.cpp')],
 [('subblock directory under construction','must hold only written items',S+'CziWriter.h')],
 ['results of API calls under fault-injecting streams','read-back document'])
prop('P06','Document statistics are exactly what the directory contents imply',
 'The statistics a reader or editor reports (subblock count, bounding box with and without pyramid tiles, per-dimension start and size, per-scene boxes, tile index range, and pyramid layer counts) are a function of the set of subblocks in the document only: the exact minimum/maximum/union over that set. They do not depend on the order in which subblocks were added, and after any add, replace or remove in an editing session they equal the statistics of a freshly opened document with the same subblocks. The pyramid layers of a scene are listed from finest to coarsest, and the metadata a writer prepares for a document states the same extents and, for each channel, the pixel type of its subblocks.',
 ['histories','inputs'],'Every multiset of subblocks in every order, and every editing history.',
 'Tests use a few documents; order independence and consistency after incremental edits quantify over histories.',
 [S+'CziSubBlockDirectory.cpp',S+'CziSubBlockDirectory.h',S+'CziReaderWriter.cpp'],
 [('CSbBlkStatisticsUpdater::UpdateStatistics / Consolidate / Clear',S+'CziSubBlockDirectory.cpp')],
 [('SubBlockStatistics','aggregate over subblocks',S+'libCZI.h'),('PyramidStatistics','counts per scene and layer',S+'libCZI.h')],
 ['ISubBlockRepository::GetStatistics / GetPyramidStatistics / TryGetSubBlockInfoOfArbitrarySubBlockInChannel'])
prop('P07','Enumeration and queries select exactly the matching items',
 'Enumerating all subblocks visits every subblock exactly once with the information stored for it; a filtered enumeration (by plane coordinate, by rectangle, only finest layer) visits exactly those subblocks of the full enumeration that satisfy the filter, and lookup by index agrees with enumeration. The same holds for attachments filtered by content type and name. A visitor that asks to stop is not called again.',
 ['inputs','histories'],'Every document and every query (coordinate, rectangle, layer flag, content type, name, index).',
 'Tests query few fixed documents; exactness is a set equality over all documents and queries.',
 [S+'CZIReader.cpp',S+'CziReaderWriter.cpp',S+'CziReaderCommon.cpp',S+'CziUtils.cpp',S+'CziAttachmentsDirectory.cpp',S+'CziSubBlockDirectory.cpp'],
 [('CziReaderCommon::EnumSubset, CziUtils::CompareCoordinate',S+'CziReaderCommon.cpp'),('CCZIReader::EnumerateSubset(attachments)',S+'CZIReader.cpp')],
 [('subblock list','index -> entry',S+'CziSubBlockDirectory.h')],
 ['ISubBlockRepository / IAttachmentRepository enumeration calls'])
prop('P08','Frame-of-reference conversions are exact translations',
 'Converting a point or rectangle between the raw subblock coordinate system and the pixel coordinate system of the document is a pure translation by the top-left corner of the layer-0 bounding box, converting there and back is the identity, and the default frame of reference chosen at open is honoured by every operation that accepts coordinates. Requests with an invalid frame are refused.',
 ['inputs','configurations'],'Every document origin (including negative), point, rectangle, pair of frames and open option.',
 'Tests use non-negative origins and one or two rectangles.',
 [S+'CZIReader.cpp',S+'SingleChannelAccessorBase.cpp'],
 [('CCZIReader::TransformPoint / TransformRectangle / GetDefaultFrameOfReference',S+'CZIReader.cpp')],
 [('frame offset','top-left of layer-0 bounding box',S+'CZIReader.h')],
 ['ICZIReader::TransformPoint, TransformRectangle, accessor results under both frames'])
prop('P09','Malformed files are rejected or read safely, never crash or invent data',
 'For every byte sequence presented as a file, opening it with the reader or the editor and reading every subblock, attachment and metadata segment it declares terminates and either succeeds or reports an error as an exception, without memory errors. Every item that is reported successfully is exactly what the file declares: the description is that of its entry, and its metadata, data and attachment are the bytes of the file at the place and of the length the file declares; an item whose declared content does not lie inside the file (or has a negative size, a wrong segment identifier or an unknown schema) is never reported. An intact file is read completely. Sizes the machine cannot allocate are errors. (Decoding of damaged JPEG XR payloads is not covered.)',
 ['inputs'],'All byte strings; in particular every single-field corruption and every truncation of well-formed files.',
 'Tests contain few malformed samples; the space of corruptions is the product of all fields and values.',
 [S+'CziParse.cpp',S+'CziStructs.cpp',S+'CZIReader.cpp',S+'CziSubBlock.cpp',S+'CziAttachment.cpp',S+'SubblockAttachmentAccessor.cpp'],
 [('CCZIParse::ReadFileHeaderSegment/ReadSubBlockDirectory/ReadSubBlock/ReadAttachment',S+'CziParse.cpp')],
 [('segment sizes','declared allocated/used/part sizes','file bytes')],
 ['ICZIReader::Open and all reads on corrupted bytes, under a memory checker'])
prop('P10','The strictness option decides exactly which irregular entries are refused',
 'Opening a file with strict subblock checks refuses it exactly if some directory entry lacks the X or Y dimension, has a dimension other than X, Y and M whose size or stored size is not 1, or has an M dimension whose size is not 1; with ignore_sizem_for_pyramid_subblocks the last rule applies only to subblocks that are not pyramid subblocks (stored size equal to logical size). With lax checks (the default) all of these are accepted. The order of the dimension entries is irrelevant. When a subblock is read and its header differs from its directory entry in pixel type, compression, coordinate, M index, position or size, reading is refused unless discrepancies are to be ignored, and the precedence setting decides which of the two descriptions is reported. A file without irregularities gives identical results under every option.',
 ['inputs','configurations'],'Every irregularity kind, every option setting and every entry of every document.',
 'Tests check one irregularity at a time with default options.',
 [S+'CziParse.cpp',S+'CziParse.h',S+'CZIReader.cpp'],
 [('CCZIParse::SubblockDirectoryParseOptions, AddEntryToSubBlockDirectory',S+'CziParse.cpp'),('SubBlockDirectoryInfoPolicy handling',S+'CZIReader.cpp')],
 [('parse options','flags given at open',S+'CziParse.h')],
 ['ICZIReader::Open outcome; SubBlockInfo reported'])
prop('P11','A composed tile image is the painter\'s algorithm over the matching tiles',
 'The image returned for a rectangle of a plane equals: the background colour, overpainted by each non-pyramid tile of that plane (and permitted scenes) that intersects the rectangle, in ascending tile-index order when sorting is requested, each tile placed at its offset and clipped to the rectangle, converted to the requested pixel type. Pixels not covered by any tile are background; nothing outside the destination is touched; the pixel type, when not given, is that of the channel. Composing a given list of bitmaps directly follows the same rule in the order of the list, and when tile borders are requested only pixels on the edge of the visible part of a tile may differ, by being black.',
 ['inputs','configurations'],'Every arrangement of tiles (overlaps, gaps, negative coordinates), rectangle, background, scene filter, pixel types and sorting option.',
 'Tests compare a few mosaics with stored hashes; correctness is per pixel over all arrangements.',
 [S+'SingleChannelTileAccessor.cpp',S+'SingleChannelAccessorBase.cpp',S+'SingleChannelTileCompositor.cpp',S+'BitmapOperations.cpp'],
 [('CSingleChannelTileAccessor::InternalGet/ComposeTiles',S+'SingleChannelTileAccessor.cpp'),('Compositors::ComposeSingleChannelTiles',S+'SingleChannelTileCompositor.cpp')],
 [('paint order','ascending tile index',S+'SingleChannelAccessorBase.cpp')],
 ['pixels of the returned bitmap'])
prop('P12','A pyramid-layer image uses exactly the tiles of the requested layer',
 'The image returned for a pyramid layer consists of exactly the tiles of that layer (minification factor to the power of the layer number) intersecting the region, painted in ascending tile-index order when requested, each placed at its logical position relative to the region divided by the layer scale (truncated to whole pixels), over the background. Asking for layer 0 gives the same image as the plain tile composition, and a layer that has no tile in the region gives the background.',
 ['inputs','configurations'],'Every pyramid arrangement, minification factor, layer, region, scene filter.',
 'Tests cover a regular factor-2 pyramid only.',
 [S+'SingleChannelPyramidLevelTileAccessor.cpp',S+'SingleChannelAccessorBase.cpp'],
 [('CSingleChannelPyramidLevelTileAccessor::InternalGet / CalcPyramidLayerNo',S+'SingleChannelPyramidLevelTileAccessor.cpp')],
 [('layer number of a tile','derived from logical/physical size',S+'SingleChannelPyramidLevelTileAccessor.cpp')],
 ['pixels of the returned bitmap'])
prop('P13','Scaled composition picks the right pyramid level and samples the right tile',
 'For a zoom factor z and rectangle, the result has size floor(extent*z) and every pixel is either background (where no suitable tile covers it) or a sample of the topmost tile covering that location, within one source pixel of the exact location. Per scene, the tiles used are those of the coarsest pyramid level that is not coarser than the requested zoom (with 5 percent tolerance), together with levels less than about 1.9 times finer; if there is no such level nothing is painted for that scene. Within a level tiles are painted in ascending tile-index order when sorting is requested, and scenes in ascending order. Scene filters and background colour are honoured and tiles without relevance to the rectangle have no influence.',
 ['inputs','configurations'],'Every pyramid arrangement, zoom factor in (0,1], rectangle, background, scene filter.',
 'Tests compare hashes for few zooms; level selection depends on sizes and zoom in combination.',
 [S+'SingleChannelScalingTileAccessor.cpp',S+'BitmapOperations.hpp'],
 [('CSingleChannelScalingTileAccessor::InternalGet / CalcSize / GetSubSetFilteredBySceneSortedByZoom',S+'SingleChannelScalingTileAccessor.cpp')],
 [('tile zoom','physical/logical size',S+'SingleChannelScalingTileAccessor.h')],
 ['size and pixels of the returned bitmap'])
prop('P14','Optimisations never change an image',
 'Switching on the subblock cache (of any size, shared between calls, with or without compressed-only caching) or the visibility check of overlapping tiles never changes a single pixel of any accessor result compared to the same call without them, across any sequence of calls. A tile the visibility check skips is one that is completely covered by later painted tiles.',
 ['histories','configurations','inputs'],'All documents with overlapping tiles, all call sequences over one cache, all cache limits.',
 'Tests compare only a few documents with the options on and off.',
 [S+'SingleChannelAccessorBase.cpp',S+'subblock_cache.cpp',S+'utilities.cpp',S+'SingleChannelTileAccessor.cpp'],
 [('CSingleChannelAccessorBase::CheckForVisibility / GetSubBlockDataForSubBlockIndex',S+'SingleChannelAccessorBase.cpp'),('RectangleCoverageCalculator',S+'utilities.cpp')],
 [('cache content','subblock index -> decoded bitmap',S+'subblock_cache.h'),('covered region','union of rectangles',S+'utilities.h')],
 ['pixels with options on vs off'])
prop('P15','The subblock cache is an exact, thread-safe least-recently-used map',
 'A lookup returns the most recently added bitmap for that subblock or nothing; it never returns another subblock\'s bitmap. Reported element count and memory usage always equal the sum over the retained items, pruning removes items in least-recently-used order until both limits are met and nothing more, and reads refresh recency. Concurrent use from several threads is equivalent to some sequential order of the calls.',
 ['histories','schedules','inputs'],'All sequences of add/get/prune/statistics calls and all interleavings of concurrent callers.',
 'Tests run short fixed sequences in one thread.',
 [S+'subblock_cache.cpp',S+'subblock_cache.h'],
 [('SubBlockCache::Add/Get/Prune/PruneByMemoryUsageAndElementCount',S+'subblock_cache.cpp')],
 [('cache map','index -> bitmap + last-use stamp',S+'subblock_cache.h'),('size counters','elements and bytes',S+'subblock_cache.h')],
 ['ISubBlockCache::Add/Get/Prune/GetStatistics'])
prop('P16','A reader can be used from many threads and be closed at any moment',
 'Concurrent reads, enumerations and queries on one open document from any number of threads each return the same result as when called alone. If another thread closes the document meanwhile, each concurrent call either completes with the correct result or reports the wrong-state error; it never crashes, mixes data or deadlocks, and subblock objects already obtained stay valid after closing. (Re-opening is only specified once the concurrent calls have ended.)',
 ['schedules','histories'],'All interleavings of concurrent reads, enumerations and close/re-open.',
 'Tests are single threaded.',
 [S+'CZIReader.cpp',S+'CZIReader.h',S+'StreamImpl.cpp'],
 [('CCZIReader stream ownership and operational checks',S+'CZIReader.cpp')],
 [('operational state and stream reference','shared by all calls',S+'CZIReader.h')],
 ['results of concurrent ICZIReader calls'])
prop('P17','Compression is lossless and pixels decode to what was encoded',
 'For every bitmap of a supported pixel type, compressing with any lossless scheme (zstd0, zstd1 with or without byte packing, uncompressed, lossless JPEG-XR) and any level, from any memory stride, and decoding the stored data gives back the identical bitmap (for floating-point pixels JPEG-XR keeps 13 mantissa bits only); low/high byte packing and unpacking are inverse. When the stored data is shorter or longer than the declared size implies, decoding follows the documented policy (pad with zeros / truncate / refuse) exactly as the option says.',
 ['inputs','configurations'],'All sizes, pixel types, strides, contents, levels, packing choices and size mismatches.',
 'Tests use a few bitmaps; vectorised and scalar paths, strides and odd sizes multiply.',
 [S+'zstdCompress.cpp',S+'decoder_zstd.cpp',S+'CreateBitmap.cpp',S+'utilities.cpp',S+'utilities_simd.cpp',S+'decoder.cpp',S+'jxrlibcompress.cpp'],
 [('ZstdCompress::CompressZStd0/1*, LoHiBytePack/Unpack',S+'zstdCompress.cpp'),('CZstd0Decoder/CZstd1Decoder::Decode',S+'decoder_zstd.cpp')],
 [('packed form','low bytes followed by high bytes',S+'utilities.cpp')],
 ['compressed memory block -> decoded bitmap'])
prop('P18','Text forms parse exactly the documented grammar and round-trip',
 'For coordinates, dimension bounds, index sets, compression options, colours and XML date/times: formatting a value and parsing the text gives the same value back, parsing is independent of letter case and order where documented, and a text outside the grammar is refused with an error instead of being partially accepted. An index set parsed from a text contains exactly the indices the text denotes. Comparing coordinates is a total order consistent with equality, and enumerating the coordinates of given bounds visits each of them exactly once.',
 ['inputs'],'All strings and all values.',
 'Tests parse a fixed list of strings.',
 [S+'DimCoordinate.cpp',S+'IndexSet.cpp',S+'CziUtils.cpp',S+'libCZI_Utilities.cpp',S+'utilities.cpp',S+'libCZI_compress.h'],
 [('CDimCoordinate::Parse, CDimBounds::Parse',S+'DimCoordinate.cpp'),('CIndexSet::Parse',S+'IndexSet.cpp'),('Utils::ParseCompressionOptions',S+'libCZI_Utilities.cpp')],
 [('parsed value','dimension -> value, intervals, ...','return values')],
 ['parse and format functions'])
prop('P19','Bitmap operations compute the specified pixels and touch nothing else',
 'Copy with pixel-type conversion, copy with offset and clipping, fill, nearest-neighbour resize (also through the public resize utilities), bit-mask (bitonal) set/fill/copy/decimate and masked copy compute, for every destination pixel, exactly the value given by the pixel-wise definition, for any size, stride, offset and bit alignment. The hash of a bitmap is the MD5 digest of its pixels whatever the stride, that of a buffer the MD5 digest of its bytes. Bytes outside the addressed pixels, including row padding and unaddressed bits, are neither read from the source beyond its extent nor modified in the destination (the unused bits of the last byte of a row of a bit mask are unspecified after setting all pixels).',
 ['inputs'],'All sizes, strides, offsets (also negative), pixel types and bit positions.',
 'Tests use some sizes; word-boundary and clipping cases multiply.',
 [S+'BitmapOperations.cpp',S+'BitmapOperations.hpp',S+'BitmapOperationsBitonal.cpp',S+'BitmapOperationsBitonal.h',S+'libCZI_Pixels.cpp'],
 [('CBitmapOperations::Copy/CopyWithOffset/NNResize/Fill',S+'BitmapOperations.cpp'),('BitmapOperationsBitonal',S+'BitmapOperationsBitonal.cpp')],
 [('destination buffer','pixels and guard bytes','caller memory')],
 ['destination bytes'])
prop('P20','Multi-channel composition computes the specified blend',
 'The composed image of several channels equals, per pixel, the saturating sum over the enabled channels of the channel value mapped through its look-up table or linear black/white point, weighted and tinted, converted to the output format; channels, widths, strides and pixel types may be mixed and the order of channels does not matter.',
 ['inputs','configurations'],'All combinations of channel pixel types, LUTs, tints, weights, black/white points and sizes.',
 'Tests compose a few constant images.',
 [S+'MultiChannelCompositor.cpp',S+'MultiChannelCompositor.h'],
 [('CMultiChannelCompositor::ComposeMultiChannel_*',S+'MultiChannelCompositor.cpp')],
 [('channel info','tint, weight, lut, black/white point',S+'libCZI_Compositor.h')],
 ['destination pixels'])
prop('P21','Metadata editing is tree editing',
 'For any sequence of metadata-builder operations addressing nodes by path (with attribute selectors and indices), creating, setting values and attributes, and removing children, the resulting XML is the tree given by the same operations on an abstract tree: only the addressed nodes change, get-or-create is idempotent, and reading the serialised XML back gives the same tree, also through the read-only metadata of a file and of a subblock; a text that is not XML is reported as invalid and nothing is read from it. Paths that are not well-formed are refused without change. A value reads as a number or boolean exactly if its whole text is one, in range of the type. (Names are XML names; text which is blank is not kept when the document is written and read.)',
 ['histories','inputs'],'All sequences of node operations and paths.',
 'Tests issue short fixed sequences.',
 [S+'XmlNodeWrapper.h',S+'CziMetadataBuilder.cpp',S+'CziMetadata.cpp'],
 [('XmlNodeWrapper get-or-create/get-child',S+'XmlNodeWrapper.h'),('MetadataUtils::Write*',S+'CziMetadataBuilder.cpp')],
 [('xml tree','nodes, attributes, values',S+'XmlNodeWrapper.h')],
 ['ICziMetadataBuilder::GetXml, IXmlNodeRead/Rw'])
prop('P22','Subblock metadata and attachment containers are decoded exactly',
 'Tags stored as text in subblock metadata are reported with exactly their stored values (or reported absent; text which is blank counts as absent), as a number if and only if the whole text is a decimal number, and the chunks of a subblock attachment container are enumerated completely, in order, with exact identity, offset and size (fewer than 21 bytes left at the end are no chunk); the valid-pixel mask reported equals the stored bit image. Containers whose declared sizes do not fit are reported as malformed rather than read out of bounds.',
 ['inputs'],'All metadata documents and all chunk sequences, including truncated ones.',
 'Tests contain one or two samples with a single chunk.',
 [S+'SubblockMetadata.cpp',S+'SubblockAttachmentAccessor.cpp'],
 [('SubblockAttachmentAccessor::EnumerateChunksInChunkContainer / GetValidPixelMaskFromChunkContainer',S+'SubblockAttachmentAccessor.cpp'),('SubblockMetadata',S+'SubblockMetadata.cpp')],
 [('chunk sequence','guid,size,payload','attachment bytes')],
 ['ISubBlockAttachmentAccessor, ISubBlockMetadata'])
prop('P23','The C interface mirrors the library and its handles are safe',
 'Every object handle obtained through the C interface refers to its own object until it is released, independently of all other handles and of the order in which they are released (an object obtained from another one stays usable after that one is released). A call given the null handle, a live handle of another kind, a null output pointer or an argument outside its documented range returns an error code and has no effect: it never crashes, never lets an exception escape, issues no handle, and never touches another object\'s data. (Handles that were already released or never issued are outside the contract.) Results obtained through the C interface (those given as JSON texts included) equal those of the C++ interface, what is written through it is what a reader finds in the file, and an external stream is called with its own handles only, not after it was closed, and is closed exactly once, when nothing needs it any more.',
 ['histories','inputs'],'All sequences of create, use and release calls over all handle kinds.',
 'Tests run linear create-use-release sequences.',
 ['Src/libCZIAPI/src/libCZIApi.cpp','Src/libCZIAPI/src/sharedptrwrapper.h'],
 [('handle magic check and shared ownership','Src/libCZIAPI/src/sharedptrwrapper.h')],
 [('live handles','handle -> object','Src/libCZIAPI/src')],
 ['libCZI_* C functions and their error codes'])
prop('P24','Streams deliver exactly the bytes of the file',
 'Every stream implementation (plain file, positional-read file, memory, input-output, output, HTTP) reads at any offset exactly the bytes the file holds there, as many as exist there and were asked for (none at or beyond the end), independent of earlier calls and of concurrent reads; writes at any offset change exactly the addressed bytes, extend the file when needed, and honour the overwrite option. A read or an open that the operating system cannot perform is reported as an error, never as data or as a short read; the same holds for an HTTP request that the server does not answer with the bytes asked for. Options given when an HTTP stream is created are honoured, invalid options are refused. (The file is not modified by others while a buffering stream is open.)',
 ['histories','inputs','schedules'],'All sequences of reads and writes with arbitrary offsets and sizes, and concurrent reads.',
 'Tests read a few ranges.',
 [S+'StreamImpl.cpp',S+'StreamsLib/simplefileinputstream.cpp',S+'StreamsLib/preadfileinputstream.cpp',S+'StreamsLib/streamsFactory.cpp'],
 [('IStream::Read / IOutputStream::Write implementations',S+'StreamImpl.cpp')],
 [('file content','byte sequence','file system')],
 ['Read/Write results and file bytes'])
prop('P25','Objects refuse calls their life-cycle state does not allow',
 'Readers, writers and editors accept an operation only in the state that documents it: nothing but creation/opening works before it or after closing, a second create/open on an operational object is refused, closing an object that is not open is refused (closing an editor commits the document and the editor stays usable), and a failed create/open leaves the object unused so that it can be opened afterwards. Each refusal is a reported error with no effect on the document.',
 ['histories','fault_sequences'],'All call sequences, including ones where open or create fails.',
 'Tests exercise the documented happy order.',
 [S+'CziWriter.cpp',S+'CziReaderWriter.cpp',S+'CZIReader.cpp'],
 [('ThrowIfNotOperational / ThrowIfAlreadyInitialized and equivalents',S+'CziWriter.cpp')],
 [('operational state','unused, open, closed',S+'CZIReader.h')],
 ['API call results'])
prop('P26','Display look-up tables and splines are monotone, bounded and interpolating',
 'A look-up table built from black point, white point and linear, gamma or spline mode has the requested size, maps everything below the black point to minimum and above the white point to maximum, and is monotone in between for linear and gamma modes; a spline passes through its control points. For a gamma of at least 0.1 the table follows the documented curve. Display settings are reported as they were given, and written to metadata and read back are the same settings up to the precision of the text (six significant digits), provided that the channels are numbered without gaps.',
 ['inputs'],'All table sizes, black/white points, gammas and control point sets.',
 'Tests check a few tables by hash.',
 [S+'CziDisplaySettings.cpp',S+'splines.cpp',S+'libCZI_Utilities.cpp',S+'CziMetadataBuilder.cpp'],
 [('Utils::Create8BitLookUpTableFrom*',S+'libCZI_Utilities.cpp'),('DisplaySettingsPOD, WriteDisplaySettings',S+'CziMetadataBuilder.cpp')],
 [('lut','array of bytes','return value')],
 ['LUT values; display settings read back'])
prop('P27','Document information reports exactly what the metadata states',
 'The document-information objects obtained from a metadata document report exactly what its XML states: general document information, scaling, dimension sizes, Z- and T-dimension information (regular intervals, offset lists, modes and directions), and for each dimension channel its attributes, enumerated values, ranges, detector and light-source settings. An element that is absent is reported as absent, so is one whose enumeration value, colour, range or date is malformed, and no malformed value makes reading fail or affects another field; an index that is out of range gives a null object, and different ways to look up the same channel agree. What the metadata-writing helpers (general info, scaling, dimension and channel information) are given is written at the documented places, and general info, scaling and dimension sizes are reported back unchanged (numbers up to 15 significant digits).',
 ['inputs'],'Every metadata document, well-formed or with missing, malformed or extreme values, and every argument of the writing helpers.',
 'Tests read a few fixed metadata documents; exactness quantifies over every presence/absence pattern, every value and every position of the elements.',
 [S+'CziMetadataDocumentInfo.cpp',S+'CziMetadataDocumentInfo2.cpp',S+'CziDimensionInfo.cpp',S+'CziMetadataBuilder.cpp'],
 [('CCziMultiDimensionDocumentInfo',S+'CziMetadataDocumentInfo.cpp'),('CDimensionChannelInfo and nested settings',S+'CziMetadataDocumentInfo2.cpp'),('MetadataUtils::Write*',S+'CziMetadataBuilder.cpp')],
 [('metadata document','XML tree',S+'CziMetadata.cpp')],
 ['ICziMultiDimensionDocumentInfo and the objects reached from it; the XML written by MetadataUtils'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
