CMP='calls of the real accessors on generated documents are recorded under AddressSanitizer and judged pixel by pixel by TLC evaluating the TLA+ painter model'
CLAIMS={
 'P11':('TLA+ trace validation of recorded compositions against the painter model (Composition/CompTrace)',CMP),
 'P12':('TLA+ trace validation of recorded pyramid-layer compositions against the painter model',CMP),
 'P13':('TLA+ trace validation of recorded scaled compositions against the painter model with level selection',CMP),
 'P14':('TLA+ trace validation: each call recorded with and without optimisations, compared along histories',CMP+'; caches persist over the calls of an episode and are pruned in between'),
 'P15':('TLA+ model checking of the cache (CacheMC), TLC-generated operation sequences replayed into the real cache, trace validation, and linearizability of recorded concurrent histories','histories run under AddressSanitizer and ThreadSanitizer; TLC searches an order of the recorded operations that the sequential specification allows'),
 'P16':('TLA+ model checking of the reader protocol (ReaderMC) and linearizability of recorded concurrent histories of one reader','histories of mixed calls on one reader, recorded under AddressSanitizer and ThreadSanitizer, are accepted iff TLC finds an order allowed by the specification'),
 'P17':('TLA+ model checking of byte packing (CodecMC) and trace validation of recorded encode/decode calls against Codec/CodecTrace','every recorded decode is compared with the value the specification defines, including the resolution protocol for unexpected data sizes'),
 'P19':('TLA+ trace validation of recorded pixel and mask operations against BitmapOps/BmpTrace','operations on guarded buffers with generated pixel types, sizes, offsets, strides and masks, judged pixel by pixel and bit by bit by TLC; MD5 digests are computed by TLC'),
 'P18':('TLA+ trace validation of recorded parse/format/compare/enumerate calls against the grammars in Text/TextTrace','generated texts inside and around each grammar and generated values; TLC evaluates the grammar as a recursive definition over the characters'),
 'P20':('TLA+ trace validation of recorded multi-channel compositions against MultiChannel/MultiTrace','generated channels of all pixel types, tables, tints, weights and guarded buffers; TLC computes every output component'),
 'P22':('TLA+ trace validation of recorded accesses to subblock metadata and chunk containers against Chunk/ChunkTrace','generated metadata documents and attachments, intact and damaged, written and read back with the library; TLC parses the bytes with the container grammar'),
 'P26':('TLA+ trace validation of recorded look-up tables, splines and display-setting round trips against Display/DisplayTrace','generated table sizes, black/white points, gammas and control points; TLC checks size, bounds, monotonicity, curve and interpolation'),
 'P21':('TLA+ trace validation of recorded sequences of metadata edits against the tree model MetaTree/MetaTrace','after every operation the whole document is compared with the model; the XML text is parsed by an independent parser and read again with the library, also through the read-only metadata interfaces'),
 'P23':('TLA+ trace validation of recorded C-interface histories against the handle-table state machine Capi/CapiTrace','generated sequences of calls over all handle kinds, valid and invalid arguments, failing external streams and every order of release; each result is compared with the C++ interface and the written files are read back'),
 'P24':('TLA+ trace validation of recorded stream operations against the byte-file model Streams/StreamTrace','generated reads and writes over all stream classes (the HTTP stream against a loopback server that answers in various ways), stream options, and concurrent reads of one stream, the latter also under ThreadSanitizer'),
 'P09':('TLA+ trace validation of opens and reads of generated byte sequences against the CZI parser written in TLA+ (CziParse/ParseTrace)','field corruptions, truncations and byte changes of hand-laid-out files, read with reader and editor under AddressSanitizer; TLC parses the same bytes and compares everything that was reported'),
 'P10':('TLA+ model checking of the strictness rules (ParseMC), dimension lists enumerated by TLC replayed as files, and trace validation against CziParse/ParseTrace','every dimension list up to a length over a small alphabet is opened under every option; random irregular files under every policy; acceptance must be exactly that of the specification'),
 'P27':('TLA+ trace validation of recorded document information against the reading rules in DocInfo/DocInfoTrace','generated metadata documents with elements present, absent, malformed and extreme, and generated arguments of the writing helpers; TLC evaluates the reading rules on the same XML tree and compares every value that was reported'),
}
