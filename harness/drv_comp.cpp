// Family "comp": documents with known pixels and calls of the single-channel accessors.
#include "drv_comp.h"

static void U32(Bytes& b, std::uint32_t v) { for (int i = 0; i < 4; ++i) b.push_back((std::uint8_t)(v >> (8 * i))); }
static Bytes MaskChunk(const JV& t)
{
    int w = I(t, "mw"), h = I(t, "mh"), ms = I(t, "ms"), stride = (w + 7) / 8 + I(t, "mpad"); Bytes p;
    U32(p, (std::uint32_t)w); U32(p, (std::uint32_t)h); U32(p, 0); U32(p, (std::uint32_t)stride);
    Bytes d((size_t)stride * h, 0); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) if (MaskBit(ms, x, y)) d[(size_t)y * stride + x / 8] |= (std::uint8_t)(0x80 >> (x & 7));
    p.insert(p.end(), d.begin(), d.end());
    Bytes r; static const std::uint8_t g[16] = { 0x67,0xEA,0xE3,0xCB,0xFC,0x5B,0x2B,0x49,0xA1,0x6A,0xEC,0xE3,0x78,0x03,0x14,0x48 };
    r.insert(r.end(), g, g + 16); U32(r, (std::uint32_t)p.size()); r.insert(r.end(), p.begin(), p.end()); return r;
}
static const char kMaskXml[] = "<METADATA><AttachmentSchema><DataFormat>CHUNKCONTAINER</DataFormat></AttachmentSchema></METADATA>";
void WriteCompTiles(const JV& tiles, ICziWriter* w)
{
    for (auto& t : tiles.GetArray())
    {
        AddSubBlockInfoMemPtr s; s.Clear(); s.coordinate = CoordFrom(t["c"]); s.mIndexValid = B(t, "hm"); s.mIndex = s.mIndexValid ? I(t, "m") : 0;
        s.x = I(t, "x"); s.y = I(t, "y"); s.logicalWidth = I(t, "w"); s.logicalHeight = I(t, "h"); s.physicalWidth = I(t, "pw"); s.physicalHeight = I(t, "ph");
        s.PixelType = (PixelType)I(t, "pt"); s.pyramid_type = (s.logicalWidth == s.physicalWidth && s.logicalHeight == s.physicalHeight) ? SubBlockPyramidType::None : SubBlockPyramidType::MultiSubBlock;
        GBmp b(s.PixelType, s.physicalWidth, s.physicalHeight, 0, true); b.Fill(I(t, "s"));
        int cmp = I(t, "cmp"); s.compressionModeRaw = cmp; std::shared_ptr<IMemoryBlock> mb; size_t n = (size_t)b.rowBytes * b.h;
        if (cmp == 5) mb = ZstdCompress::CompressZStd0Alloc(b.w, b.h, b.stride, b.pt, b.Base(), nullptr);
        else if (cmp == 6) { CompressParametersOnMap pm; pm.map[(int)CompressionParameterKey::ZSTD_PREPROCESS_DOLOHIBYTEPACKING] = CompressParameter(B(t, "hl")); mb = ZstdCompress::CompressZStd1Alloc(b.w, b.h, b.stride, b.pt, b.Base(), &pm); }
        if (mb) { s.ptrData = mb->GetPtr(); s.dataSize = (std::uint32_t)mb->GetSizeOfData(); } else { s.ptrData = b.Base(); s.dataSize = (std::uint32_t)n; }
        Bytes ch; if (B(t, "hk")) { ch = MaskChunk(t); s.ptrSbBlkMetadata = kMaskXml; s.sbBlkMetadataSize = sizeof(kMaskXml) - 1; s.ptrSbBlkAttachment = ch.data(); s.sbBlkAttachmentSize = (std::uint32_t)ch.size(); }
        w->SyncAddSubBlock(s);
    }
}
void WriteCompDoc(const JV& tiles, const std::shared_ptr<MemFile>& file)
{
    auto w = CreateCZIWriter(); auto info = std::make_shared<CCziWriterInfo>(GuidFrom(1)); w->Create(file, info); WriteCompTiles(tiles, w.get()); w->Close();
}
// kind "x": the composition of given bitmaps, in the given order
static std::string Direct(const JV& tiles, const JV& c, JV& px, int* w, int* h, int* pt, bool* gok, std::string* det, JA& a)
{
    GBmp d((PixelType)I(c, "dpt"), (std::uint32_t)I(c, "ow"), (std::uint32_t)I(c, "oh"), I(c, "pad"), B(c, "tight")); d.FillConst(I(c, "pre")); *gok = true; std::vector<std::shared_ptr<GBmp>> src; const JV& seq = c["seq"];
    auto get = [&](int i, std::shared_ptr<IBitmapData>& b, std::shared_ptr<IBitonalBitmapData>& m, int& x, int& y) -> bool
    {
        if (i < 0 || i >= (int)seq.Size()) return false;
        const JV& t = tiles[seq[i].GetInt()]; auto g = std::make_shared<GBmp>((PixelType)I(t, "pt"), (std::uint32_t)I(t, "pw"), (std::uint32_t)I(t, "ph"), i % 3, true); g->Fill(I(t, "s")); src.push_back(g); b = g; x = I(t, "x"); y = I(t, "y");
        if (B(t, "hk")) { auto k = std::make_shared<GBit>((std::uint32_t)I(t, "mw"), (std::uint32_t)I(t, "mh"), I(t, "mpad")); k->Fill(I(t, "ms")); m = k; }
        return true;
    };
    Compositors::ComposeSingleTileOptions o; o.Clear(); o.drawTileBorder = B(c, "brd"); auto po = B(c, "nop") ? nullptr : &o; auto& q = c["roi"];
    std::string r = Guard([&] {
        if (B(c, "mask")) Compositors::ComposeSingleChannelTilesMaskAware(get, &d, q[0].GetInt(), q[1].GetInt(), po);
        else Compositors::ComposeSingleChannelTiles([&](int i, std::shared_ptr<IBitmapData>& b, int& x, int& y) { std::shared_ptr<IBitonalBitmapData> m; return get(i, b, m, x, y); }, &d, q[0].GetInt(), q[1].GetInt(), po);
    }, det);
    *gok = d.GuardsOk() && d.locks == 0; for (auto& s : src) *gok = *gok && s->GuardsOk() && s->locks == 0;
    if (r == "ok") { *w = (int)d.w; *h = (int)d.h; *pt = (int)d.pt; PixelsV(&d, px, a); }
    return r;
}
static void Ep(const JV& script, JV& ev, JA& a)
{
    auto file = std::make_shared<MemFile>(); const JV& tiles = script["tiles"]; WriteCompDoc(tiles, file);
    Comp k; k.rd = CreateCZIReader(); ICZIReader::OpenOptions oo; oo.SetDefault(); oo.default_frame_of_reference = (CZIFrameOfReference)I(script, "dfr", 1); k.rd->Open(file, &oo);
    { JV e = Obj(); Put(e, "op", "doc", a); JV t = JV(tiles, a); Put(e, "tiles", t, a); Put(e, "dfr", I(script, "dfr", 1), a); ev.PushBack(e, a); }
    for (auto& c : script["calls"].GetArray())
    {
        JV e(c, a); if (!Has(c, "op")) Put(e, "op", "get", a);
        if (S(c, "op") == "prune") { auto it = k.caches.find(I(c, "cache")); if (it != k.caches.end()) { ISubBlockCacheControl::PruneOptions po; if (I(c, "cnt", -1) >= 0) po.maxSubBlockCount = (std::uint32_t)I(c, "cnt"); if (I(c, "mem", -1) >= 0) po.maxMemoryUsage = (std::uint64_t)I(c, "mem"); it->second->Prune(po); } ev.PushBack(e, a); continue; }
        JV px = Arr(); int w = 0, h = 0, pt = -1; bool gok; std::string det; std::string r = S(c, "kind") == "x" ? Direct(tiles, c, px, &w, &h, &pt, &gok, &det, a) : k.Call(c, true, &px, &w, &h, &pt, &gok, &det, a);
        Put(e, "r", r, a); Put(e, "iw", w, a); Put(e, "ih", h, a); Put(e, "ipt", pt, a); Put(e, "px", px, a); Put(e, "gok", gok, a); if (r != "ok") Put(e, "det", det, a);
        if (B(c, "cmp2"))
        {
            JV px0 = Arr(); std::string r0 = k.Call(c, false, &px0, &w, &h, &pt, &gok, &det, a); Put(e, "r0", r0, a); Put(e, "px0", px0, a); Put(e, "iw0", w, a); Put(e, "ih0", h, a); Put(e, "ipt0", pt, a);
        }
        ev.PushBack(e, a);
    }
}
static Family f("comp", Ep);
