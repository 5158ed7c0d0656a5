// family "parse": a file given as bytes is opened and everything it claims to contain is read (reader and editor)
#include "drv.h"
#include <cstring>
using namespace libCZI;
static int Pos31(std::uint64_t v) { return (std::int64_t)v < 0 ? -1 : v > 2147483647ULL ? 2147483647 : (int)v; }
static JV BytesV(const void* p, size_t n, JA& a)
{
    JV v = Arr(); if (n > 0 && p == nullptr) { v.PushBack(-1, a); return v; }     // a size without data
    if (n > 100000) { v.PushBack(-2, a); return v; }
    auto b = static_cast<const std::uint8_t*>(p); for (size_t i = 0; i < n; ++i) v.PushBack((int)b[i], a); return v;
}
static void InfoInto(JV& o, const SubBlockInfo& i, JA& a)
{
    Put(o, "px", (int)i.pixelType, a); Put(o, "cm", (int)i.compressionModeRaw, a); JV c = CoordV(&i.coordinate, a); Put(o, "c", c, a);
    JV q = Arr(); q.PushBack(i.logicalRect.x, a).PushBack(i.logicalRect.y, a).PushBack(i.logicalRect.w, a).PushBack(i.logicalRect.h, a).PushBack((int)i.physicalSize.w, a).PushBack((int)i.physicalSize.h, a); Put(o, "q", q, a);
    JV m = Arr(); if (Utils::IsValidMindex(i.mIndex)) m.PushBack(i.mIndex, a); Put(o, "m", m, a); Put(o, "py", (int)i.pyramidType, a);
}
static JV AttV(const AttachmentInfo& i, JA& a)
{
    JV o = Obj(); JV g = BytesV(&i.contentGuid, 16, a); Put(o, "g", g, a); JV t = BytesV(i.contentFileType, strnlen(i.contentFileType, sizeof(i.contentFileType)), a); Put(o, "t", t, a); JV n = BytesV(i.name.data(), i.name.size(), a); Put(o, "n", n, a); return o;
}
static void SubInto(JV& e, const std::shared_ptr<ISubBlock>& sb, JA& a)
{
    InfoInto(e, sb->GetSubBlockInfo(), a);
    const ISubBlock::MemBlkType T[] = { ISubBlock::MemBlkType::Metadata, ISubBlock::MemBlkType::Data, ISubBlock::MemBlkType::Attachment }; const char* N[] = { "me", "da", "at" };
    for (int k = 0; k < 3; ++k) { size_t n = 0; const void* p = nullptr; sb->DangerousGetRawData(T[k], p, n); size_t n2 = 0; auto sp = sb->GetRawData(T[k], &n2); JV v = (n != n2 || sp.get() != p) ? BytesV(nullptr, 1, a) : BytesV(p, n, a); Put(e, N[k], v, a); }
}
static void BmpInto(JV& e, const std::shared_ptr<IBitmapData>& b, JA& a)
{
    Put(e, "bw", (int)b->GetWidth(), a); Put(e, "bh", (int)b->GetHeight(), a); Put(e, "bp", (int)b->GetPixelType(), a);
    ScopedBitmapLockerSP l(b); int bpp = Utils::GetBytesPerPixel(b->GetPixelType()); size_t line = (size_t)b->GetWidth() * bpp; JV v = Arr(); unsigned x = 0;
    for (std::uint32_t y = 0; y < b->GetHeight(); ++y) { auto p = static_cast<const std::uint8_t*>(l.ptrDataRoi) + (size_t)y * l.stride; for (size_t k = 0; k < line; ++k) { if (v.Size() < 2000) v.PushBack((int)p[k], a); x += p[k]; } }
    Put(e, "by", v, a); (void)x;
}
template <class T> static void Contents(T* rd, const char* who, int nsub, int natt, JV& ev, JA& a)
{
    for (int k = 0; k < nsub; ++k)
    {
        JV e = Obj(); Put(e, "o", "sub", a); Put(e, "who", who, a); Put(e, "k", k, a); std::shared_ptr<ISubBlock> sb; std::string d; std::string r = Guard([&] { sb = rd->ReadSubBlock(k); }, &d); Put(e, "r", r == "ok" && !sb ? "null" : r, a); Put(e, "d", d, a);
        if (sb) SubInto(e, sb, a); ev.PushBack(e, a);
        if (!sb) continue;
        // sizes that could be allocated but only at great cost are left out
        { auto& i = sb->GetSubBlockInfo(); double need = (double)i.physicalSize.w * i.physicalSize.h; if ((need > 4e6 && need < 2.3e9) || i.GetCompressionMode() == CompressionMode::JpgXr) continue; }
        for (int hm = 0; hm < 2; ++hm)
        {
            JV b = Obj(); Put(b, "o", "bmp", a); Put(b, "who", who, a); Put(b, "k", k, a); Put(b, "hm", hm, a); InfoInto(b, sb->GetSubBlockInfo(), a); std::shared_ptr<IBitmapData> bm; CreateBitmapOptions o; o.handle_jpgxr_bitmap_mismatch = o.handle_uncompressed_data_size_mismatch = o.handle_zstd_data_size_mismatch = hm == 1;
            std::string r2 = Guard([&] { bm = sb->CreateBitmap(&o); }); Put(b, "r", r2, a); if (bm) { JV z = Obj(); BmpInto(b, bm, a); } ev.PushBack(b, a);
        }
    }
    for (int k = 0; k < natt; ++k)
    {
        JV e = Obj(); Put(e, "o", "att", a); Put(e, "who", who, a); Put(e, "k", k, a); std::shared_ptr<IAttachment> at; std::string r = Guard([&] { at = rd->ReadAttachment(k); }); Put(e, "r", r == "ok" && !at ? "null" : r, a);
        if (at) { JV i = AttV(at->GetAttachmentInfo(), a); Put(e, "i", i, a); const void* p; size_t n; at->DangerousGetRawData(p, n); size_t n2 = 0; auto sp = at->GetRawData(&n2); JV v = n != n2 ? BytesV(nullptr, 1, a) : BytesV(p, n, a); Put(e, "by", v, a); }
        ev.PushBack(e, a);
    }
    JV e = Obj(); Put(e, "o", "meta", a); Put(e, "who", who, a); std::shared_ptr<IMetadataSegment> ms; std::string r = Guard([&] { ms = rd->ReadMetadataSegment(); }); Put(e, "r", r == "ok" && !ms ? "null" : r, a);
    if (ms)
    {
        const void* p; size_t n; ms->DangerousGetRawData(IMetadataSegment::XmlMetadata, p, n); JV x = BytesV(p, n, a); Put(e, "xml", x, a); ms->DangerousGetRawData(IMetadataSegment::Attachment, p, n); JV t = BytesV(p, n, a); Put(e, "at", t, a);
        std::string c = Guard([&] { auto m = ms->CreateMetaFromMetadataSegment(); m->IsXmlValid(); if (m->IsXmlValid()) { m->GetXml(); auto di = m->GetDocumentInfo(); di->GetScalingInfo(); di->GetGeneralDocumentInfo(); di->GetDimensions(); di->GetDisplaySettings(); di->GetDimensionChannelsInfo(); } }); Put(e, "cm", c, a);
    }
    ev.PushBack(e, a);
}
static void Misc(const std::shared_ptr<ICZIReader>& rd, bool deep, JV& ev, JA& a)
{
    JV e = Obj(); Put(e, "o", "misc", a); JV rs = Arr(); auto put = [&](const std::string& s) { rs.PushBack(JV(s.c_str(), a).Move(), a); };
    put(Guard([&] { rd->GetStatistics(); })); put(Guard([&] { rd->GetPyramidStatistics(); })); put(Guard([&] { SubBlockInfo i; rd->TryGetSubBlockInfoOfArbitrarySubBlockInChannel(0, i); }));
    IntRect roi{ 0, 0, 24, 20 }; put(Guard([&] { rd->EnumSubset(nullptr, &roi, false, [](int, const SubBlockInfo&) { return true; }); }));
    put(Guard([&] { rd->GetFileHeaderInfo(); })); put(Guard([&] { rd->EnumerateSubset("JPG", nullptr, [](int, const AttachmentInfo&) { return true; }); }));
    rd->EnumerateSubBlocks([&](int k, const SubBlockInfo& i) { if (i.GetCompressionMode() == CompressionMode::JpgXr) deep = false; Guard([&] { auto sb = rd->ReadSubBlock(k); if (sb && sb->GetSubBlockInfo().GetCompressionMode() == CompressionMode::JpgXr) deep = false; }); return true; });
    if (deep)
    {
        CDimCoordinate pl = CDimCoordinate::Parse("C0"); CDimCoordinate none;
        for (int v = 0; v < 4; ++v) put(Guard([&] { auto ac = rd->CreateSingleChannelTileAccessor(); ISingleChannelTileAccessor::Options o; o.Clear(); o.sortByM = v & 1; o.useVisibilityCheckOptimization = v & 2; ac->Get(PixelType::Gray8, roi, v & 1 ? &pl : &none, &o); }));
        for (int v = 0; v < 4; ++v) put(Guard([&] { auto ac = rd->CreateSingleChannelScalingTileAccessor(); ISingleChannelScalingTileAccessor::Options o; o.Clear(); o.useVisibilityCheckOptimization = v & 2; ac->Get(PixelType::Gray8, roi, v & 1 ? &pl : &none, v & 2 ? .5f : 1.f, &o); }));
        put(Guard([&] { auto ac = rd->CreateSingleChannelPyramidLayerTileAccessor(); ISingleChannelPyramidLayerTileAccessor::Options o; o.Clear(); ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo pi; pi.minificationFactor = 2; pi.pyramidLayerNo = 1; ac->Get(PixelType::Gray8, roi, &none, pi, &o); }));
    }
    Put(e, "rs", rs, a); ev.PushBack(e, a);
}
static void Ep(const JV& s, JV& ev, JA& a)
{
    std::string hex = S(s, "hex"); Bytes f; for (size_t i = 0; i + 1 < hex.size(); i += 2) f.push_back((std::uint8_t)std::stoi(hex.substr(i, 2), nullptr, 16));
    { JV e = Obj(); Put(e, "o", "file", a); JV b = BytesV(f.data(), f.size(), a); Put(e, "by", b, a); Put(e, "pristine", B(s, "pristine"), a); Put(e, "exact", B(s, "exact"), a); ev.PushBack(e, a); }
    for (auto& op : s["ops"].GetArray())
    {
        std::string o = S(op, "o"); auto mf = std::make_shared<MemFile>(); mf->data = f;
        if (o == "open")
        {
            JV e(op, a); auto rd = CreateCZIReader(); ICZIReader::OpenOptions opt; opt.SetDefault(); opt.lax_subblock_coordinate_checks = B(op, "lax"); opt.ignore_sizem_for_pyramid_subblocks = B(op, "igm"); opt.subBlockDirectoryInfoPolicy = (ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy)I(op, "pol");
            std::string d; std::string r = Guard([&] { rd->Open(mf, B(op, "nul") ? nullptr : &opt); }, &d); Put(e, "r", r, a); Put(e, "d", d, a); int nsub = 0, natt = 0; JV es = Arr(), as = Arr(); bool agree = true;
            if (r == "ok")
            {
                rd->EnumerateSubBlocksEx([&](int k, const DirectorySubBlockInfo& i) { JV x = Obj(); InfoInto(x, i, a); Put(x, "pos", Pos31(i.filePosition), a); es.PushBack(x, a); if (k != nsub) agree = false; ++nsub; SubBlockInfo j; if (!rd->TryGetSubBlockInfo(k, &j) || j.logicalRect.x != i.logicalRect.x || j.logicalRect.h != i.logicalRect.h || j.pixelType != i.pixelType || j.mIndex != i.mIndex || j.pyramidType != i.pyramidType || j.physicalSize.w != i.physicalSize.w) agree = false; return true; });
                rd->EnumerateAttachments([&](int k, const AttachmentInfo& i) { JV x = AttV(i, a); as.PushBack(x, a); if (k != natt) agree = false; ++natt; return true; });
            }
            Put(e, "es", es, a); Put(e, "as", as, a); Put(e, "agree", agree, a); ev.PushBack(e, a);
            if (r == "ok") { Contents(rd.get(), "rd", nsub, natt, ev, a); Misc(rd, B(op, "deep"), ev, a); rd->Close(); }
        }
        else if (o == "edit")
        {
            JV e(op, a); auto rw = CreateCZIReaderWriter(); std::string d; std::string r = Guard([&] { rw->Create(mf); }, &d); Put(e, "r", r, a); Put(e, "d", d, a); int nsub = 0, natt = 0; JV es = Arr(), as = Arr(); bool agree = true;
            if (r == "ok")
            {
                rw->EnumerateSubBlocks([&](int k, const SubBlockInfo& i) { JV x = Obj(); InfoInto(x, i, a); es.PushBack(x, a); if (k != nsub) agree = false; ++nsub; return true; });
                rw->EnumerateAttachments([&](int k, const AttachmentInfo& i) { JV x = AttV(i, a); as.PushBack(x, a); if (k != natt) agree = false; ++natt; return true; });
            }
            Put(e, "es", es, a); Put(e, "as", as, a); Put(e, "agree", agree, a); ev.PushBack(e, a);
            if (r == "ok") { Contents(rw.get(), "rw", nsub, natt, ev, a); JV c = Obj(); Put(c, "o", "close", a); Put(c, "r", Guard([&] { rw->Close(); }), a); Put(c, "same", mf->data == f, a); ev.PushBack(c, a); }
        }
        else { fprintf(stderr, "unknown op %s\n", o.c_str()); exit(3); }
    }
}
static Family fam("parse", Ep);
