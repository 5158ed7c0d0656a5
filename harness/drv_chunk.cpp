// family "chunk": subblock metadata (tags) and the chunk container in the attachment of a subblock
#include "drv_pix.h"
#include <cstring>
#include <cmath>
using namespace libCZI;
static std::string Esc(const std::string& s) { std::string r; for (char c : s) { if (c == '<') r += "&lt;"; else if (c == '>') r += "&gt;"; else if (c == '&') r += "&amp;"; else r += c; } return r; }
static std::string FromCodes(const JV& v) { std::wstring w; for (auto& c : v.GetArray()) w += (wchar_t)c.GetInt(); return Utils::ConvertToUtf8(w); }
static JV CodesV(const std::wstring& w, JA& a) { JV v = Arr(); for (wchar_t c : w) v.PushBack((int)c, a); return v; }
static JV BytesV(const void* p, size_t n, JA& a) { JV v = Arr(); auto q = (const std::uint8_t*)p; for (size_t i = 0; i < n; ++i) v.PushBack((int)q[i], a); return v; }
static JV GuidV(const GUID& g, JA& a)
{
    JV v = Arr(); for (int k = 3; k >= 0; --k) v.PushBack((int)((g.Data1 >> (8 * k)) & 255), a);
    v.PushBack(g.Data2 >> 8, a).PushBack(g.Data2 & 255, a).PushBack(g.Data3 >> 8, a).PushBack(g.Data3 & 255, a); for (int k = 0; k < 8; ++k) v.PushBack((int)g.Data4[k], a); return v;
}
static void Ep(const JV& s, JV& ev, JA& a)
{
    const JV& x = s["xml"]; std::string xml, kind = S(x, "k");
    if (kind == "raw") xml = FromCodes(x["t"]);
    else if (kind == "md")
    {
        xml = std::string("<METADATA>") + (B(x, "pre") ? "<Foo><Tags><A>9</A></Tags></Foo>" : "");
        if (B(x, "tags")) { xml += "<Tags>"; for (auto& t : x["tag"].GetArray()) { std::string n = FromCodes(t["n"]); xml += "<" + n + ">" + Esc(FromCodes(t["v"])) + "</" + n + ">"; } xml += "</Tags>"; }
        if (Has(x, "fmt")) { std::string f = FromCodes(x["fmt"]); xml += "<AttachmentSchema><DataFormat>" + f + "</DataFormat></AttachmentSchema>"; }
        xml += "</METADATA>";
    }
    Bytes att; for (auto& b : s["att"].GetArray()) att.push_back((std::uint8_t)b.GetInt());
    std::unique_ptr<char[]> xm(new char[xml.size() + 1]); std::memcpy(xm.get(), xml.data(), xml.size());
    auto f = std::make_shared<MemFile>(); { auto wr = CreateCZIWriter(); wr->Create(f, nullptr); AddSubBlockInfoMemPtr sb; sb.Clear(); sb.coordinate.Set(DimensionIndex::C, 0); sb.mIndexValid = true; sb.mIndex = 0; sb.x = sb.y = 0; sb.logicalWidth = sb.physicalWidth = 1; sb.logicalHeight = sb.physicalHeight = 1; sb.PixelType = PixelType::Gray8; sb.SetCompressionMode(CompressionMode::UnCompressed); std::uint8_t one = 1; sb.ptrData = &one; sb.dataSize = 1;
        sb.ptrSbBlkMetadata = xm.get(); sb.sbBlkMetadataSize = (std::uint32_t)xml.size(); sb.ptrSbBlkAttachment = att.empty() ? nullptr : att.data(); sb.sbBlkAttachmentSize = (std::uint32_t)att.size(); wr->SyncAddSubBlock(sb); wr->Close(); }
    auto rd = CreateCZIReader(); rd->Open(f); auto blk = rd->ReadSubBlock(0); rd->Close(); rd.reset();
    JV e(s, a); e.RemoveMember("fam"); Put(e, "o", "chunk", a);
    std::shared_ptr<ISubBlockMetadata> md; std::string r = Guard([&] { md = CreateSubBlockMetadataFromSubBlock(blk.get()); }); Put(e, "r", r, a);
    bool valid = md && md->IsXmlValid(); Put(e, "valid", valid, a);
    JV q = Arr();
    for (auto& t : s["q"].GetArray())
    {
        std::wstring name; for (auto& c : t.GetArray()) name += (wchar_t)c.GetInt();
        JV o = Obj(); std::wstring w; double d = -12345; bool bs = false, bd = false; 
        Put(o, "rs", Guard([&] { bs = md->TryGetTagAsString(name, &w); }), a); Put(o, "rd", Guard([&] { bd = md->TryGetTagAsDouble(name, &d); }), a);
        Put(o, "s", bs, a); JV c = CodesV(w, a); Put(o, "v", c, a); Put(o, "d", bd, a); Put(o, "dv", bd ? (std::isfinite(d) ? Clamp((long long)std::llround(std::max(-2e6, std::min(2e6, d)) * 1000)) : 2000000001) : 0, a);
        bool n1 = false, n2 = false; Guard([&] { n1 = md->TryGetTagAsString(name, nullptr); n2 = md->TryGetTagAsDouble(name, nullptr); }); Put(o, "same", n1 == bs && n2 == bd, a); q.PushBack(o, a);
    }
    Put(e, "qr", q, a);
    { std::tuple<double, double> sp{ -1, -1 }; bool b = false; Put(e, "rsp", Guard([&] { b = md->TryGetStagePositionFromTags(&sp); }), a); Put(e, "sp", b, a); Put(e, "spx", b ? Clamp((long long)std::llround(std::max(-2e6, std::min(2e6, std::get<0>(sp))) * 1000)) : 0, a); Put(e, "spy", b ? Clamp((long long)std::llround(std::max(-2e6, std::min(2e6, std::get<1>(sp))) * 1000)) : 0, a); }
    { std::wstring w; bool b = false; Put(e, "rf", Guard([&] { b = md->TryGetAttachmentDataFormat(&w); }), a); Put(e, "hf", b, a); JV c = CodesV(w, a); Put(e, "fv", c, a); }
    std::shared_ptr<ISubBlockAttachmentAccessor> ac; Put(e, "rc", Guard([&] { ac = CreateSubBlockAttachmentAccessor(blk, B(s, "nomd") ? nullptr : md); }), a);
    if (B(s, "drop")) { blk.reset(); md.reset(); }
    Put(e, "has", ac && ac->HasChunkContainer(), a);
    JV ch = Arr(); int stop = I(s, "stop", 1000), seen = 0; bool ret = false; Put(e, "re", Guard([&] { ret = ac->EnumerateChunksInChunkContainer([&](int ix, const ISubBlockAttachmentAccessor::ChunkInfo& ci) { JV o = Obj(); Put(o, "ix", ix, a); JV g = GuidV(ci.guid, a); Put(o, "g", g, a); Put(o, "off", Clamp((unsigned long)ci.offset), a); Put(o, "sz", Clamp((unsigned long)ci.size), a); ch.PushBack(o, a); return ++seen < stop; }); }), a);
    Put(e, "ret", ret, a); Put(e, "ch", ch, a);
    { SubBlockAttachmentMaskInfoGeneral m; m.size_data = 0; std::string r2 = Guard([&] { m = ac->GetValidPixelMaskFromChunkContainer(); }); Put(e, "rg", r2, a); JV o = Obj(); if (r2 == "ok") { Put(o, "w", Clamp((unsigned long)m.width), a); Put(o, "h", Clamp((unsigned long)m.height), a); Put(o, "t", Clamp((unsigned long)m.type_of_representation), a); JV d = BytesV(m.data.get(), m.size_data, a); Put(o, "d", d, a); } Put(e, "mg", o, a); }
    { SubBlockAttachmentMaskInfoUncompressedBitonalBitmap m; m.size_data = 0; std::string r2 = Guard([&] { m = ac->GetValidPixelMaskAsUncompressedBitonalBitmap(); }); Put(e, "ru", r2, a); JV o = Obj(); if (r2 == "ok") { Put(o, "w", Clamp((unsigned long)m.width), a); Put(o, "h", Clamp((unsigned long)m.height), a); Put(o, "st", Clamp((unsigned long)m.stride), a); JV d = BytesV(m.data.get(), m.size_data, a); Put(o, "d", d, a); } Put(e, "mu", o, a); }
    { std::shared_ptr<IBitonalBitmapData> bm; std::string r2 = Guard([&] { bm = ac->CreateBitonalBitmapFromMaskInfo(); }); Put(e, "rb", r2, a); JV o = Obj(); ac.reset();
      if (r2 == "ok") { auto sz = bm->GetSize(); Put(o, "w", Clamp((unsigned long)sz.w), a); Put(o, "h", Clamp((unsigned long)sz.h), a); JV px = Arr(); ScopedBitonalBitmapLockerSP lk{ bm }; if (sz.w < 100000 && sz.h < 100000) for (std::uint32_t y = 0; y < sz.h; ++y) for (std::uint32_t xx = 0; xx < sz.w; ++xx) { auto p = (const std::uint8_t*)lk.ptrData + (size_t)y * lk.stride + xx / 8; px.PushBack((*p >> (7 - xx % 8)) & 1, a); } Put(o, "px", px, a); } Put(e, "mb", o, a); }
    ev.PushBack(e, a);
}
static Family f("chunk", Ep);
