// Family "doc": histories of writer / editor / reader calls on one in-memory file.
#include "drv_doc.h"
#include <cstring>
#include <set>
#include <algorithm>
using namespace libCZI;

JV InfoV(const SubBlockInfo& i, JA& a)
{
    JV o = Obj(); JV c = CoordV(&i.coordinate, a); Put(o, "c", c, a);
    bool hm = Utils::IsValidMindex(i.mIndex);
    Put(o, "hm", hm, a); Put(o, "m", hm ? i.mIndex : 0, a);
    Put(o, "x", i.logicalRect.x, a); Put(o, "y", i.logicalRect.y, a); Put(o, "w", i.logicalRect.w, a); Put(o, "h", i.logicalRect.h, a);
    Put(o, "pw", (int)i.physicalSize.w, a); Put(o, "ph", (int)i.physicalSize.h, a);
    Put(o, "pt", (int)i.pixelType, a); Put(o, "cmp", Clamp((long long)i.compressionModeRaw), a); Put(o, "pyr", (int)i.pyramidType, a);
    return o;
}
static JV RectV(const IntRect& r, JA& a)
{
    JV v = Arr(); if (r.IsValid()) { v.PushBack(r.x, a); v.PushBack(r.y, a); v.PushBack(r.w, a); v.PushBack(r.h, a); } return v;
}
JV StatsV(const SubBlockStatistics& s, JA& a)
{
    JV o = Obj(); Put(o, "cnt", s.subBlockCount, a);
    bool mv = s.IsMIndexValid(); Put(o, "mv", mv, a); Put(o, "mmin", mv ? s.minMindex : 0, a); Put(o, "mmax", mv ? s.maxMindex : 0, a);
    JV b = RectV(s.boundingBox, a); Put(o, "bb", b, a); JV b0 = RectV(s.boundingBoxLayer0Only, a); Put(o, "bb0", b0, a);
    JV d = Arr();
    for (const char* p = "ZCTRSIHVB"; *p; ++p)
    {
        int st, sz; if (s.dimBounds.TryGetInterval(Utils::CharToDimension(*p), &st, &sz)) { JV e = Arr(); e.PushBack(JV(std::string(1, *p), a).Move(), a); e.PushBack(st, a); e.PushBack(sz, a); d.PushBack(e, a); }
    }
    Put(o, "dims", d, a);
    JV sc = Arr();
    for (auto& kv : s.sceneBoundingBoxes) { JV e = Obj(); Put(e, "s", kv.first, a); JV r1 = RectV(kv.second.boundingBox, a); Put(e, "bb", r1, a); JV r2 = RectV(kv.second.boundingBoxLayer0, a); Put(e, "bb0", r2, a); sc.PushBack(e, a); }
    Put(o, "sc", sc, a);
    return o;
}
JV PyrV(const PyramidStatistics& p, JA& a)
{
    JV v = Arr();
    for (auto& kv : p.scenePyramidStatistics)
    {
        JV e = Obj(); Put(e, "s", kv.first == (std::numeric_limits<int>::max)() ? -1000000 : kv.first, a); JV l = Arr();
        for (auto& x : kv.second) { JV t = Arr(); t.PushBack((int)x.layerInfo.minificationFactor, a); t.PushBack((int)x.layerInfo.pyramidLayerNo, a); t.PushBack(x.count, a); l.PushBack(t, a); }
        Put(e, "l", l, a); v.PushBack(e, a);
    }
    return v;
}
static JV AttInfoV(const AttachmentInfo& i, JA& a)
{
    JV o = Obj(); Put(o, "g", GuidTo(i.contentGuid), a);
    Put(o, "ft", std::string(i.contentFileType, strnlen(i.contentFileType, 9)), a); Put(o, "nm", i.name, a); return o;
}
static Bytes BytesFrom(const JV& v, const char* k)
{
    if (!Has(v, k)) return Bytes();
    const JV& d = v[k];
    if (d.IsString()) return Bytes(d.GetString(), d.GetString() + d.GetStringLength());
    if (d.IsArray()) { Bytes b; for (auto& x : d.GetArray()) b.push_back((std::uint8_t)x.GetInt()); return b; }
    return Gen((size_t)I(d, "len"), (unsigned)I(d, "seed"));
}
static void FillBase(AddSubBlockInfoBase& b, const JV& it)
{
    b.Clear(); b.coordinate = CoordFrom(it["c"]); b.mIndexValid = B(it, "hm"); b.mIndex = b.mIndexValid ? I(it, "m") : 0;
    b.x = I(it, "x"); b.y = I(it, "y"); b.logicalWidth = I(it, "w"); b.logicalHeight = I(it, "h"); b.physicalWidth = I(it, "pw"); b.physicalHeight = I(it, "ph");
    b.PixelType = (PixelType)I(it, "pt"); b.pyramid_type = (SubBlockPyramidType)I(it, "pyr"); b.compressionModeRaw = I(it, "cmp");
}
// performs the add through the chosen entry point; records in evit what was handed over
template <class FBase, class FMem, class FLine, class FStr>
static std::string DoAdd(const JV& it, JV& evit, JA& a, FBase fb, FMem fm, FLine fl, FStr fs, std::string* det)
{
    std::string via = S(it, "via", "mem");
    Bytes d = BytesFrom(it, "d"), md = BytesFrom(it, "md"), at = BytesFrom(it, "at");
    JV c = JV(it["c"], a); { CDimCoordinate cc = CoordFrom(it["c"]); c = CoordV(&cc, a); }
    Put(evit, "c", c, a); bool hm = B(it, "hm"); Put(evit, "hm", hm, a); Put(evit, "m", hm ? I(it, "m") : 0, a);
    for (const char* k : { "x","y","w","h","pw","ph","pt","cmp","pyr" }) Put(evit, k, Clamp((long long)I(it, k)), a);
    auto own = [](const Bytes& b) { return b.empty() ? nullptr : (const void*)b.data(); };
    std::string r;
    if (via == "line" || via == "strided")
    {
        int bpp = Utils::GetBytesPerPixel((PixelType)I(it, "pt")); size_t row = (size_t)bpp * I(it, "pw"); int h = I(it, "ph");
        size_t stride = row + (size_t)I(it, "pad"); if (stride * h > d.size()) d = Gen(stride * h, (unsigned)I(it, "seed2", 7));
        // exact-size heap block so that the memory checker sees every over-read
        size_t need = h > 0 ? stride * (h - 1) + row : 0; std::unique_ptr<std::uint8_t[]> buf(new std::uint8_t[need ? need : 1]); if (need) std::memcpy(buf.get(), d.data(), need);
        Bytes packed; for (int y = 0; y < h; ++y) packed.insert(packed.end(), buf.get() + y * stride, buf.get() + y * stride + row);
        JV v1 = DigestV(packed.data(), packed.size(), a); Put(evit, "d", v1, a);
        if (via == "line")
        {
            AddSubBlockInfoLinewiseBitmap s; FillBase(s, it); s.getBitmapLine = [&](int l)->const void* { return buf.get() + (size_t)l * stride; };
            s.ptrSbBlkMetadata = own(md); s.sbBlkMetadataSize = (std::uint32_t)md.size(); s.ptrSbBlkAttachment = own(at); s.sbBlkAttachmentSize = (std::uint32_t)at.size();
            r = Guard([&] { fl(s); }, det);
        }
        else
        {
            AddSubBlockInfoStridedBitmap s; FillBase(s, it); s.ptrBitmap = buf.get(); s.strideBitmap = (std::uint32_t)stride;
            s.ptrSbBlkMetadata = own(md); s.sbBlkMetadataSize = (std::uint32_t)md.size(); s.ptrSbBlkAttachment = own(at); s.sbBlkAttachmentSize = (std::uint32_t)at.size();
            r = Guard([&] { fs(s); }, det);
        }
    }
    else if (via == "func")
    {
        int chunk = I(it, "chunk", 0); size_t shortBy = (size_t)I(it, "short", 0);
        Bytes eff = d; if (shortBy) { size_t n = shortBy > d.size() ? d.size() : shortBy; std::fill(eff.end() - n, eff.end(), 0); }
        JV v1 = DigestV(eff.data(), eff.size(), a); Put(evit, "d", v1, a);
        size_t over = shortBy ? 0 : (size_t)I(it, "over", 0); std::vector<Bytes> ext; ext.reserve(3);   // the callback may offer more than is asked for
        auto mk = [chunk, over, &ext](const Bytes& b0, size_t avail0) {
            ext.push_back(b0); ext.back().resize(b0.size() + over, 0xA5); const Bytes& b = ext.back(); size_t avail = avail0 + over;
            return [&b, chunk, avail](int cnt, size_t off, const void*& p, size_t& sz)->bool {
                if (off >= avail) return false; p = b.data() + off; sz = avail - off; if (chunk > 0 && sz > (size_t)chunk) sz = (size_t)chunk; return true; }; };
        AddSubBlockInfo s; FillBase(s, it); s.sizeData = d.size(); s.sizeMetadata = md.size(); s.sizeAttachment = at.size();
        bool nul = B(it, "nullf");
        if (!nul) s.getData = mk(d, d.size() - (shortBy > d.size() ? d.size() : shortBy)); s.getMetaData = mk(md, md.size()); s.getAttachment = mk(at, at.size());
        r = Guard([&] { fb(s); }, det);
    }
    else
    {
        JV v1 = DigestV(d.data(), d.size(), a); Put(evit, "d", v1, a);
        AddSubBlockInfoMemPtr s; FillBase(s, it); s.ptrData = own(d); s.dataSize = (std::uint32_t)d.size();
        s.ptrSbBlkMetadata = own(md); s.sbBlkMetadataSize = (std::uint32_t)md.size(); s.ptrSbBlkAttachment = own(at); s.sbBlkAttachmentSize = (std::uint32_t)at.size();
        r = Guard([&] { fm(s); }, det);
    }
    JV v2 = DigestV(md.data(), md.size(), a); Put(evit, "md", v2, a); JV v3 = DigestV(at.data(), at.size(), a); Put(evit, "at", v3, a);
    Put(evit, "nullf", via == "func" && B(it, "nullf") && !d.empty(), a);
    return r;
}
static AddAttachmentInfo AttFrom(const JV& op, const Bytes& d)
{
    AddAttachmentInfo i; i.Clear(); i.contentGuid = GuidFrom(I(op, "g")); i.SetContentFileType(S(op, "ft").c_str()); i.SetName(S(op, "nm").c_str());
    i.ptrData = d.empty() ? nullptr : d.data(); i.dataSize = (std::uint32_t)d.size(); return i;
}
static JV AttV(const JV& op, const Bytes& d, JA& a)
{
    JV o = Obj(); Put(o, "g", I(op, "g"), a); Put(o, "ft", S(op, "ft").substr(0, 8), a); Put(o, "nm", S(op, "nm").substr(0, 80), a); JV v = DigestV(d.data(), d.size(), a); Put(o, "d", v, a); return o;
}
static JV MetaV(const std::shared_ptr<IMetadataSegment>& m, JA& a)
{
    JV o = Obj(); Put(o, "has", (bool)m, a);
    const void* p = nullptr; size_t n = 0; if (m) m->DangerousGetRawData(IMetadataSegment::XmlMetadata, p, n); JV v = DigestV(p, n, a); Put(o, "d", v, a);
    p = nullptr; n = 0; if (m) m->DangerousGetRawData(IMetadataSegment::Attachment, p, n); JV w = DigestV(p, n, a); Put(o, "a", w, a);
    return o;
}
template <class R>
static void DumpRepo(R* rep, JV& e, JA& a, bool content)
{
    JV sbs = Arr(); std::vector<int> keys;
    rep->EnumerateSubBlocks([&](int idx, const SubBlockInfo& i) { JV o = Obj(); Put(o, "k", idx, a); JV iv = InfoV(i, a); Put(o, "i", iv, a); sbs.PushBack(o, a); keys.push_back(idx); return true; });
    for (size_t n = 0; n < keys.size(); ++n)
    {
        JV& o = sbs[(rapidjson::SizeType)n];
        SubBlockInfo qi; bool q = rep->TryGetSubBlockInfo(keys[n], &qi); Put(o, "q", q, a); if (q) { JV v = InfoV(qi, a); Put(o, "qi", v, a); } else { JV v = Obj(); Put(o, "qi", v, a); }
        if (!content) continue;
        std::string r; std::shared_ptr<ISubBlock> sb; r = Guard([&] { sb = rep->ReadSubBlock(keys[n]); });
        if (r == "ok" && !sb) r = "null";
        Put(o, "r", r, a);
        if (sb)
        {
            JV v = InfoV(sb->GetSubBlockInfo(), a); Put(o, "s", v, a);
            struct { const char* k; ISubBlock::MemBlkType t; } parts[] = { {"d",ISubBlock::Data},{"md",ISubBlock::Metadata},{"at",ISubBlock::Attachment} };
            for (auto& p : parts)
            {
                size_t n2 = 0; auto ptr = sb->GetRawData(p.t, &n2); const void* dp = nullptr; size_t dn = 0; sb->DangerousGetRawData(p.t, dp, dn);
                JV dv = DigestV(ptr.get(), n2, a); if (n2 != dn || (n2 && std::memcmp(dp, ptr.get(), n2))) { dv = Arr(); dv.PushBack(-1, a); dv.PushBack(-1, a); }
                Put(o, p.k, dv, a);
            }
        }
        else
        {
            for (const char* k : { "d","md","at" }) { JV dv = Arr(); Put(o, k, dv, a); } JV v = Obj(); Put(o, "s", v, a);
        }
    }
    Put(e, "sbs", sbs, a);
    JV at = Arr(); keys.clear();
    rep->EnumerateAttachments([&](int idx, const AttachmentInfo& i) { JV o = Obj(); Put(o, "k", idx, a); JV iv = AttInfoV(i, a); Put(o, "i", iv, a); at.PushBack(o, a); keys.push_back(idx); return true; });
    for (size_t n = 0; n < keys.size(); ++n)
    {
        JV& o = at[(rapidjson::SizeType)n];
        AttachmentInfo qi; bool q = rep->TryGetAttachmentInfo(keys[n], &qi); Put(o, "q", q, a); if (q) { JV v = AttInfoV(qi, a); Put(o, "qi", v, a); } else { JV v = Obj(); Put(o, "qi", v, a); }
        if (!content) continue;
        std::shared_ptr<IAttachment> at1; std::string r = Guard([&] { at1 = rep->ReadAttachment(keys[n]); }); if (r == "ok" && !at1) r = "null";
        Put(o, "r", r, a);
        if (at1) { const void* p; size_t sz; at1->DangerousGetRawData(p, sz); JV dv = DigestV(p, sz, a); Put(o, "d", dv, a); JV v = AttInfoV(at1->GetAttachmentInfo(), a); Put(o, "s", v, a); }
        else { JV dv = Arr(); Put(o, "d", dv, a); JV v = Obj(); Put(o, "s", v, a); }
    }
    Put(e, "atts", at, a);
    Put(e, "nat", rep->GetAttachmentCount(), a);
    JV st = StatsV(rep->GetStatistics(), a); Put(e, "st", st, a);
    JV py = PyrV(rep->GetPyramidStatistics(), a); Put(e, "py", py, a);
}
static ICZIReader::OpenOptions OptsFrom(const JV& op)
{
    ICZIReader::OpenOptions o; o.SetDefault();
    if (Has(op, "lax")) o.lax_subblock_coordinate_checks = B(op, "lax");
    if (Has(op, "ignm")) o.ignore_sizem_for_pyramid_subblocks = B(op, "ignm");
    if (Has(op, "frame")) o.default_frame_of_reference = (CZIFrameOfReference)I(op, "frame");
    if (Has(op, "pol")) o.subBlockDirectoryInfoPolicy = (ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy)I(op, "pol");
    return o;
}
// read everything; safe on arbitrary bytes (every step guarded)
void DumpFile(const std::shared_ptr<IStream>& f, const JV& op, JV& e, JA& a)
{
    auto rd = CreateCZIReader(); auto o = OptsFrom(op); std::string det;
    std::string r = Guard([&] { rd->Open(f, &o); }, &det);
    JV m = Obj(); int g = 0;
    if (r == "ok")
    {
        r = Guard([&] { DumpRepo(rd.get(), e, a, true); }, &det);
        Put(e, "r", r, a);
        std::shared_ptr<IMetadataSegment> ms; std::string mr = Guard([&] { ms = rd->ReadMetadataSegment(); }); Put(e, "mr", mr, a);
        m = MetaV(ms, a);
        g = GuidTo(rd->GetFileHeaderInfo().fileGuid);
        JV ai = Arr(); for (int c = -1; c <= 4; ++c) { SubBlockInfo si; JV x = Obj(); bool b = false; std::string rr = Guard([&] { b = rd->TryGetSubBlockInfoOfArbitrarySubBlockInChannel(c, si); }); Put(x, "c", c, a); Put(x, "r", rr, a); Put(x, "b", b, a); JV y = b ? InfoV(si, a) : Obj(); Put(x, "i", y, a); ai.PushBack(x, a); }
        Put(e, "arb", ai, a);
        rd->Close();
    }
    else { Put(e, "r", r, a); Put(e, "mr", "none", a); }
    Put(e, "g", g, a); Put(e, "meta", m, a);
}
// ---------- independent raw layout scan ----------
static std::uint64_t rd64(const Bytes& b, size_t o) { std::uint64_t v = 0; for (int i = 7; i >= 0; --i) v = v << 8 | (o + i < b.size() ? b[o + i] : 0); return v; }
static std::int32_t rd32(const Bytes& b, size_t o) { std::uint32_t v = 0; for (int i = 3; i >= 0; --i) v = v << 8 | (o + i < b.size() ? b[o + i] : 0); return (std::int32_t)v; }
static int cl(std::uint64_t v) { return Clamp((unsigned long)v); }
static JV EntryDV(const Bytes& b, size_t o, JA& a, size_t* len)
{
    JV e = Obj(); bool dv = o + 32 <= b.size() && b[o] == 'D' && b[o + 1] == 'V'; Put(e, "dv", dv, a);
    int dc = dv ? rd32(b, o + 28) : -1; if (dc < 0 || dc > 40 || o + 32 + 20 * (size_t)dc > b.size()) { dc = -1; }
    Put(e, "ok", dc >= 0, a); Put(e, "pt", dc >= 0 ? rd32(b, o + 2) : 0, a); Put(e, "fp", dc >= 0 ? cl(rd64(b, o + 6)) : 0, a); Put(e, "part", dc >= 0 ? rd32(b, o + 14) : 0, a); Put(e, "cmp", dc >= 0 ? rd32(b, o + 18) : 0, a); Put(e, "pyr", dc >= 0 ? (int)b[o + 22] : 0, a);
    JV ds = Arr();
    std::vector<std::pair<std::string, std::array<int, 3>>> dims;
    for (int i = 0; i < dc; ++i) { size_t q = o + 32 + 20 * i; std::string nm; for (int k = 0; k < 4 && b[q + k]; ++k) nm += (char)b[q + k]; dims.push_back({ nm, { rd32(b, q + 4), rd32(b, q + 8), rd32(b, q + 16) } }); }
    std::sort(dims.begin(), dims.end());
    for (auto& d : dims) { JV t = Arr(); t.PushBack(JV(d.first, a).Move(), a); for (int k : d.second) t.PushBack(k, a); ds.PushBack(t, a); }
    Put(e, "dims", ds, a); *len = dc >= 0 ? 32 + 20 * (size_t)dc : 0; return e;
}
void Layout(const Bytes& b, JV& e, JA& a)
{
    Put(e, "size", cl(b.size()), a);
    JV h = Obj(); bool hok = b.size() >= 544 && !std::memcmp(b.data(), "ZISRAWFILE\0\0\0\0\0\0", 16); Put(h, "ok", hok, a);
    std::uint64_t dp = hok ? rd64(b, 32 + 52) : 0, mp = hok ? rd64(b, 32 + 60) : 0, ap = hok ? rd64(b, 32 + 72) : 0;
    Put(h, "dir", cl(dp), a); Put(h, "meta", cl(mp), a); Put(h, "att", cl(ap), a); Put(h, "upd", hok ? rd32(b, 32 + 68) : 0, a); Put(e, "hdr", h, a);
    JV segs = Arr(); std::uint64_t pos = 0; bool ok = true;
    while (pos + 32 <= b.size() && segs.Size() < 4000)
    {
        std::string id; for (int i = 0; i < 16 && b[pos + i]; ++i) id += (char)b[pos + i];
        std::uint64_t al = rd64(b, pos + 16), us = rd64(b, pos + 24); bool sane = id == "DELETED" || id.rfind("ZISRAW", 0) == 0;
        if (!sane || al > (1ull << 40)) { ok = false; break; }
        JV s = Obj(); Put(s, "p", cl(pos), a); Put(s, "id", id, a); Put(s, "al", cl(al), a); Put(s, "us", cl(us), a);
        // the parts a segment declares (sizes of its payload) for the used-size equation
        int need = -1;
        if (id == "ZISRAWSUBBLOCK") { size_t l; std::uint64_t q = pos + 32; std::uint64_t ms = (std::uint32_t)rd32(b, q), as = (std::uint32_t)rd32(b, q + 4), ds = rd64(b, q + 8); JV en = EntryDV(b, q + 16, a, &l); std::uint64_t fix = std::max<std::uint64_t>(256, 16 + l); need = cl(fix + ms + as + ds); Put(s, "en", en, a); }
        else if (id == "ZISRAWMETADATA") need = cl(256ull + (std::uint32_t)rd32(b, pos + 32) + (std::uint32_t)rd32(b, pos + 36));
        else if (id == "ZISRAWATTACH") { need = cl(256ull + (std::uint32_t)rd32(b, pos + 32)); JV en = Arr(); en.PushBack(Digest(b.data() + std::min<size_t>(b.size(), pos + 48 + 12 + 8), pos + 48 + 128 <= b.size() ? 12 + 16 + 8 + 80 - 8 - 12 + 4 : 0), a); en.PushBack(cl(rd64(b, pos + 48 + 12)), a); Put(s, "en", en, a); }
        else if (id == "ZISRAWDIRECTORY") need = -1;
        Put(s, "need", need, a);
        segs.PushBack(s, a);
        if (al + 32 == 0 || pos + 32 + al < pos) break;
        pos += 32 + al;
    }
    Put(e, "segs", segs, a); Put(e, "chainok", ok, a); Put(e, "end", cl(pos), a);
    JV dir = Arr(); int dcount = -1; std::uint64_t dlen = 0;
    if (dp && dp + 160 <= b.size()) { dcount = rd32(b, dp + 32); size_t q = dp + 160; for (int i = 0; i < dcount && i < 3000; ++i) { size_t l; JV en = EntryDV(b, q, a, &l); dir.PushBack(en, a); if (!l) break; q += l; } dlen = q - dp - 32; }
    Put(e, "dir", dir, a); Put(e, "dcount", dcount, a); Put(e, "dlen", cl(dlen), a);
    JV ad = Arr(); int acount = -1;
    if (ap && ap + 32 + 256 <= b.size()) { acount = rd32(b, ap + 32); size_t q = ap + 32 + 256; for (int i = 0; i < acount && i < 3000; ++i, q += 128) { bool ok1 = q + 128 <= b.size() && b[q] == 'A' && b[q + 1] == '1'; JV en = Obj(); Put(en, "ok", ok1, a); Put(en, "fp", ok1 ? cl(rd64(b, q + 12)) : 0, a); Put(en, "dg", ok1 ? Digest(b.data() + q + 20, 12 + 16 + 8 + 80 - 8 - 12 + 4) : 0, a); ad.PushBack(en, a); } }
    Put(e, "adir", ad, a); Put(e, "acount", acount, a);
}
// ---------- a hole behind the file header: everything else moves to positions beyond it ----------
static void wr64(Bytes& b, size_t o, std::uint64_t v) { for (int i = 0; i < 8; ++i) if (o + i < b.size()) b[o + i] = (std::uint8_t)(v >> (8 * i)); }
// moves every position in the file by delta; phys maps an (unmoved) position to an index into b
static void Relocate(Bytes& b, std::uint64_t delta, const std::function<size_t(std::uint64_t)>& phys)
{
    auto mv = [&](size_t o) { std::uint64_t v = rd64(b, o); if (v) wr64(b, o, v + delta); return v; };
    std::uint64_t dp = mv(32 + 52); mv(32 + 60); std::uint64_t ap = mv(32 + 72);
    if (dp && phys(dp) + 160 <= b.size())
    {
        int n = rd32(b, phys(dp) + 32); size_t q = phys(dp) + 160;
        for (int i = 0; i < n && i < 3000 && q + 32 <= b.size(); ++i) { int dc = rd32(b, q + 28); if (dc < 0 || dc > 40) break; std::uint64_t p = mv(q + 6); if (p) mv(phys(p) + 32 + 16 + 6); q += 32 + 20 * (size_t)dc; }
    }
    if (ap && phys(ap) + 288 <= b.size())
    {
        int n = rd32(b, phys(ap) + 32); size_t q = phys(ap) + 288;
        for (int i = 0; i < n && i < 3000 && q + 128 <= b.size(); ++i, q += 128) { std::uint64_t p = mv(q + 12); if (p) mv(phys(p) + 48 + 12); }
    }
}
void Stretch(MemFile& f, std::uint64_t hole)
{
    if (f.hole || f.data.size() < 576 || std::memcmp(f.data.data(), "ZISRAWFILE", 10)) return;
    Bytes seg(32, 0); std::memcpy(seg.data(), "DELETED", 7); wr64(seg, 16, hole);
    f.data.insert(f.data.begin() + 544, seg.begin(), seg.end());
    Relocate(f.data, 32 + hole, [](std::uint64_t p) { return (size_t)(p + 32); });
    f.holeAt = 576; f.hole = hole;
}
Bytes Unstretched(const MemFile& f)
{
    Bytes b = f.data; if (!f.hole) return b;
    std::uint64_t s = 32 + f.hole; Relocate(b, 0 - s, [&](std::uint64_t p) { return (size_t)(p >= 544 + s ? p - f.hole : p); });
    if (b.size() >= 576) b.erase(b.begin() + 544, b.begin() + 576);
    return b;
}
// --------------------------------------------------
void Doc::Run(const JV& op, JV& ev, JA& a)
{
    std::string o = S(op, "op"); JV e = Obj(); Put(e, "op", o, a); std::string det, r;
    auto fin = [&] { Put(e, "r", r, a); if (r != "ok" && !det.empty()) Put(e, "msg", det.substr(0, 100), a); ev.PushBack(e, a); };
    int w0 = file->faultsHit;
    auto hits = [&] { Put(e, "fh", file->faultsHit - w0, a); };
    if (o == "w_new") { CZIWriterOptions wo; wo.allow_duplicate_subblocks = B(op, "dup"); writer = CreateCZIWriter(&wo); r = "ok"; Put(e, "dup", B(op, "dup"), a); fin(); }
    else if (o == "newfile") { file = std::make_shared<MemFile>(); r = "ok"; fin(); }
    else if (o == "fault")
    {
        file->wfault.clear(); file->rfault.clear(); file->writeCalls = file->readCalls = 0; file->wfaultAllAfter = Has(op, "wall"); file->wfaultAllFrom = I(op, "wall");
        if (Has(op, "w")) for (auto& x : op["w"].GetArray()) file->wfault[x[0].GetInt()] = x[1].GetInt();
        if (Has(op, "rd")) for (auto& x : op["rd"].GetArray()) file->rfault[x[0].GetInt()] = x[1].GetInt();
        r = "ok"; fin();
    }
    else if (o == "w_create")
    {
        auto info = std::make_shared<CCziWriterInfo>(GuidFrom(I(op, "g")));
        JV bd = Arr(); bool hb = Has(op, "bounds"); if (hb) { CDimBounds b; for (auto& x : op["bounds"].GetArray()) { b.Set(Utils::CharToDimension(x[0].GetString()[0]), x[1].GetInt(), x[2].GetInt()); bd.PushBack(Copy(x, a), a); } info->SetDimBounds(&b); }
        bool hmb = Has(op, "mb"); JV mb = Arr(); if (hmb) { info->SetMIndexBounds(op["mb"][0].GetInt(), op["mb"][1].GetInt()); mb = Copy(op["mb"], a); }
        if (Has(op, "ra")) info->SetReservedSizeForAttachmentsDirectory(true, (size_t)I(op, "ra"));
        if (Has(op, "rs")) info->SetReservedSizeForSubBlockDirectory(true, (size_t)I(op, "rs"));
        if (Has(op, "rm")) info->SetReservedSizeForMetadataSegment(true, (size_t)I(op, "rm"));
        Put(e, "g", I(op, "g"), a); Put(e, "hb", hb, a); Put(e, "bounds", bd, a); Put(e, "hmb", hmb, a); Put(e, "mb", mb, a); Put(e, "noinfo", B(op, "noinfo"), a);
        r = Guard([&] { writer->Create(file, B(op, "noinfo") ? nullptr : std::shared_ptr<ICziWriterInfo>(info)); }, &det); hits(); fin();
    }
    else if (o == "w_add")
    {
        JV it = Obj(); auto* w = writer.get();
        r = DoAdd(op["it"], it, a, [&](const AddSubBlockInfo& s) { w->SyncAddSubBlock(s); }, [&](const AddSubBlockInfoMemPtr& s) { w->SyncAddSubBlock(s); }, [&](const AddSubBlockInfoLinewiseBitmap& s) { w->SyncAddSubBlock(s); }, [&](const AddSubBlockInfoStridedBitmap& s) { w->SyncAddSubBlock(s); }, &det);
        Put(e, "it", it, a); hits(); fin();
    }
    else if (o == "w_att" || o == "e_att")
    {
        Bytes d = BytesFrom(op, "d"); auto i = AttFrom(op, d); JV at = AttV(op, d, a); Put(e, "at", at, a);
        bool nul = B(op, "nulp") && !d.empty(); if (nul) i.ptrData = nullptr; Put(e, "nulp", nul, a);
        if (o[0] == 'w') r = Guard([&] { writer->SyncAddAttachment(i); }, &det); else r = Guard([&] { editor->SyncAddAttachment(i); }, &det);
        hits(); if (o[0] == 'e') EdState(e, a); fin();
    }
    else if (o == "w_meta" || o == "e_meta")
    {
        Bytes d = BytesFrom(op, "d"), at = BytesFrom(op, "a"); WriteMetadataInfo i; i.Clear(); i.szMetadata = d.empty() ? nullptr : (const char*)d.data(); i.szMetadataSize = d.size(); i.ptrAttachment = at.empty() ? nullptr : at.data(); i.attachmentSize = at.size();
        bool nul = B(op, "nulp") && !d.empty(); if (nul) i.szMetadata = nullptr; Put(e, "nulp", nul, a);
        JV v = DigestV(d.data(), d.size(), a); Put(e, "d", v, a); JV w = DigestV(at.data(), at.size(), a); Put(e, "a", w, a);
        if (o[0] == 'w') r = Guard([&] { writer->SyncWriteMetadata(i); }, &det); else r = Guard([&] { editor->SyncWriteMetadata(i); }, &det);
        hits(); if (o[0] == 'e') EdState(e, a); fin();
    }
    else if (o == "w_stats") { SubBlockStatistics s; r = Guard([&] { s = writer->GetStatistics(); }, &det); if (r == "ok") { JV st = StatsV(s, a); Put(e, "st", st, a); } fin(); }
    else if (o == "w_prep")
    {
        std::shared_ptr<ICziMetadataBuilder> b; int nm = I(op, "nm"); Put(e, "nm", nm, a);
        r = Guard([&] { PrepareMetadataInfo pi; if (nm) pi.funcGenerateIdAndNameForChannel = [nm](int c) { return std::make_tuple("K" + std::to_string(c), std::make_tuple(nm > 1, "N" + std::to_string(c))); }; b = writer->GetPreparedMetadata(pi); b->GetXml(); }, &det);
        if (r == "ok")
        {
            auto root = b->GetRootNode(); const char* base = "Metadata/Information/Image/"; auto txt = [&](const std::shared_ptr<IXmlNodeRead>& n) { std::wstring v; return n && n->TryGetValue(&v) ? std::string(v.begin(), v.end()) : std::string(); };
            JV sz = Arr(); for (const char* q = "XYMZCTRSIHVB"; *q; ++q) { std::string t = txt(root->GetChildNodeReadonly((std::string(base) + "Size" + *q).c_str())); if (!t.empty()) { JV x = Arr(); x.PushBack(JV(std::string(1, *q), a).Move(), a); x.PushBack(std::atoi(t.c_str()), a); sz.PushBack(x, a); } } Put(e, "sz", sz, a);
            Put(e, "ipt", txt(root->GetChildNodeReadonly((std::string(base) + "PixelType").c_str())), a); JV ch = Arr(); auto cs = root->GetChildNodeReadonly((std::string(base) + "Dimensions/Channels").c_str());
            if (cs) cs->EnumChildren([&](std::shared_ptr<IXmlNodeRead> n) { std::wstring id, na; n->TryGetAttribute(L"Id", &id); n->TryGetAttribute(L"Name", &na); JV x = Arr(); x.PushBack(JV(std::string(id.begin(), id.end()), a).Move(), a); x.PushBack(JV(std::string(na.begin(), na.end()), a).Move(), a); x.PushBack(JV(txt(n->GetChildNodeReadonly("PixelType")), a).Move(), a); ch.PushBack(x, a); return true; });
            Put(e, "chs", ch, a);
        }
        fin();
    }
    else if (o == "w_close") { r = Guard([&] { writer->Close(); }, &det); hits(); fin(); }
    else if (o == "e_new") { editor = CreateCZIReaderWriter(); r = "ok"; fin(); }
    else if (o == "e_create")
    {
        auto info = std::make_shared<CCziReaderWriterInfo>(GuidFrom(I(op, "g"))); info->SetForceFileGuid(B(op, "force"));
        Put(e, "g", I(op, "g"), a); Put(e, "force", B(op, "force"), a); Put(e, "empty", file->data.empty(), a); bool ni = B(op, "noinfo"); Put(e, "noinfo", ni, a);
        r = Guard([&] { if (ni) editor->Create(file); else editor->Create(file, info); }, &det); hits(); file->wfault.clear(); file->rfault.clear(); file->wfaultAllAfter = false;
        if (r == "ok") { JV d = Obj(); EdDump(d, a); Put(e, "dump", d, a); }
        fin();
    }
    else if (o == "e_add")
    {
        JV it = Obj(); auto* w = editor.get();
        r = DoAdd(op["it"], it, a, [&](const AddSubBlockInfo& s) { w->SyncAddSubBlock(s); }, [&](const AddSubBlockInfoMemPtr& s) { w->SyncAddSubBlock(s); }, [&](const AddSubBlockInfoLinewiseBitmap& s) { w->SyncAddSubBlock(s); }, [&](const AddSubBlockInfoStridedBitmap& s) { w->SyncAddSubBlock(s); }, &det);
        Put(e, "it", it, a); hits(); EdState(e, a); fin();
    }
    else if (o == "e_rep" || o == "e_rem" || o == "e_attrep" || o == "e_attrem")
    {
        bool isAtt = o.rfind("e_att", 0) == 0; std::vector<int> keys;
        std::string pre = Guard([&] { if (isAtt) editor->EnumerateAttachments([&](int k, const AttachmentInfo&) { keys.push_back(k); return true; }); else editor->EnumerateSubBlocks([&](int k, const SubBlockInfo&) { keys.push_back(k); return true; }); });
        int key; int sel = I(op, "sel", -1);
        if (Has(op, "key")) key = I(op, "key"); else if (keys.empty() || sel < 0) { key = 100000 + (sel < 0 ? -sel : sel); } else key = keys[(size_t)sel % keys.size()];
        Put(e, "key", key, a);
        if (o == "e_rep")
        {
            JV it = Obj(); auto* w = editor.get(); JV src(op["it"], a);
            if (B(op, "same") && pre == "ok")   // keep identity (coordinate, m, position) of the replaced one
            {
                SubBlockInfo i; if (editor->TryGetSubBlockInfo(key, &i)) { JV c = CoordV(&i.coordinate, a); src["c"] = c; bool hm = Utils::IsValidMindex(i.mIndex); src["hm"] = hm; src["m"] = hm ? i.mIndex : 0; src["x"] = i.logicalRect.x; src["y"] = i.logicalRect.y; src["w"] = i.logicalRect.w; src["h"] = i.logicalRect.h; src["pw"] = (int)i.physicalSize.w; src["ph"] = (int)i.physicalSize.h; }
            }
            r = DoAdd(src, it, a, [&](const AddSubBlockInfo& s) { w->ReplaceSubBlock(key, s); }, [&](const AddSubBlockInfoMemPtr& s) { w->ReplaceSubBlock(key, s); }, [&](const AddSubBlockInfoLinewiseBitmap& s) { w->ReplaceSubBlock(key, s); }, [&](const AddSubBlockInfoStridedBitmap& s) { w->ReplaceSubBlock(key, s); }, &det);
            Put(e, "it", it, a);
        }
        else if (o == "e_rem") r = Guard([&] { editor->RemoveSubBlock(key); }, &det);
        else if (o == "e_attrep") { Bytes d = BytesFrom(op, "d"); auto i = AttFrom(op, d); JV at = AttV(op, d, a); Put(e, "at", at, a); r = Guard([&] { editor->ReplaceAttachment(key, i); }, &det); }
        else r = Guard([&] { editor->RemoveAttachment(key); }, &det);
        hits(); EdState(e, a); fin();
    }
    else if (o == "e_dump")
    {
        EdDump(e, a); ev.PushBack(e, a);
    }
    else if (o == "e_close") { r = Guard([&] { editor->Close(); }, &det); hits(); fin(); }
    else if (o == "e_drop") { editor.reset(); r = "ok"; fin(); }
    else if (o == "w_drop") { writer.reset(); r = "ok"; fin(); }
    else if (o == "dump") { JV d = Obj(); int f0 = file->faultsHit; DumpFile(file, op, d, a); for (auto& m : d.GetObject()) e.AddMember(m.name, m.value, a); Put(e, "fh", file->faultsHit - f0, a); ev.PushBack(e, a); }
    else if (o == "layout") { Layout(Unstretched(*file), e, a); r = "ok"; fin(); }
    else if (o == "stretch") { Stretch(*file, (1ull << I(op, "bits", 32)) + 32ull * (std::uint64_t)I(op, "add")); r = "ok"; fin(); }
    else if (o == "r_new") { reader = CreateCZIReader(); r = "ok"; fin(); }
    else if (o == "r_open") { auto oo = OptsFrom(op); r = Guard([&] { reader->Open(file, &oo); }, &det); hits(); Put(e, "sz", Clamp((unsigned long)file->data.size()), a); Put(e, "frame", I(op, "frame", 0), a); fin(); }
    else if (o == "r_close") { r = Guard([&] { reader->Close(); }, &det); fin(); }
    else if (o == "r_call") { CallAny(op, e, a, reader.get()); ev.PushBack(e, a); }
    else if (o == "e_call") { CallAny(op, e, a, editor.get()); ev.PushBack(e, a); }
    else if (o == "r_q") { Query(op, e, a, reader.get()); ev.PushBack(e, a); }
    else if (o == "e_q") { Query(op, e, a, editor.get()); ev.PushBack(e, a); }
    else if (o == "log") { file->logWrites = true; file->log.clear(); r = "ok"; fin(); }
    else if (o == "prefixes")
    {
        // the file as it is after every prefix of the logged writes (and with torn last writes); every one is opened and read completely
        JV out = Arr(); const auto& lg = file->log; int n = (int)lg.size(); int torn = I(op, "torn", 1); int step = std::max(1, n / std::max(1, I(op, "max", 400)));
        auto mf = std::make_shared<MemFile>();
        auto probe = [&](int k, size_t t) { JV d = Obj(); DumpFile(mf, op, d, a); Put(d, "k", k, a); Put(d, "t", (int)t, a); d.RemoveMember("st"); d.RemoveMember("py"); d.RemoveMember("arb"); out.PushBack(d, a); };
        for (int k = 0; k <= n; ++k)
        {
            if (k % step == 0 || n - k < 40) probe(k, 0);
            if (k == n) break;
            if ((k % step == 0 || n - k < 40) && torn && lg[k].d.size() > 1)
            {
                std::set<size_t> cuts = { 1, lg[k].d.size() / 2, lg[k].d.size() - 1 };
                if (lg[k].off == 0 && k > 0) for (size_t c = 80; c < 130 && c < lg[k].d.size(); ++c) cuts.insert(c);   // all cuts through the header's position fields
                for (size_t c : cuts) { Bytes save = mf->data; std::uint64_t bw; mf->Write(lg[k].off, lg[k].d.data(), c, &bw); probe(k, c); mf->data = save; }
            }
            std::uint64_t bw; mf->Write(lg[k].off, lg[k].d.data(), lg[k].d.size(), &bw);
        }
        Put(e, "n", n, a); Put(e, "same", mf->data == file->data, a); Put(e, "out", out, a); r = "ok"; fin();
    }
    else if (o == "corrupt") { for (auto& x : op["b"].GetArray()) { size_t p = (size_t)x[0].GetInt(); if (p < file->data.size()) file->data[p] = (std::uint8_t)x[1].GetInt(); } r = "ok"; fin(); }
    else if (o == "trunc") { size_t n = (size_t)I(op, "n"); if (n < file->data.size()) file->data.resize(n); r = "ok"; fin(); }
    else throw std::runtime_error("unknown doc op " + o);
}
void Doc::EdDump(JV& e, JA& a)
{
    std::string det; JV d = Obj(); std::string r = Guard([&] { DumpRepo(editor.get(), d, a, true); }, &det);
    if (r == "ok") for (auto& m : d.GetObject()) e.AddMember(m.name, m.value, a);
    std::shared_ptr<IMetadataSegment> ms; std::string mr = Guard([&] { ms = editor->ReadMetadataSegment(); }); Put(e, "mr", mr, a); JV m = MetaV(ms, a); Put(e, "meta", m, a);
    int g = 0; Guard([&] { g = GuidTo(editor->GetFileHeaderInfo().fileGuid); }); Put(e, "g", g, a); Put(e, "r", r, a);
}
// infos as the editor reports them right now (no contents)
void Doc::EdState(JV& e, JA& a)
{
    JV d = Obj(); std::string r = Guard([&] { DumpRepo(editor.get(), d, a, false); }); Put(e, "er", r, a);
    if (r == "ok") for (auto& m : d.GetObject()) e.AddMember(m.name, m.value, a);
}
template <class R> std::string Doc::CallOne(const std::string& f, R* r, std::string* det)
{
    if (f == "enum") return Guard([&] { r->EnumerateSubBlocks([](int, const SubBlockInfo&) { return true; }); }, det);
    if (f == "subset") return Guard([&] { r->EnumSubset(nullptr, nullptr, false, [](int, const SubBlockInfo&) { return true; }); }, det);
    if (f == "read") return Guard([&] { r->ReadSubBlock(0); }, det);
    if (f == "info") return Guard([&] { SubBlockInfo i; r->TryGetSubBlockInfo(0, &i); }, det);
    if (f == "arb") return Guard([&] { SubBlockInfo i; r->TryGetSubBlockInfoOfArbitrarySubBlockInChannel(0, i); }, det);
    if (f == "stats") return Guard([&] { r->GetStatistics(); }, det);
    if (f == "pyr") return Guard([&] { r->GetPyramidStatistics(); }, det);
    if (f == "attcnt") return Guard([&] { r->GetAttachmentCount(); }, det);
    if (f == "attinfo") return Guard([&] { AttachmentInfo i; r->TryGetAttachmentInfo(0, &i); }, det);
    if (f == "attenum") return Guard([&] { r->EnumerateAttachments([](int, const AttachmentInfo&) { return true; }); }, det);
    if (f == "attsub") return Guard([&] { r->EnumerateSubset(nullptr, nullptr, [](int, const AttachmentInfo&) { return true; }); }, det);
    if (f == "attread") return Guard([&] { r->ReadAttachment(0); }, det);
    if (f == "hdr") return Guard([&] { r->GetFileHeaderInfo(); }, det);
    if (f == "meta") return Guard([&] { r->ReadMetadataSegment(); }, det);
    throw std::runtime_error("unknown call " + f);
}
template <class R> void Doc::CallAny(const JV& op, JV& e, JA& a, R* r)
{
    std::string f = S(op, "f"), det; Put(e, "f", f, a); Put(e, "r", CallOne(f, r, &det), a);
}
template <class R> void Doc::Query(const JV& op, JV& e, JA& a, R* r)
{
    std::string f = S(op, "f"), det, res; Put(e, "f", f, a);
    if (f == "subset")
    {
        CDimCoordinate c; bool hc = Has(op, "c"); if (hc) c = CoordFrom(op["c"]); bool hr = Has(op, "roi"); IntRect roi{}; if (hr) roi = IntRect{ op["roi"][0].GetInt(),op["roi"][1].GetInt(),op["roi"][2].GetInt(),op["roi"][3].GetInt() };
        int stop = I(op, "stop", -1); int calls = 0; JV out = Arr();
        res = Guard([&] { r->EnumSubset(hc ? &c : nullptr, hr ? &roi : nullptr, B(op, "l0"), [&](int k, const SubBlockInfo& i) { ++calls; JV x = Obj(); Put(x, "k", k, a); JV y = InfoV(i, a); Put(x, "i", y, a); out.PushBack(x, a); return !(stop >= 0 && calls > stop); }); }, &det);
        JV cv = hc ? CoordV(&c, a) : Arr(); Put(e, "hc", hc, a); Put(e, "c", cv, a); Put(e, "hr", hr, a); JV rv = Arr(); if (hr) { rv.PushBack(roi.x, a); rv.PushBack(roi.y, a); rv.PushBack(roi.w, a); rv.PushBack(roi.h, a); } Put(e, "roi", rv, a); Put(e, "l0", B(op, "l0"), a); Put(e, "stop", stop, a); Put(e, "out", out, a);
    }
    else if (f == "enumstop")
    {
        int stop = I(op, "stop", 0), calls = 0, calls2 = 0; res = Guard([&] { r->EnumerateSubBlocks([&](int, const SubBlockInfo&) { ++calls; return !(calls > stop); }); r->EnumerateAttachments([&](int, const AttachmentInfo&) { ++calls2; return !(calls2 > stop); }); }, &det);
        Put(e, "stop", stop, a); Put(e, "calls", calls, a); Put(e, "acalls", calls2, a);
    }
    else if (f == "attsubset")
    {
        bool ht = Has(op, "ft"), hn = Has(op, "nm"); std::string ft = S(op, "ft"), nm = S(op, "nm"); JV out = Arr(); int stop = I(op, "stop", -1), calls = 0;
        res = Guard([&] { r->EnumerateSubset(ht ? ft.c_str() : nullptr, hn ? nm.c_str() : nullptr, [&](int k, const AttachmentInfo& i) { ++calls; JV x = Obj(); Put(x, "k", k, a); JV y = AttInfoV(i, a); Put(x, "i", y, a); out.PushBack(x, a); return !(stop >= 0 && calls > stop); }); }, &det);
        Put(e, "ht", ht, a); Put(e, "ft", ft, a); Put(e, "hn", hn, a); Put(e, "nm", nm, a); Put(e, "stop", stop, a); Put(e, "out", out, a);
    }
    else if (f == "index")
    {
        int k = I(op, "k"); SubBlockInfo i; bool b = false, sbn = false; res = Guard([&] { b = r->TryGetSubBlockInfo(k, &i); auto sb = r->ReadSubBlock(k); sbn = (bool)sb; }, &det);
        Put(e, "k", k, a); Put(e, "b", b, a); Put(e, "sb", sbn, a); JV y = b ? InfoV(i, a) : Obj(); Put(e, "i", y, a);
    }
    else if (f == "attindex")
    {
        int k = I(op, "k"); AttachmentInfo i; bool b = false, sbn = false; res = Guard([&] { b = r->TryGetAttachmentInfo(k, &i); auto at = r->ReadAttachment(k); sbn = (bool)at; }, &det);
        Put(e, "k", k, a); Put(e, "b", b, a); Put(e, "sb", sbn, a); JV y = b ? AttInfoV(i, a) : Obj(); Put(e, "i", y, a);
    }
    else if (f == "list")
    {
        JV d = Obj(); res = Guard([&] { DumpRepo(r, d, a, false); }, &det); if (res == "ok") for (auto& m : d.GetObject()) e.AddMember(m.name, m.value, a);
    }
    else if (f == "arb")
    {
        int c = I(op, "c"); SubBlockInfo i; bool b = false; res = Guard([&] { b = r->TryGetSubBlockInfoOfArbitrarySubBlockInChannel(c, i); }, &det); Put(e, "c", c, a); Put(e, "b", b, a); JV y = b ? InfoV(i, a) : Obj(); Put(e, "i", y, a);
    }
    else if (f == "tp" || f == "tr")
    {
        auto src = (CZIFrameOfReference)I(op, "sf"); auto dst = (CZIFrameOfReference)I(op, "df"); Put(e, "sf", I(op, "sf"), a); Put(e, "df", I(op, "df"), a);
        JV out = Arr(); int of = 0; JV in = Arr(); for (auto& x : op["v"].GetArray()) in.PushBack(x.GetInt(), a);
        res = Guard([&] {
            if (f == "tp") { IntPointAndFrameOfReference p; p.frame_of_reference = src; p.point = IntPoint{ op["v"][0].GetInt(),op["v"][1].GetInt() }; auto q = r->TransformPoint(p, dst); of = (int)q.frame_of_reference; out.PushBack(q.point.x, a); out.PushBack(q.point.y, a); }
            else { IntRectAndFrameOfReference p; p.frame_of_reference = src; p.rectangle = IntRect{ op["v"][0].GetInt(),op["v"][1].GetInt(),op["v"][2].GetInt(),op["v"][3].GetInt() }; auto q = r->TransformRectangle(p, dst); of = (int)q.frame_of_reference; for (int z : {q.rectangle.x, q.rectangle.y, q.rectangle.w, q.rectangle.h}) out.PushBack(z, a); }
            }, &det);
        Put(e, "v", in, a); Put(e, "out", out, a); Put(e, "of", of, a);
    }
    else throw std::runtime_error("unknown query " + f);
    Put(e, "r", res, a);
}
static void RunDoc(const JV& s, JV& ev, JA& a)
{
    Doc d; for (auto& op : s["ops"].GetArray()) d.Run(op, ev, a);
}
static Family f1("doc", RunDoc);
