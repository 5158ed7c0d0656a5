// family "text": parsers and formatters of text forms
#include "drv.h"
#include <cstring>
using namespace libCZI;
static std::string Str(const JV& c, const char* k) { std::string s; for (auto& x : c[k].GetArray()) s.push_back((char)x.GetInt()); return s; }
static std::wstring WStr(const JV& c, const char* k) { std::wstring s; for (auto& x : c[k].GetArray()) s.push_back((wchar_t)x.GetInt()); return s; }
static JV Codes(const std::string& s, JA& a) { JV v = Arr(); for (char x : s) v.PushBack((int)(unsigned char)x, a); return v; }
static JV CoV(const CDimCoordinate& co, JA& a) { JV v = Arr(); for (int d = 1; d <= 9; ++d) { int p; if (co.TryGetPosition((DimensionIndex)d, &p)) { JV x = Arr(); x.PushBack(d, a).PushBack(p, a); v.PushBack(x, a); } } return v; }
static JV BoV(const CDimBounds& b, JA& a) { JV v = Arr(); for (int d = 1; d <= 9; ++d) { int p, n; if (b.TryGetInterval((DimensionIndex)d, &p, &n)) { JV x = Arr(); x.PushBack(d, a).PushBack(p, a).PushBack(n, a); v.PushBack(x, a); } } return v; }
static CDimCoordinate Co(const JV& v) { CDimCoordinate c; for (auto& x : v.GetArray()) c.Set((DimensionIndex)x[0].GetInt(), x[1].GetInt()); return c; }
static CDimBounds Bo(const JV& v) { CDimBounds c; for (auto& x : v.GetArray()) c.Set((DimensionIndex)x[0].GetInt(), x[1].GetInt(), x[2].GetInt()); return c; }
static const CompressionMode Modes[] = { CompressionMode::UnCompressed, CompressionMode::Jpg, CompressionMode::JpgXr, CompressionMode::Zstd0, CompressionMode::Zstd1 };
static int ModeNo(CompressionMode m) { for (int i = 0; i < 5; ++i) if (Modes[i] == m) return i; return -2; }
static std::string Exact(const std::function<void()>& f) { std::string r; try { return Guard([&] { try { f(); } catch (LibCZIStringParseException&) { r = "strparse"; } }) == "ok" ? (r.empty() ? "ok" : r) : "other"; } catch (...) { return "other"; } }
static void CompV(const std::string& t, JV& e, JA& a)
{
    int m = -1; JV lv = Arr(); bool hl = false; std::string det;
    std::string r = Guard([&] {
        auto o = Utils::ParseCompressionOptions(t); m = ModeNo(o.first); if (!o.second) throw std::runtime_error("no parameters"); CompressParameter p;
        if (o.second->TryGetProperty(CompressionParameterKey::ZSTD_RAWCOMPRESSIONLEVEL, &p)) lv.PushBack((int)p.GetInt32(), a);
        if (o.second->TryGetProperty(CompressionParameterKey::ZSTD_PREPROCESS_DOLOHIBYTEPACKING, &p)) hl = p.GetBoolean(); }, &det);
    Put(e, "r", r, a); Put(e, "m", m, a); Put(e, "lv", lv, a); Put(e, "hl", hl, a);
}
static JV DateV(const XmlDateTime& d, JA& a)
{
    JV v = Arr(); for (int x : { d.year, d.mon, d.mday, d.hour, d.min, d.sec }) v.PushBack(x, a);
    v.PushBack(d.isUTC ? 1 : (d.HasTimeZoneOffset() ? 2 : 0), a); v.PushBack(d.HasTimeZoneOffset() ? d.offsetHours : 0, a); v.PushBack(d.HasTimeZoneOffset() ? d.offsetMinutes : 0, a); return v;
}
static XmlDateTime MkDate(const JV& v) { XmlDateTime d; d.Clear(); d.year = v[0].GetInt(); d.mon = v[1].GetInt(); d.mday = v[2].GetInt(); d.hour = v[3].GetInt(); d.min = v[4].GetInt(); d.sec = v[5].GetInt(); int z = v[6].GetInt(); if (z == 1) d.isUTC = true; if (z == 2) { d.offsetHours = v[7].GetInt(); d.offsetMinutes = v[8].GetInt(); } return d; }
namespace
{
    struct MetaSeg : public IMetadataSegment
    {
        std::string x; explicit MetaSeg(std::string s) : x(std::move(s)) {}
        std::shared_ptr<const void> GetRawData(MemBlkType t, size_t* n) override { if (t != XmlMetadata) { *n = 0; return nullptr; } *n = x.size(); auto p = std::shared_ptr<char>(new char[x.size() + 1], [](char* q) { delete[] q; }); std::memcpy(p.get(), x.data(), x.size()); return p; }
        void DangerousGetRawData(MemBlkType t, const void*& p, size_t& n) const override { if (t == XmlMetadata) { p = x.data(); n = x.size(); } else { p = nullptr; n = 0; } }
    };
}
static std::string XmlEsc(const std::wstring& s) { std::string o; for (wchar_t c : s) o += "&#" + std::to_string((int)c) + ";"; return o; }
static void Ep(const JV& s, JV& ev, JA& a)
{
    for (auto& c : s["ops"].GetArray())
    {
        JV e(c, a); std::string o = S(c, "o");
        if (o == "coord" || o == "fcoord")
        {
            CDimCoordinate v, w; bool ok = true; std::string t, txt;
            if (o == "coord")
            {
                t = Str(c, "t"); std::string g = Guard([&] { ok = Utils::StringToDimCoordinate(t.c_str(), &v); });
                Put(e, "r", g != "ok" ? std::string("threw") : std::string(ok ? "ok" : "no"), a); CDimCoordinate u; Put(e, "p", Exact([&] { u = CDimCoordinate::Parse(t.c_str()); }), a);
                bool nul = false; Guard([&] { nul = Utils::StringToDimCoordinate(t.c_str(), nullptr); }); Put(e, "nul", nul, a);
                JV x = CoV(v, a); Put(e, "v", x, a); JV y = CoV(u, a); Put(e, "u", y, a);
            }
            else { v = Co(c["v"]); Put(e, "r", std::string("ok"), a); }
            txt = Utils::DimCoordinateToString(&v); bool ok2 = false; std::string g = Guard([&] { ok2 = Utils::StringToDimCoordinate(txt.c_str(), &w); });
            JV x = Codes(txt, a); Put(e, "f", x, a); Put(e, "r2", g == "ok" && ok2, a); JV y = CoV(w, a); Put(e, "w", y, a);
        }
        else if (o == "bounds" || o == "fbounds")
        {
            CDimBounds v, w;
            if (o == "bounds") { std::string t = Str(c, "t"); Put(e, "r", Exact([&] { v = CDimBounds::Parse(t.c_str()); }), a); JV x = BoV(v, a); Put(e, "v", x, a); }
            else { v = Bo(c["v"]); Put(e, "r", std::string("ok"), a); }
            std::string txt = Utils::DimBoundsToString(&v); Put(e, "r2", Exact([&] { w = CDimBounds::Parse(txt.c_str()); }), a);
            JV x = Codes(txt, a); Put(e, "f", x, a); JV y = BoV(w, a); Put(e, "w", y, a);
        }
        else if (o == "idx")
        {
            std::shared_ptr<IIndexSet> is; std::string r = Exact([&] { is = Utils::IndexSetFromString(WStr(c, "t")); }); Put(e, "r", r, a);
            JV in = Arr(); if (is) for (auto& p : c["pr"].GetArray()) in.PushBack(is->IsContained(p.GetInt()), a); Put(e, "in", in, a);
        }
        else if (o == "comp") CompV(Str(c, "t"), e, a);
        else if (o == "mode") { std::string n = Utils::CompressionModeToInformalString(Modes[I(c, "k")]); JV x = Codes(n, a); Put(e, "f", x, a); CompV(n + ":", e, a); }
        else if (o == "enum")
        {
            auto b = Bo(c["b"]); int stop = I(c, "stop", -1); JV l = Arr(); bool ret = false; int n = 0;
            std::string r = Guard([&] { ret = Utils::EnumAllCoordinates(b, [&](std::uint64_t k, const CDimCoordinate& co) { JV x = Arr(); x.PushBack(Clamp((unsigned long long)k), a); JV y = CoV(co, a); x.PushBack(y, a); l.PushBack(x, a); ++n; return n != stop && n < 4000; }); });
            Put(e, "r", r, a); Put(e, "l", l, a); Put(e, "ret", ret, a);
        }
        else if (o == "cmp") { auto x = Co(c["a"]), y = Co(c["b"]); int k = Utils::Compare(&x, &y); Put(e, "k", k < 0 ? -1 : (k > 0 ? 1 : 0), a); Put(e, "hs", Utils::HasSameDimensions(&x, &y), a); }
        else if (o == "date" || o == "fdate")
        {
            XmlDateTime d, d2; d.Clear(); d2.Clear(); bool ok = false; std::string txt;
            if (o == "date")
            {
                std::string r = Guard([&] { ok = XmlDateTime::TryParse(Str(c, "t").c_str(), &d); }); Put(e, "r", r != "ok" ? std::string("threw") : std::string(ok ? "ok" : "no"), a); JV x = DateV(d, a); Put(e, "v", x, a);
                bool okw = false; XmlDateTime dw; dw.Clear(); r = Guard([&] { okw = XmlDateTime::TryParse(WStr(c, "t").c_str(), &dw); }); Put(e, "rw", r != "ok" ? std::string("threw") : std::string(okw ? "ok" : "no"), a); JV y = DateV(dw, a); Put(e, "vw", y, a);
            }
            else { d = MkDate(c["v"]); ok = d.IsValid(); Put(e, "r", std::string(ok ? "ok" : "no"), a); JV x = DateV(d, a); Put(e, "vv", x, a); }
            std::string g = Guard([&] { txt = d.ToXmlString(); }); Put(e, "g", g, a); JV x = Codes(txt, a); Put(e, "f", x, a);
            bool ok2 = false; if (g == "ok") Guard([&] { ok2 = XmlDateTime::TryParse(txt.c_str(), &d2); }); Put(e, "r2", ok2, a); JV y = DateV(d2, a); Put(e, "w", y, a);
        }
        else if (o == "colour")
        {
            std::string x = "<ImageDocument><Metadata><Information><Image><SizeX>1</SizeX><SizeY>1</SizeY><SizeC>1</SizeC><Dimensions><Channels><Channel Id=\"Channel:0\"><Color>" + XmlEsc(WStr(c, "t")) + "</Color></Channel></Channels></Dimensions></Image></Information></Metadata></ImageDocument>";
            Rgb8Color col{ 0, 0, 0 }; bool ok = false; std::string det;
            std::string r = Guard([&] { MetaSeg seg(x); auto md = CreateMetaFromMetadataSegment(&seg); auto di = md->GetDocumentInfo(); auto ch = di->GetDimensionChannelsInfo(); auto k = ch->GetChannel(0); ok = k->TryGetColor(&col); }, &det);
            Put(e, "r", r != "ok" ? r + ":" + det : std::string(ok ? "ok" : "no"), a); JV v = Arr(); v.PushBack((int)col.r, a).PushBack((int)col.g, a).PushBack((int)col.b, a); Put(e, "v", v, a);
        }
        else { fprintf(stderr, "unknown op %s\n", o.c_str()); exit(3); }
        ev.PushBack(e, a);
    }
}
static Family f("text", Ep);
