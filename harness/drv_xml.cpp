// family "xml": editing a metadata tree with the builder; the document is observed through the interface, through an independent parser of the XML text, and through the library reading the text again
#include "drv.h"
#include <cmath>
#include <cstring>
#include <cstdlib>
using namespace libCZI;
static std::wstring W(const JV& v) { std::wstring w; for (auto& c : v.GetArray()) w += (wchar_t)c.GetInt(); return w; }
static JV CV(const std::wstring& w, JA& a) { JV v = Arr(); for (wchar_t c : w) v.PushBack((int)c, a); return v; }
static std::string U(const std::wstring& w) { return Utils::ConvertToUtf8(w); }
static std::wstring FromU(const std::string& s) { std::wstring w; for (size_t i = 0; i < s.size();) { unsigned c = (unsigned char)s[i++]; int n = c >= 0xF0 ? 3 : c >= 0xE0 ? 2 : c >= 0xC0 ? 1 : 0; if (n) c &= 0x3F >> n; while (n-- > 0 && i < s.size()) c = (c << 6) | ((unsigned char)s[i++] & 0x3F); w += (wchar_t)c; } return w; }
static JV WS(const std::wstring& w, JA& a) { std::string s = U(w); return JV(s.c_str(), (rapidjson::SizeType)s.size(), a); }
static std::string Esc(const std::string& s) { std::string r; for (char c : s) { if (c == '<') r += "&lt;"; else if (c == '>') r += "&gt;"; else if (c == '&') r += "&amp;"; else if (c == '"') r += "&quot;"; else if (c == '\n') r += "&#10;"; else if (c == '\t') r += "&#9;"; else r += c; } return r; }
static std::string Ser(const JV& n)
{
    if (n.HasMember("t")) return Esc(U(W(n["t"])));
    std::string r = "<" + S(n, "n"); for (auto& q : n["a"].GetArray()) r += std::string(" ") + q[0].GetString() + "=\"" + Esc(q[1].GetString()) + "\"";
    if (n["c"].Empty()) return r + "/>"; r += ">"; for (auto& c : n["c"].GetArray()) r += Ser(c); return r + "</" + S(n, "n") + ">";
}
// what the interface shows of a node
static JV View(IXmlNodeRead* n, JA& a)
{
    JV o = Obj(); JV nm = WS(n->Name(), a); Put(o, "n", nm, a); JV at = Arr(); bool ok = true; size_t na = 0, nc = 0;
    n->EnumAttributes([&](const std::wstring& k, const std::wstring& v) { JV p = Arr(); JV x = WS(k, a), y = WS(v, a); p.PushBack(x, a).PushBack(y, a); at.PushBack(p, a); ++na; std::wstring t; ok = ok && n->TryGetAttribute(k.c_str(), &t) && t == v; return true; }); Put(o, "a", at, a);
    std::wstring t; JV v = Arr(); if (n->TryGetValue(&t)) { JV c = CV(t, a); v.PushBack(c, a); } Put(o, "v", v, a);
    JV ch = Arr(); n->EnumChildren([&](std::shared_ptr<IXmlNodeRead> c) { JV d = View(c.get(), a); ch.PushBack(d, a); ++nc; return true; }); Put(o, "c", ch, a);
    size_t ca = 0, cc = 0; n->EnumAttributes([&](const std::wstring&, const std::wstring&) { ++ca; return false; }); n->EnumChildren([&](std::shared_ptr<IXmlNodeRead>) { ++cc; return false; }); ok = ok && ca == std::min<size_t>(na, 1) && cc == std::min<size_t>(nc, 1);
    if (!ok || n->TryGetAttribute(L"no such", nullptr)) Put(o, "attrbad", true, a);
    return o;
}
// independent parser
struct P { std::string s; size_t i = 0; JA& a; bool bad = false; P(const std::string& t, JA& al) : s(t), a(al) {}
    char C() { return i < s.size() ? s[i] : 0; }
    std::string Ent() { size_t e = s.find(';', i); if (e == std::string::npos) { bad = true; return ""; } std::string n = s.substr(i + 1, e - i - 1); i = e + 1; if (n == "lt") return "<"; if (n == "gt") return ">"; if (n == "amp") return "&"; if (n == "quot") return "\""; if (n == "apos") return "'"; if (n.size() > 1 && n[0] == '#') return U(std::wstring(1, (wchar_t)(n[1] == 'x' ? std::strtol(n.c_str() + 2, nullptr, 16) : std::strtol(n.c_str() + 1, nullptr, 10)))); bad = true; return ""; }
    std::string Name() { size_t b = i; while (i < s.size() && !std::strchr(" \t\n\r/>=<", s[i])) ++i; if (b == i) bad = true; return s.substr(b, i - b); }
    void Ws() { while (i < s.size() && std::strchr(" \t\n\r", s[i])) ++i; }
    void Flush(std::string& t, JV& ch) { if (t.find_first_not_of(" \t\n\r") != std::string::npos) { JV o = Obj(); JV c = CV(FromU(t), a); Put(o, "t", c, a); ch.PushBack(o, a); } t.clear(); }
    JV Elem() { JV o = Obj(); ++i; std::string n = Name(); Put(o, "n", n, a); JV at = Arr(), ch = Arr();
        for (;;) { Ws(); if (bad || i >= s.size()) { bad = true; break; } if (C() == '/') { i += 2; Put(o, "a", at, a); Put(o, "c", ch, a); return o; } if (C() == '>') { ++i; break; }
            std::string k = Name(); if (C() != '=') { bad = true; break; } ++i; char q = C(); if (q != '"' && q != '\'') { bad = true; break; } ++i; std::string v; while (i < s.size() && C() != q) { if (C() == '&') v += Ent(); else if (std::strchr("\n\t\r", C())) { v += ' '; ++i; } else v += s[i++]; if (bad) break; } ++i; JV p = Arr(); p.PushBack(JV(k.c_str(), a), a).PushBack(JV(v.c_str(), a), a); at.PushBack(p, a); }
        std::string t;
        while (!bad) { if (i >= s.size()) { bad = true; break; } if (C() == '<') { if (i + 1 < s.size() && s[i + 1] == '/') { Flush(t, ch); i += 2; if (Name() != n || C() != '>') bad = true; ++i; break; } Flush(t, ch); JV c = Elem(); ch.PushBack(c, a); } else if (C() == '&') t += Ent(); else t += s[i++]; }
        Put(o, "a", at, a); Put(o, "c", ch, a); return o; }
    JV Doc() { Ws(); JV r = C() == '<' ? Elem() : Obj(); Ws(); if (i < s.size()) bad = true; return r; } };
static std::string PathOf(const JV& c)
{
    if (Has(c, "raw")) return S(c, "raw"); std::string p;
    for (auto& t : c["p"].GetArray()) { if (!p.empty()) p += "/"; p += S(t, "n"); if (Has(t, "i")) p += "[" + std::string(S(t, "ws")) + std::to_string(I(t, "i")) + S(t, "ws") + "]"; else if (Has(t, "at")) { p += "["; bool f = true; for (auto& q : t["at"].GetArray()) { if (!f) p += S(t, "sep", ","); f = false; p += std::string(q[0].GetString()) + "=" + q[1].GetString(); } p += "]"; } }
    return p;
}
template <class T> static void Num(JV& e, const char* k, bool ok, T v, bool n, JA& a) { JV o = Obj(); Put(o, "ok", ok, a); JV c = CV(ok ? std::to_wstring(v) : L"", a); Put(o, "v", c, a); Put(o, "same", n == ok, a); Put(e, k, o, a); }
// the document as it is read through a read-only interface (the metadata of a file, the metadata of a subblock)
template <class T> static JV Reading(std::shared_ptr<T> m, const std::string& path, JA& a)
{
    JV o = Obj(); bool valid = m->IsXmlValid(); Put(o, "valid", valid, a); std::string x; std::shared_ptr<IXmlNodeRead> c; std::wstring w; bool hv = false, ha = false; int n = 0, k = 0; std::vector<std::shared_ptr<IXmlNodeRead>> kids;
    std::string r[7]; r[0] = Guard([&] { w = m->Name(); }); r[1] = Guard([&] { hv = m->TryGetValue(nullptr); }); r[2] = Guard([&] { ha = m->TryGetAttribute(L"Id", nullptr); }); r[3] = Guard([&] { m->EnumAttributes([&](const std::wstring&, const std::wstring&) { ++n; return true; }); }); r[4] = Guard([&] { m->EnumChildren([&](std::shared_ptr<IXmlNodeRead> q) { ++k; kids.push_back(q); return true; }); }); r[5] = Guard([&] { x = m->GetXml(); });
    Put(o, "r6", Guard([&] { c = m->GetChildNodeReadonly(path.c_str()); }), a); m.reset(); // what was obtained keeps the document alive
    JV rs = Arr(); for (int j = 0; j < 6; ++j) rs.PushBack(JV(r[j].c_str(), a), a); Put(o, "rs", rs, a); Put(o, "none", w.empty() && !hv && !ha && n == 0, a); Put(o, "kids", k, a);
    if (k == 1) { JV v = View(kids[0].get(), a); Put(o, "root", v, a); } kids.clear(); Put(o, "nul", !c, a); if (c) { JV v = View(c.get(), a); Put(o, "node", v, a); }
    size_t i = x.compare(0, 2, "<?") == 0 ? x.find("?>") + 2 : 0; P p(x.substr(i), a); if (r[5] == "ok") { JV d = p.Doc(); Put(o, "wf", !p.bad, a); if (!p.bad) Put(o, "x", d, a); } return o;
}
static void Ep(const JV& s, JV& ev, JA& a)
{
    std::shared_ptr<ICziMetadataBuilder> b; std::string r0 = Guard([&] { b = Has(s, "tags") ? Utils::CreateSubBlockMetadata([&](int i, std::tuple<std::string, std::string>& t) { if (i >= (int)s["tags"].Size()) return false; t = std::make_tuple(std::string(s["tags"][i]["n"].GetString()), U(W(s["tags"][i]["v"]))); return true; }) : Has(s, "init") ? CreateMetadataBuilderFromXml(Ser(s["init"])) : CreateMetadataBuilder(); });
    { JV e = Obj(); Put(e, "o", "init", a); Put(e, "r", r0, a); if (Has(s, "init")) { JV t(s["init"], a); Put(e, "t", t, a); } if (Has(s, "tags")) { JV t(s["tags"], a); Put(e, "tags", t, a); } if (b) { JV v = View(b->GetRootNode().get(), a); Put(e, "view", v, a); } ev.PushBack(e, a); if (!b) return; }
    std::vector<std::shared_ptr<IXmlNodeRw>> h(64); h[0] = b->GetRootNode();
    for (auto& c : s["ops"].GetArray())
    {
        JV e(c, a); std::string o = S(c, "o"), r; auto n = h[I(c, "h")];
        if (o != "xml" && o != "view" && !n) { Put(e, "r", "skip", a); ev.PushBack(e, a); continue; }
        if (o == "goc" || o == "get" || o == "app") { std::shared_ptr<IXmlNodeRw> x; std::string p = o == "app" ? S(c, "nm") : PathOf(c); r = Guard([&] { x = o == "goc" ? (B(c, "w") ? n->GetOrCreateChildNode(std::string(p)) : n->GetOrCreateChildNode(p.c_str())) : o == "get" ? n->GetChildNode(p.c_str()) : n->AppendChildNode(p.c_str()); }); Put(e, "nul", !x, a); h[I(c, "nh")] = x; }
        else if (o == "ro") { std::shared_ptr<IXmlNodeRead> x; std::string p = PathOf(c); r = Guard([&] { x = n->GetChildNodeReadonly(p.c_str()); }); Put(e, "nul", !x, a); if (x) { JV v = View(x.get(), a); Put(e, "ro", v, a); } }
        else if (o == "sa") { std::string k = S(c, "k"), v = S(c, "v"); r = Guard([&] { if (B(c, "w")) n->SetAttribute(FromU(k).c_str(), FromU(v).c_str()); else n->SetAttribute(k.c_str(), v.c_str()); }); }
        else if (o == "sv") { std::wstring w = W(c["v"]); r = Guard([&] { if (B(c, "w")) n->SetValue(w.c_str()); else n->SetValue(U(w).c_str()); }); }
        else if (o == "si") { std::string t = S(c, "ty"), v = U(W(c["v"])); r = Guard([&] { if (t == "i32") n->SetValueI32((int)std::stoll(v)); else if (t == "u32") n->SetValueUI32((unsigned)std::stoull(v)); else if (t == "i64") n->SetValueI64(std::stoll(v)); else n->SetValueUI64(std::stoull(v)); }); }
        else if (o == "sb") r = Guard([&] { n->SetValueBool(B(c, "b")); });
        else if (o == "sd") { r = Guard([&] { if (B(c, "flt")) n->SetValueFlt((float)(I(c, "v") / 1000.)); else n->SetValueDbl(I(c, "v") / 1000.); }); std::wstring t; n->TryGetValue(&t); JV v = CV(t, a); Put(e, "vt", v, a); }
        else if (o == "rc") r = Guard([&] { n->RemoveChildren(); });
        else if (o == "ra") r = Guard([&] { n->RemoveAttributes(); });
        else if (o == "rmc" || o == "rma") { bool x = false; std::string nm = S(c, "nm"); r = Guard([&] { x = o == "rmc" ? n->RemoveChild(nm.c_str()) : n->RemoveAttribute(nm.c_str()); }); Put(e, "ret", x, a); }
        else if (o == "tv")
        {
            std::int32_t i32 = 0; std::uint32_t u32 = 0; std::int64_t i64 = 0; std::uint64_t u64 = 0; double d = 0; float f = 0; bool bo = false, k[7], m[7];
            r = Guard([&] { k[0] = n->TryGetValueAsInt32(&i32); k[1] = n->TryGetValueAsUInt32(&u32); k[2] = n->TryGetValueAsInt64(&i64); k[3] = n->TryGetValueAsUInt64(&u64); k[4] = n->TryGetValueAsDouble(&d); k[5] = n->TryGetValueAsFloat(&f); k[6] = n->TryGetValueAsBool(&bo);
                m[0] = n->TryGetValueAsInt32(nullptr); m[1] = n->TryGetValueAsUInt32(nullptr); m[2] = n->TryGetValueAsInt64(nullptr); m[3] = n->TryGetValueAsUInt64(nullptr); m[4] = n->TryGetValueAsDouble(nullptr); m[5] = n->TryGetValueAsFloat(nullptr); m[6] = n->TryGetValueAsBool(nullptr); });
            if (r == "ok") { Num(e, "i32", k[0], i32, m[0], a); Num(e, "u32", k[1], u32, m[1], a); Num(e, "i64", k[2], i64, m[2], a); Num(e, "u64", k[3], u64, m[3], a);
                auto th = [](double x) { return std::isfinite(x) ? Clamp((long long)std::llround(std::max(-2e6, std::min(2e6, x)) * 1000)) : 2000000001; };
                JV q = Obj(); Put(q, "ok", k[4], a); Put(q, "v", k[4] ? th(d) : 0, a); Put(q, "fok", k[5], a); Put(q, "fv", k[5] ? th(f) : 0, a); Put(q, "same", m[4] == k[4] && m[5] == k[5], a); Put(e, "dbl", q, a); JV z = Obj(); Put(z, "ok", k[6], a); Put(z, "v", k[6] && bo, a); Put(z, "same", m[6] == k[6], a); Put(e, "bool", z, a); }
        }
        else if (o == "view")
        {
            std::string x, p = PathOf(c); r = Guard([&] { x = b->GetXml(B(c, "ind")); }); if (B(c, "cut")) x.erase(x.find_last_of('>')); p = U(b->GetRootNode()->Name()) + (p.empty() ? "" : "/") + p;
            auto f = std::make_shared<MemFile>(); { auto wr = CreateCZIWriter(); wr->Create(f, nullptr); AddSubBlockInfoMemPtr sb; sb.Clear(); sb.coordinate.Set(DimensionIndex::C, 0); sb.mIndexValid = true; sb.mIndex = 0; sb.x = sb.y = 0; sb.logicalWidth = sb.physicalWidth = 1; sb.logicalHeight = sb.physicalHeight = 1; sb.PixelType = PixelType::Gray8; std::uint8_t px = 0; sb.ptrData = &px; sb.dataSize = 1; sb.ptrSbBlkMetadata = &x[0]; sb.sbBlkMetadataSize = (std::uint32_t)x.size(); wr->SyncAddSubBlock(sb); WriteMetadataInfo mi; mi.Clear(); mi.szMetadata = x.data(); mi.szMetadataSize = x.size(); wr->SyncWriteMetadata(mi); wr->Close(); }
            auto rd = CreateCZIReader(); rd->Open(f); auto md = rd->ReadMetadataSegment()->CreateMetaFromMetadataSegment(); auto sm = CreateSubBlockMetadataFromSubBlock(rd->ReadSubBlock(0).get()); rd->Close();
            JV v1 = Reading(std::move(md), p, a), v2 = Reading(std::move(sm), p, a); Put(e, "md", v1, a); Put(e, "sm", v2, a);
        }
        else if (o == "xml")
        {
            std::string x; r = Guard([&] { x = b->GetXml(B(c, "ind")); }); P p(x, a); JV d = p.Doc(); Put(e, "wf", !p.bad, a); if (!p.bad) Put(e, "x", d, a);
            std::shared_ptr<ICziMetadataBuilder> b2; std::string r2 = Guard([&] { b2 = CreateMetadataBuilderFromXml(x); }); Put(e, "r2", r2, a); if (r2 == "ok") { JV v = View(b2->GetRootNode().get(), a); Put(e, "re", v, a); }
        }
        else { std::fprintf(stderr, "unknown op %s\n", o.c_str()); std::exit(3); }
        Put(e, "r", r, a); JV v = View(b->GetRootNode().get(), a); Put(e, "view", v, a); ev.PushBack(e, a);
    }
}
static Family f("xml", Ep);
