// family "disp": look-up tables, splines, display settings
#include "drv.h"
#include <cmath>
#include <cstring>
#include <limits>
using namespace libCZI;
static int Fix(double v, double k) { if (!(v > -1e6 && v < 1e6)) return -2000000000; double x = v * k; if (x > 2e9) x = 2e9; if (x < -2e9) x = -2e9; return (int)std::lround(x); }
static int Bits(float f) { int i; std::memcpy(&i, &f, 4); return i; }
static float Flt(int i) { float f; std::memcpy(&f, &i, 4); return f; }
static double Poly(const IDisplaySettings::SplineData& d, double t) { return ((d.coefficients.a * t + d.coefficients.b) * t + d.coefficients.c) * t + d.coefficients.d; }
typedef std::pair<double, double> PP;
static ChannelDisplaySettingsPOD Pod(const JV& q)
{
    ChannelDisplaySettingsPOD p; p.Clear(); p.isEnabled = B(q, "en"); p.weight = I(q, "wt") / 64.f; p.tintingMode = B(q, "tint") ? IDisplaySettings::TintingMode::Color : IDisplaySettings::TintingMode::None; const JV& t = q["col"]; p.tintingColor = Rgb8Color{ (std::uint8_t)t[0].GetInt(), (std::uint8_t)t[1].GetInt(), (std::uint8_t)t[2].GetInt() };
    p.blackPoint = I(q, "bp") / 1000.f; p.whitePoint = I(q, "wp") / 1000.f; int m = I(q, "mode"); p.gradationCurveMode = m == 0 ? IDisplaySettings::GradationCurveMode::Linear : m == 1 ? IDisplaySettings::GradationCurveMode::Gamma : IDisplaySettings::GradationCurveMode::Spline; p.gamma = I(q, "gm") / 100.f;
    for (auto& x : q["pts"].GetArray()) p.splineCtrlPoints.push_back(IDisplaySettings::SplineControlPoint(x[0].GetInt() / 1000., x[1].GetInt() / 1000.));
    return p;
}
// what a display setting says about itself
static JV SetV(const IChannelDisplaySetting* s, JA& a)
{
    JV o = Obj(); Put(o, "en", s->GetIsEnabled(), a); Put(o, "wt", Fix(s->GetWeight(), 6400), a); Rgb8Color c{ 0, 0, 0 }; bool t = s->TryGetTintingColorRgb8(&c); Put(o, "tint", t, a); JV cv = Arr(); cv.PushBack((int)c.r, a).PushBack((int)c.g, a).PushBack((int)c.b, a); Put(o, "col", cv, a);
    float b = -1, w = -1; s->GetBlackWhitePoint(&b, &w); Put(o, "bp", Fix(b, 100000), a); Put(o, "wp", Fix(w, 100000), a); auto m = s->GetGradationCurveMode(); Put(o, "mode", m == IDisplaySettings::GradationCurveMode::Linear ? 0 : m == IDisplaySettings::GradationCurveMode::Gamma ? 1 : 2, a);
    float g = -1; bool hg = s->TryGetGamma(&g); Put(o, "gm", hg ? Fix(g, 10000) : -1, a); std::vector<IDisplaySettings::SplineControlPoint> pts; bool hp = s->TryGetSplineControlPoints(&pts); Put(o, "sp", hp, a);
    JV pv = Arr(); for (auto& p : pts) { JV x = Arr(); x.PushBack(Fix(p.x, 1000000), a).PushBack(Fix(p.y, 1000000), a); pv.PushBack(x, a); } Put(o, "pts", pv, a);
    std::vector<IDisplaySettings::SplineData> sd; bool hd = s->TryGetSplineData(&sd); Put(o, "sd", hd, a); Put(o, "sdn", (int)sd.size(), a);
    return o;
}
static void Ep(const JV& s, JV& ev, JA& a)
{
    for (auto& c : s["ops"].GetArray())
    {
        JV e(c, a); std::string o = S(c, "o"), det;
        if (o == "gamma")
        {
            int n = I(c, "n"); JV l = Arr(); std::string r = Guard([&] {
                if (B(c, "w16")) for (auto v : Utils::Create16BitLookUpTableFromGamma(n, I(c, "bp") / 1024.f, I(c, "wp") / 1024.f, I(c, "gm") / 100.f)) l.PushBack((int)v, a);
                else for (auto v : Utils::Create8BitLookUpTableFromGamma(n, I(c, "bp") / 1024.f, I(c, "wp") / 1024.f, I(c, "gm") / 100.f)) l.PushBack((int)v, a); }, &det);
            Put(e, "r", r, a); Put(e, "l", l, a);
            // the documented curve at every sample: x^g, and with toe slope ((ax+1)^g-1)/((a+1)^g-1), a = g^-4((a+1)^g-1), for g < 1
            auto lim = [&](long long v) { return (int)std::max(0LL, std::min((long long)n, v)); };
            int lo = lim(I(c, "bp") > 0 ? (long long)n * I(c, "bp") / 1024 : 0), hi = std::max(lo, lim(I(c, "wp") > 0 ? (long long)n * I(c, "wp") / 1024 : 0)), d = hi - lo - 1;
            double g = (double)(float)(I(c, "gm") / 100.f), mx = B(c, "w16") ? 65535 : 255, ta = 0; JV cv = Arr();
            if (g < 1) { double x0 = 1e-6, x1 = 1e13; auto f = [&](double t) { return std::pow(g, -4.) * (std::pow(t + 1, g) - 1) - t; }; for (int k = 0; k < 400; ++k) { double m = std::sqrt(x0 * x1); (f(m) > 0 ? x0 : x1) = m; } ta = x0; }
            if (d > 0) for (int k = 0; k <= d; ++k) { double x = k / (double)d, y = g >= 1 ? std::pow(x, g) : (std::pow(ta * x + 1, g) - 1) / (std::pow(ta + 1, g) - 1); cv.PushBack((int)std::floor(y * mx), a); }
            Put(e, "cv", cv, a);
        }
        else if (o == "spline" || o == "slut")
        {
            std::vector<PP> pts; for (auto& x : c["pts"].GetArray()) pts.push_back(PP(x[0].GetInt() / 1000., x[1].GetInt() / 1000.));
            std::vector<IDisplaySettings::SplineData> sd; std::string r = Guard([&] { sd = Utils::CalcSplineDataFromPoints((int)pts.size(), [&](int i) { return std::make_tuple(pts.at(i).first, pts.at(i).second); }); }, &det);
            JV k = Arr();
            // per piece: start, value/slope/curvature at its start and at the start of the next piece
            for (size_t i = 0; i < sd.size(); ++i)
            {
                double dx = (i + 1 < sd.size() ? sd[i + 1].xPos : 1.) - sd[i].xPos; auto& q = sd[i].coefficients; JV x = Arr();
                x.PushBack(Fix(sd[i].xPos, 100000), a).PushBack(Fix(Poly(sd[i], 0), 100000), a).PushBack(Fix(Poly(sd[i], dx), 100000), a).PushBack(Fix(q.c, 10000), a).PushBack(Fix(3 * q.a * dx * dx + 2 * q.b * dx + q.c, 10000), a).PushBack(Fix(2 * q.b, 100), a).PushBack(Fix(6 * q.a * dx + 2 * q.b, 100), a); k.PushBack(x, a);
            }
            Put(e, "r", r, a); Put(e, "k", k, a);
            if (o == "slut")
            {
                int n = I(c, "n"); JV l = Arr(), w = Arr(); std::vector<std::uint8_t> t; std::string r2 = Guard([&] { t = Utils::Create8BitLookUpTableFromSplines(n, I(c, "bp") / 1024.f, I(c, "wp") / 1024.f, sd); });
                for (auto v : t) l.PushBack((int)v, a); Put(e, "r2", r2, a); Put(e, "l", l, a);
                // the value of every piece at every sample position
                int lo = I(c, "lo"), m = I(c, "m"); for (int i = 0; i < m; ++i) { JV x = Arr(); double p = m > 1 ? i / (double)(m - 1) : 0; for (auto& q : sd) x.PushBack(Fix(Poly(q, p - q.xPos) * 255, 1000), a); w.PushBack(x, a); } (void)lo;
                Put(e, "val", w, a);
            }
        }
        else if (o == "ds")
        {
            DisplaySettingsPOD p; int i = 0; for (auto& q : c["ch"].GetArray()) p.channelDisplaySettings[i++] = Pod(q);
            JV d1 = Arr(), d2 = Arr(), d3 = Arr(); int n = -1; bool stop = true; std::string xml;
            std::string r = Guard([&] {
                auto ds = DisplaySettingsPOD::CreateIDisplaySettingSp(p); ds->EnumChannels([&](int k) { JV x = SetV(ds->GetChannelDisplaySettings(k).get(), a); d1.PushBack(x, a); return true; });
                if (ds->GetChannelDisplaySettings((int)p.channelDisplaySettings.size())) throw std::runtime_error("a channel from nowhere");
                DisplaySettingsPOD p2; IDisplaySettings::Clone(ds.get(), p2); auto ds2 = DisplaySettingsPOD::CreateIDisplaySettingSp(p2); ds2->EnumChannels([&](int k) { JV x = SetV(ds2->GetChannelDisplaySettings(k).get(), a); d2.PushBack(x, a); return true; });
                auto b = CreateMetadataBuilder(); if (B(c, "twice")) { DisplaySettingsPOD p0; for (int k = 0; k < 3; ++k) { p0.channelDisplaySettings[k].Clear(); p0.channelDisplaySettings[k].weight = 7; } auto ds0 = DisplaySettingsPOD::CreateIDisplaySettingSp(p0); MetadataUtils::WriteDisplaySettings(b.get(), ds0.get()); }
                MetadataUtils::WriteDisplaySettings(b.get(), ds.get()); xml = b->GetXml();
                auto ms = std::string(xml); struct Seg : public IMetadataSegment { std::string x; std::shared_ptr<const void> GetRawData(MemBlkType t, size_t* z) override { if (t != XmlMetadata) { if (z) *z = 0; return nullptr; } if (z) *z = x.size(); auto q = std::shared_ptr<char>(new char[x.size() + 1], [](char* y) { delete[] y; }); std::memcpy(q.get(), x.data(), x.size()); return q; } void DangerousGetRawData(MemBlkType t, const void*& q, size_t& z) const override { if (t == XmlMetadata) { q = x.data(); z = x.size(); } else { q = nullptr; z = 0; } } } seg; seg.x = xml;
                auto md = CreateMetaFromMetadataSegment(&seg); auto ds3 = md->GetDocumentInfo()->GetDisplaySettings(); if (!ds3) throw std::runtime_error("no display settings"); ds3->EnumChannels([&](int k) { JV x = SetV(ds3->GetChannelDisplaySettings(k).get(), a); d3.PushBack(x, a); return true; }); }, &det);
            Put(e, "r", r == "ok" ? r : r + ":" + det, a); Put(e, "d1", d1, a); Put(e, "d2", d2, a); Put(e, "d3", d3, a); (void)n; (void)stop;
            // the helper object: active channels and their parameters
            JV act = Arr(), en = Arr(); std::string r2 = Guard([&] {
                auto ds = DisplaySettingsPOD::CreateIDisplaySettingSp(p); CDisplaySettingsHelper h; auto ptOf = [&](int k) { if (!B(c["ch"][k], "en")) throw std::runtime_error("asked for a disabled channel"); return (PixelType)I(c["ch"][k], "pt"); };
                if (B(c, "again")) { h.Initialize(ds.get(), ptOf); }
                h.Initialize(ds.get(), ptOf); for (int k : CDisplaySettingsHelper::GetActiveChannels(ds.get())) en.PushBack(k, a);
                for (int k = 0; k < h.GetActiveChannelsCount(); ++k)
                {
                    auto& ci = h.GetActiveChannel(k); auto& cj = h.GetChannelInfosArray()[k]; JV x = Obj(); int id = h.GetActiveChannels()[k]; Put(x, "id", id, a); Put(x, "wt", Fix(ci.weight, 6400), a); Put(x, "tint", ci.enableTinting, a); JV cv = Arr(); cv.PushBack((int)ci.tinting.color.r, a).PushBack((int)ci.tinting.color.g, a).PushBack((int)ci.tinting.color.b, a); Put(x, "col", cv, a); Put(x, "bp", Fix(ci.blackPoint, 100000), a); Put(x, "wp", Fix(ci.whitePoint, 100000), a); Put(x, "ln", ci.lookUpTableElementCount, a);
                    bool ok = true; if (ci.lookUpTableElementCount) { auto& q = p.channelDisplaySettings[id]; std::vector<std::uint8_t> want; if (q.gradationCurveMode == IDisplaySettings::GradationCurveMode::Gamma) want = Utils::Create8BitLookUpTableFromGamma(ci.lookUpTableElementCount, q.blackPoint, q.whitePoint, q.gamma); else { std::vector<IDisplaySettings::SplineData> sd; ds->GetChannelDisplaySettings(id)->TryGetSplineData(&sd); want = Utils::Create8BitLookUpTableFromSplines(ci.lookUpTableElementCount, q.blackPoint, q.whitePoint, sd); } ok = want.size() == (size_t)ci.lookUpTableElementCount && std::memcmp(want.data(), ci.ptrLookUpTable, want.size()) == 0; }
                    Put(x, "lutok", ok && ci.ptrLookUpTable == cj.ptrLookUpTable && ci.weight == cj.weight, a); act.PushBack(x, a);
                } }, &det);
            Put(e, "r2", r2 == "ok" ? r2 : r2 + ":" + det, a); Put(e, "act", act, a); Put(e, "ena", en, a);
        }
        else { fprintf(stderr, "unknown op %s\n", o.c_str()); exit(3); }
        ev.PushBack(e, a);
    }
}
static Family f("disp", Ep);
