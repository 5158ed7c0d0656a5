// family "info": document information read from and written to metadata
#include "drv.h"
#include <charconv>
#include <cmath>
#include <cstring>
#include <limits>
#include "libCZI_Metadata.h"
#include "libCZI_Metadata2.h"
#include "libCZIApi.h"
#include <algorithm>
using namespace libCZI;
static std::string U8(const std::wstring& w) { std::string s; for (wchar_t c : w) { unsigned u = (unsigned)c; if (u < 0x80) s += (char)u; else if (u < 0x800) { s += (char)(0xC0 | (u >> 6)); s += (char)(0x80 | (u & 63)); } else if (u < 0x10000) { s += (char)(0xE0 | (u >> 12)); s += (char)(0x80 | ((u >> 6) & 63)); s += (char)(0x80 | (u & 63)); } else { s += (char)(0xF0 | (u >> 18)); s += (char)(0x80 | ((u >> 12) & 63)); s += (char)(0x80 | ((u >> 6) & 63)); s += (char)(0x80 | (u & 63)); } } return s; }
static std::wstring W(const std::string& s) { std::wstring w; for (size_t i = 0; i < s.size();) { unsigned char c = s[i]; unsigned u; int n; if (c < 0x80) { u = c; n = 1; } else if (c < 0xE0) { u = c & 31; n = 2; } else if (c < 0xF0) { u = c & 15; n = 3; } else { u = c & 7; n = 4; } for (int k = 1; k < n && i + k < s.size(); ++k) u = (u << 6) | (s[i + k] & 63); w += (wchar_t)u; i += n; } return w; }
// digits and exponent of the shortest decimal text of a number
static JV Dig(const char* b, const char* e, JA& a)
{
    long long m = 0; int x = 0, n = 0; bool neg = false, frac = false; const char* p = b;
    if (p < e && *p == '-') { neg = true; ++p; }
    int zeros = 0;
    for (; p < e && *p != 'e'; ++p) { if (*p == '.') { frac = true; continue; } if (*p == '0') { ++zeros; if (frac) --x; continue; } if (m) { for (int k = 0; k < zeros; ++k) { m *= 10; ++n; } } zeros = 0; m = m * 10 + (*p - '0'); ++n; if (frac) --x; if (n > 9) break; }
    x += zeros; if (p < e && *p == 'e') x += std::atoi(std::string(p + 1, e).c_str());
    JV v = Arr(); if (n > 9) v.PushBack(0, a).PushBack(998, a); else if (m == 0) v.PushBack(0, a).PushBack(0, a); else v.PushBack((int)(neg ? -m : m), a).PushBack(x, a); return v;
}
static JV Num(double d, JA& a) { if (std::isnan(d) || std::isinf(d)) { JV v = Arr(); v.PushBack(0, a).PushBack(999, a); return v; } char b[64]; auto r = std::to_chars(b, b + 64, d, std::chars_format::scientific); return Dig(b, r.ptr, a); }
static JV Num(std::uint64_t d, JA& a) { char b[64]; auto r = std::to_chars(b, b + 64, d); return Dig(b, r.ptr, a); }
static double Dbl(int m, int x) { return std::strtod((std::to_string(m) + "e" + std::to_string(x)).c_str(), nullptr); }
static double Dbl(const JV& v) { return Dbl(v[0].GetInt(), v[1].GetInt()); }
// plain text of m * 10^x
static std::string Plain(int m, int x)
{
    std::string s = std::to_string(m < 0 ? -(long long)m : (long long)m); if (x > 0) s += std::string(x, '0'); else if (x < 0) { while ((int)s.size() <= -x) s = "0" + s; s.insert(s.size() + x, "."); } return (m < 0 ? "-" : "") + s;
}
static std::string NumText(int m, int x, int f)
{
    switch (f) { case 1: return std::to_string(m) + "e" + std::to_string(x); case 2: return "  " + Plain(m, x) + " "; case 3: return (m >= 0 ? "+" : "") + Plain(m, x); case 4: return Plain(m, x) + (x < 0 ? "00" : ".0"); case 5: return "\n\t" + Plain(m, x) + "\n"; case 6: return std::to_string(m) + "E" + (x >= 0 ? "+" : "") + std::to_string(x); default: return Plain(m, x); }
}
static std::string Esc(const std::string& s) { std::string o; for (char c : s) o += c == '&' ? std::string("&amp;") : c == '<' ? std::string("&lt;") : c == '>' ? std::string("&gt;") : c == '"' ? std::string("&quot;") : std::string(1, c); return o; }
static std::string RangeText(const JV& r, int f)
{
    std::string o; for (auto& it : r.GetArray())
    {
        if (!o.empty()) o += f == 1 ? " , " : f == 2 ? ", " : ","; std::string s = S(it, "s"), sp = f == 1 ? " " : "";
        if (s == "v") o += Plain(it["a"][0].GetInt(), it["a"][1].GetInt()); else if (s == "r") o += Plain(it["a"][0].GetInt(), it["a"][1].GetInt()) + sp + "-" + sp + Plain(it["b"][0].GetInt(), it["b"][1].GetInt());
        else if (s == "f") o += Plain(it["a"][0].GetInt(), it["a"][1].GetInt()) + sp + "-"; else o += "-" + sp + Plain(it["b"][0].GetInt(), it["b"][1].GetInt());
    }
    return o;
}
static std::string DateText(const JV& t) { char b[64]; std::snprintf(b, 64, "%s%04d-%02d-%02dT%02d:%02d:%02d", t[0].GetInt() < 0 ? "-" : "", std::abs(t[0].GetInt()), t[1].GetInt(), t[2].GetInt(), t[3].GetInt(), t[4].GetInt(), t[5].GetInt()); std::string s = b; if (t[6].GetInt() == 1) s += "Z"; return s; }
static std::string ValText(const JV& v)
{
    std::string k = S(v, "k"); int f = I(v, "f");
    if (k == "s" || k == "j") return S(v, "s"); if (k == "d") return NumText(I(v, "m"), I(v, "x"), f); if (k == "i") return f == 2 ? "  " + std::to_string(I(v, "i")) + " " : std::to_string(I(v, "i"));
    if (k == "b") return B(v, "b") ? (f == 1 ? "1" : "true") : (f == 1 ? "0" : "false"); if (k == "r") return RangeText(v["r"], f); if (k == "t") return DateText(v["t"]);
    if (k == "c") { char b[16]; std::snprintf(b, 16, f ? "#%02X%02X%02X%02X" : "#%02x%02x%02x%02x", 255, v["rgb"][0].GetInt(), v["rgb"][1].GetInt(), v["rgb"][2].GetInt()); return b; }
    if (k == "l") { std::string o; for (auto& x : v["l"].GetArray()) { if (!o.empty()) o += " "; o += Plain(x[0].GetInt(), x[1].GetInt()); } return o; }
    return "";
}
static void Xml(const JV& n, std::string& o)
{
    o += "<" + S(n, "n"); for (auto& x : n["a"].GetArray()) o += std::string(" ") + x[0].GetString() + "=\"" + Esc(x[1].GetString()) + "\""; std::string t = Esc(ValText(n["v"]));
    if (t.empty() && n["c"].Size() == 0) { o += "/>"; return; } o += ">" + t; for (auto& c : n["c"].GetArray()) Xml(c, o); o += "</" + S(n, "n") + ">";
}
struct Seg : public IMetadataSegment
{
    std::string x; std::shared_ptr<const void> GetRawData(MemBlkType t, size_t* z) override { if (t != XmlMetadata) { if (z) *z = 0; return nullptr; } if (z) *z = x.size(); auto p = std::shared_ptr<char>(new char[x.size() + 1], [](char* q) { delete[] q; }); std::memcpy(p.get(), x.data(), x.size()); return p; }
    void DangerousGetRawData(MemBlkType t, const void*& p, size_t& z) const override { if (t == XmlMetadata) { p = x.data(); z = x.size(); } else { p = nullptr; z = 0; } }
};
struct F
{
    JV o = Obj(); JA& a; F(JA& al) : a(al) {}
    void Opt(const char* n, bool has, JV v) { JV l = Arr(); if (has) l.PushBack(v, a); Put(o, n, l, a); }
    void s(const char* n, bool h, const std::wstring& v) { Opt(n, h, JV(U8(v).c_str(), a)); }
    void d(const char* n, bool h, double v) { Opt(n, h, Num(v, a)); }
    void i(const char* n, bool h, long long v) { Opt(n, h, JV(Clamp(v))); }
    void b(const char* n, bool h, bool v) { Opt(n, h, JV(v)); }
};
#define FS(n, g) { std::wstring v; bool h = x->g(&v); f.s(n, h, v); }
#define FD(n, g) { double v = -7; bool h = x->g(&v); f.d(n, h, v); }
#define FI(n, g) { int v = -7; bool h = x->g(&v); f.i(n, h, v); }
#define FB(n, g) { bool v = false; bool h = x->g(&v); f.b(n, h, v); }
#define FE(n, g, T) { T v{}; bool h = x->g(&v); f.i(n, h, (int)v); }
static JV Range(bool one, JV A, JV Bv, JA& a) { JV o = Obj(); Put(o, "one", one, a); Put(o, "a", A, a); Put(o, "b", Bv, a); return o; }
static JV L1(const char* s, JA& a) { JV l = Arr(); l.PushBack(JV(s, a), a); return l; }
static JV L2(JV n, JA& a) { JV l = Arr(); l.PushBack(JV("n", a), a).PushBack(n, a); return l; }
static JV RangeD(const RangeOrSingleValue<double>& r, JA& a) { return Range(r.singleValue, !r.singleValue && r.startOrSingleValue <= (std::numeric_limits<double>::min)() ? L1("low", a) : L2(Num(r.startOrSingleValue, a), a), r.singleValue ? L1("any", a) : r.end >= (std::numeric_limits<double>::max)() ? L1("high", a) : L2(Num(r.end, a), a), a); }
static JV RangeU(const RangeOrSingleValue<std::uint64_t>& r, JA& a) { return Range(r.singleValue, !r.singleValue && r.startOrSingleValue == 0 ? L1("low", a) : L2(Num(r.startOrSingleValue, a), a), r.singleValue ? L1("any", a) : r.end == (std::numeric_limits<std::uint64_t>::max)() ? L1("high", a) : L2(Num(r.end, a), a), a); }
static JV SpecV(const SpectrumCharacteristics& s, JA& a) { JV o = Obj(); bool p = s.type == SpectrumCharacteristics::InformationType::SinglePeak; Put(o, "peak", p, a); JV v = p ? Num(s.singlePeak, a) : Arr(), r = Arr(); if (!p) for (auto& q : s.ranges) r.PushBack(RangeD(q, a), a); Put(o, "v", v, a); Put(o, "r", r, a); return o; }
static JV DetV(IDimensionChannelDetectorSettings* x, JA& a)
{
    F f(a); FS("Detector", TryGetDetectorRef) FE("Binning", TryGetBinning, ChannelDetectorSettingsBinning) FE("Shutter", TryGetShutter, ChannelDetectorSettingsShutter) FD("PhotonConversionFactor", TryGetPhotonConversionFactor) FD("Gain", TryGetGain) FD("DigitalGain", TryGetDigitalGain)
    FD("Offset", TryGetOffset) FD("EMGain", TryGetEMGain) FD("Voltage", TryGetVoltage) FD("ReadOutRate", TryGetReadOutRate) FB("UseBrightnessContrastCorrection", TryGetUseBrightnessContrastCorrection) FD("PixelMaximum", TryGetPixelMaximum) FD("PixelAccuracy", TryGetPixelAccuracy)
    FD("PixelScaleFactor", TryGetPixelScaleFactor) FE("CameraProcessingMode", TryGetCameraProcessingMode, ChannelDetectorCameraProcessingMode) return std::move(f.o);
}
static JV LsV(IDimensionChannelLightSourcesSetting* x, JA& a)
{
    F f(a); FS("LightSource", TryGetLightSourceRef) FD("Wavelength", TryGetWavelength) FD("Attenuation", TryGetAttenuation) FD("Transmission", TryGetTransmission) FS("Intensity", TryGetIntensity) FD("FlashDuration", TryGetFlashDuration) FD("TIRFAngle", TryGetTIRFAngle)
    FD("TIRFDepthOfPenetration", TryGetTIRFDepthOfPenetration) FB("IsTIRFCalibrated", TryGetIsTIRFCalibrated) FB("IsNlo", TryGetIsNlo)
    IDimensionChannelLightSourcesSetting::Polarization p; bool h = x->TryGetPolarization(&p); F g(a); if (h) for (int k = 0; k < 4; ++k) g.d(("StokesParameter" + std::to_string(k + 1)).c_str(), p.stokesParameterValid[k], p.stokesParameter[k]); f.Opt("Polarization", h, std::move(g.o)); return std::move(f.o);
}
static JV LpV(IDimensionChannelLightPath* x, JA& a) { F f(a); FS("ExcitationFilter", TryGetExcitationFilterRef) FS("Dichroic", TryGetDichroicFilterRef) FS("EmissionFilter", TryGetEmissionFilterRef) return std::move(f.o); }
static JV ScanV(IDimensionChannelLaserScanInfo* x, JA& a)
{
    F f(a); FD("PixelTime", TryGetPixelTime) FD("LineTime", TryGetLineTime) FD("FrameTime", TryGetFrameTime) FI("Averaging", TryGetAveraging) FE("ScanningMode", TryGetScanningMode, DimensionChannelLaserScanScanningMode) FD("SampleRotation", TryGetSampleRotation) FD("SampleOffsetX", TryGetSampleOffsetX)
    FD("SampleOffsetY", TryGetSampleOffsetY) FE("ScanDirection", TryGetScanDirection, DimensionChannelLaserScanScanDirection) FD("ZoomX", TryGetZoomX) FD("ZoomY", TryGetZoomY) FD("ZoomZ", TryGetZoomZ) FD("CropOffset", TryGetCropOffset) FD("LaserAttenuatorMeas", TryGetLaserAttenuatorMeas)
    FD("LaserBlanking", TryGetLaserBlanking) FD("LaserAttenuatorBleach", TryGetLaserAttenuatorBleach) { std::uint32_t v = 7; bool h = x->TryGetLineStep(&v); f.i("LineStep", h, v); } FI("ScanSpeed", TryGetScanSpeed) FE("AveragingMethod", TryGetAveragingMethod, DimensionChannelLaserScanAveragingMethod)
    FE("AveragingMode", TryGetAveragingMode, DimensionChannelLaserScanAveragingMode) FE("LaserAttenuatorState", TryGetLaserAttenuatorState, DimensionChannelLaserScanLaserAttenuatorState) return std::move(f.o);
}
static JV ObjV(IInstrumentObjectiveSettings* x, JA& a) { F f(a); FS("ObjectiveRef", TryGetObjectiveRef) FE("Medium", TryGetMedium, IInstrumentObjectiveSettings::Medium) FD("CorrectionCollar", TryGetCorrectionCollar) FD("CorrectionCollar2", TryGetCorrectionCollar2) FS("CorrectionControllerMode", TryGetCorrectionControllerMode) FD("CorrectionControllerBottomThickness", TryGetCorrectionControllerBottomThickness) FD("CorrectionControllerImagingDepth", TryGetCorrectionControllerImagingDepth) FD("RefractiveIndex", TryGetRefractiveIndex) return std::move(f.o); }
static JV SpimV(IDimensionChannelSPIMIlluminationSettings* x, JA& a)
{
    F f(a); FD("NALightSheet", TryGetNALightSheet) FE("BeamType", TryGetBeamType, DimensionChannelSPIMIlluminationSettingsBeamType) FS("CylinderLensRef", TryGetCylinderLensRef)
    auto ob = x->GetIlluminationObjectiveSettings(); f.Opt("IlluminationObjectiveSettings", !!ob, ob ? ObjV(ob.get(), a) : Obj());
    auto rs = x->GetResonanceScannerSettings(); { F g(a); if (rs) { auto x = rs.get(); double v = -7; bool h = x->TryGetAmplitude(&v); g.d("Amplitude", h, v); } f.Opt("ResonanceScannerSettings", !!rs, std::move(g.o)); }
    auto gs = x->GetGalvoScannerSettings(); { JV o = Obj(); if (gs) { F f(a); auto x = gs.get(); FD("AmplitudeYScan", TryGetAmplitudeYScan) FD("Frequency", TryGetFrequency) FD("Offset1Left", TryGetOffset1Left) FD("Offset1Right", TryGetOffset1Right) FD("Offset2Left", TryGetOffset2Left) FD("Offset2Right", TryGetOffset2Right) o = std::move(f.o); } f.Opt("GalvoScannerSettings", !!gs, std::move(o)); }
    return std::move(f.o);
}
static JV SimV(IDimensionChannelSIMSettings* x, JA& a) { F f(a); FS("SIMDeviceRef", TryGetSIMDeviceRef) FD("GratingPeriod", TryGetGratingPeriod) FD("GratingRotation", TryGetGratingRotation) FS("GridDescription", TryGetGridDescription) FS("Reflector", TryGetReflector) FS("FilterSetRef", TryGetFilterSetRef) FD("DiffractionEfficiency1", TryGetDiffractionEfficiency1) FD("DiffractionEfficiency2", TryGetDiffractionEfficiency2) FD("DiffractionEfficiency3", TryGetDiffractionEfficiency3) return std::move(f.o); }
static JV AiryV(IDimensionChannelAiryscanSettings* x, JA& a)
{
    F f(a); FE("Mode", TryGetMode, IDimensionChannelAiryscanSettings::Mode) FD("VirtualPinholeSize", TryGetVirtualPinholeSize) FD("Magnification", TryGetMagnification) FD("TransformationXX", TryGetTransformationXX) FD("TransformationXY", TryGetTransformationXY) FD("TransformationYX", TryGetTransformationYX) FD("TransformationYY", TryGetTransformationYY)
    auto q = x->GetFastAiryScanSettings(); JV o = Obj();
    if (q)
    {
        F g(a); auto vec = [&](const char* n, bool h, IFastAiryScanSettings::Vector v) { JV l = Arr(); l.PushBack(Num(v.x, a), a).PushBack(Num(v.y, a), a); g.Opt(n, h, std::move(l)); };
        IFastAiryScanSettings::Vector v{ -7, -7 }; bool h = q->TryGetIlluminationLinePixels(&v); vec("IlluminationLinePixels", h, v); v = { -7, -7 }; h = q->TryGetIlluminationLine(&v); vec("IlluminationLine", h, v);
        std::vector<int> m; h = q->TryGetFiberMapping(&m); JV l = Arr(); for (int k : m) l.PushBack(k, a); g.Opt("FiberMapping", h, std::move(l)); double d = -7; h = q->TryGetEffectiveNAinX(&d); g.d("EffectiveNA_in_x", h, d); h = q->TryGetEffectiveNAinY(&d); g.d("EffectiveNA_in_y", h, d); o = std::move(g.o);
    }
    f.Opt("FastAiryScanSettings", !!q, std::move(o)); return std::move(f.o);
}
static JV RatioV(IDimensionChannelRatio* x, JA& a)
{
    F f(a); FE("Type", TryGetType, IDimensionChannelRatio::Type) FD("Const1", TryGetConst1) FD("Const2", TryGetConst2) FD("Const3", TryGetConst3) FD("Const4", TryGetConst4) FD("Const5", TryGetConst5) FD("Const6", TryGetConst6)
    auto refs = [&](const char* n, bool h, const std::vector<std::wstring>& v) { JV l = Arr(); for (auto& s : v) l.PushBack(JV(U8(s).c_str(), a), a); f.Opt(n, h, std::move(l)); }; std::vector<std::wstring> v; bool h = x->TryGetSource1(&v); refs("Source1", h, v); v.clear(); h = x->TryGetSource2(&v); refs("Source2", h, v); return std::move(f.o);
}
static JV ChanV(IDimensionChannelInfo* x, JA& a)
{
    F f(a); FS("@Id", TryGetAttributeId) FS("@Name", TryGetAttributeName) FE("ChannelType", TryGetChannelType, DimensionChannelChannelType) FS("ChannelUnit", TryGetChannelUnit) FE("PixelType", TryGetPixelType, PixelType) FI("ComponentBitCount", TryGetComponentBitCount) FE("AcquisitionMode", TryGetAcquisitionMode, DimensionChannelAcquisitionMode)
    FE("IlluminationType", TryGetIlluminationType, DimensionChannelIlluminationType) FE("ContrastMethod", TryGetContrastMethod, DimensionChannelContrastMethod)
    { SpectrumCharacteristics v; bool h = x->TryGetIlluminationWavelength(&v); f.Opt("IlluminationWavelength", h, h ? SpecV(v, a) : Obj()); } { SpectrumCharacteristics v; bool h = x->TryGetDetectionWavelength(&v); f.Opt("DetectionWavelength", h, h ? SpecV(v, a) : Obj()); }
    FD("ExcitationWavelength", TryGetExcitationWavelength) FD("EmissionWavelength", TryGetEmissionWavelength) FD("EffectiveNA", TryGetEffectiveNA) FS("DyeId", TryGetDyeId) FS("DyeDatabaseId", TryGetDyeDatabaseId) FD("PinholeSize", TryGetPinholeSize) FD("PinholeSizeAiry", TryGetPinholeSizeAiry) FE("PinholeGeometry", TryGetPinholeGeometry, DimensionChannelPinholeGeometry)
    FS("Fluor", TryGetFluor) FD("NDFilter", TryGetNDFilter) FI("PockelCellSetting", TryGetPocketCellSetting) { Rgb8Color c{ 0, 0, 0 }; bool h = x->TryGetColor(&c); JV l = Arr(); l.PushBack((int)c.r, a).PushBack((int)c.g, a).PushBack((int)c.b, a); f.Opt("Color", h, std::move(l)); }
    { RangeOrSingleValue<std::uint64_t> v{}; bool h = x->TryGetExposureTime(&v); f.Opt("ExposureTime", h, h ? RangeU(v, a) : Obj()); } FD("DepthOfFocus", TryGetDepthOfFocus) FD("SectionThickness", TryGetSectionThickness)
    { auto q = x->GetDetectorSettings(); f.Opt("DetectorSettings", !!q, q ? DetV(q.get(), a) : Obj()); }
    { auto q = x->GetLightSourcesSettings(); JV l = Arr(); if (q) for (int k = 0; k < q->GetLightSourceSettingCount(); ++k) l.PushBack(LsV(q->GetLightSourceSetting(k).get(), a), a); f.Opt("LightSourcesSettings", !!q, std::move(l)); }
    { auto q = x->GetLightPath(); f.Opt("LightPath", !!q, q ? LpV(q.get(), a) : Obj()); } { auto q = x->GetLaserScanInfo(); f.Opt("LaserScanInfo", !!q, q ? ScanV(q.get(), a) : Obj()); } { auto q = x->GetSPIMIlluminationSettings(); f.Opt("SPIMIlluminationSettings", !!q, q ? SpimV(q.get(), a) : Obj()); }
    { auto q = x->GetSPIMDetectionSettings(); F g(a); if (q) { double v = -7; bool h = q->TryGetNADetection(&v); g.d("NADetection", h, v); } f.Opt("SPIMDetectionSettings", !!q, std::move(g.o)); } { auto q = x->GetSIMSettings(); f.Opt("SIMSettings", !!q, q ? SimV(q.get(), a) : Obj()); }
    { auto q = x->GetPolarizingSettings(); F g(a); if (q) { double v = -7; bool h = q->TryGetPolarizerAngle(&v); g.d("PolarizerAngle", h, v); h = q->TryGetAnalyzerAngle(&v); g.d("AnalyzerAngle", h, v); } f.Opt("PolarizingSettings", !!q, std::move(g.o)); }
    { auto q = x->GetAiryscanSettings(); f.Opt("AiryscanSettings", !!q, q ? AiryV(q.get(), a) : Obj()); } FS("Reflector", TryGetReflector) FS("CondenserContrast", TryGetCondenserContrast) FD("NACondenser", TryGetNACondenser) { auto q = x->GetRatio(); f.Opt("Ratio", !!q, q ? RatioV(q.get(), a) : Obj()); }
    return std::move(f.o);
}
template <class P> static JV PosV(bool hi, double s, double n, bool hl, const P& l, JA& a, bool* has)
{
    JV o = Obj(); *has = hi || hl; Put(o, "k", hi && hl ? "both" : hi ? "i" : "l", a); JV A = Num(s, a), Bv = Num(n, a), L = Arr(); for (double d : l) L.PushBack(Num(d, a), a); Put(o, "a", A, a); Put(o, "b", Bv, a); Put(o, "l", L, a); return o;
}
static JV DocV(const GeneralDocumentInfo& g, JA& a) { F f(a); f.s("Name", g.name_valid, g.name); f.s("Title", g.title_valid, g.title); f.s("UserName", g.userName_valid, g.userName); f.s("Description", g.description_valid, g.description); f.s("Comment", g.comment_valid, g.comment); f.s("Keywords", g.keywords_valid, g.keywords); f.i("Rating", g.rating_valid, g.rating); f.s("CreationDate", g.creationDateTime_valid, g.creationDateTime); return std::move(f.o); }
static JV Read(const std::string& xml, JA& a)
{
    Seg seg; seg.x = xml; auto md = CreateMetaFromMetadataSegment(&seg); JV o = Obj(); Put(o, "valid", md->IsXmlValid(), a); auto di = md->GetDocumentInfo();
    JV d = DocV(di->GetGeneralDocumentInfo(), a); Put(o, "doc", d, a); JV sc = Obj(), s2 = Obj(); auto si = di->GetScalingInfoEx(); auto sj = di->GetScalingInfo();
    for (char c : { 'X', 'Y', 'Z' }) { F f(a); f.d("Value", si.IsScaleValid(c), si.GetScale(c)); f.s("DefaultUnitFormat", !si.GetDefaultUnitFormat(c).empty(), si.GetDefaultUnitFormat(c)); char n[2] = { c, 0 }; Put(sc, n, f.o, a); JV l = Arr(); if (sj.IsScaleValid((char)(c + 32))) l.PushBack(Num(sj.GetScale((char)(c + 32)), a), a); Put(s2, n, l, a); }
    Put(o, "sc", sc, a); Put(o, "s2", s2, a); JV dims = Arr();
    di->EnumDimensions([&](DimensionIndex x) { JV l = Arr(); auto q = di->GetDimensionInfo(x); int s = -7, e = -7; bool es = false, ee = false; q->GetInterval(&s, &e); q->GetIntervalIsExplicitlyStated(&es, &ee); std::string n(1, Utils::DimensionToChar(q->GetDimension() == x ? x : DimensionIndex::invalid)); l.PushBack(JV(n.c_str(), a), a).PushBack(s, a).PushBack(e, a).PushBack(es, a).PushBack(ee, a); dims.PushBack(l, a); return true; });
    Put(o, "dims", dims, a);
    JV none = Arr(); for (char c : std::string("ZCTRSIHVB")) { if (!di->GetDimensionInfo(Utils::CharToDimension(c))) { char n[2] = { c, 0 }; none.PushBack(JV(n, a), a); } } Put(o, "nodim", none, a);
    { auto x = di->GetDimensionZInfo(); JV l = Arr(); if (x) { F f(a); FD("StartPosition", TryGetReferencePosition) FE("XYZHandedness", TryGetXyzHandedness, IDimensionZInfo::XyzHandedness) FE("ZAxisDirection", TryGetZAxisDirection, IDimensionZInfo::ZaxisDirection) FE("ZDriveMode", TryGetZDriveMode, IDimensionZInfo::ZDriveMode) FD("ZDriveSpeed", TryZDriveSpeed) double s = 0, n = 0; std::vector<double> p; bool hi = x->TryGetIntervalDefinition(&s, &n), hl = x->TryGetPositionList(&p), h; JV v = PosV(hi, s, n, hl, p, a, &h); f.Opt("Positions", h, std::move(v)); l.PushBack(f.o, a); } Put(o, "z", l, a); }
    { auto x = di->GetDimensionTInfo(); JV l = Arr(); if (x) { F f(a); XmlDateTime t; t.Clear(); bool ht = x->TryGetStartTime(&t); JV tv = Arr(); for (int k : { t.year, t.mon, t.mday, t.hour, t.min, t.sec, t.isUTC ? 1 : 0 }) tv.PushBack(k, a); f.Opt("StartTime", ht, std::move(tv)); double s = 0, n = 0; std::vector<double> p; bool hi = x->TryGetIntervalDefinition(&s, &n), hl = x->TryGetOffsetsList(&p), h; JV v = PosV(hi, s, n, hl, p, a, &h); f.Opt("Positions", h, std::move(v)); l.PushBack(f.o, a); } Put(o, "t", l, a); }
    { auto x = di->GetDimensionChannelsInfo(); JV l = Arr(); bool out = false; if (x) { JV q = Arr(); for (int k = 0; k < x->GetChannelCount(); ++k) q.PushBack(ChanV(x->GetChannel(k).get(), a), a); l.PushBack(q, a); out = !!x->GetChannel(x->GetChannelCount()) || !!x->GetChannel(-1); } Put(o, "ch", l, a); Put(o, "out", out, a); }
    return o;
}
// ---- the same information through the C interface (JSON texts), in the same shape ----
struct CSrc { Bytes* d; };
static std::int32_t CRd(std::uintptr_t h, std::uintptr_t, std::uint64_t off, void* pv, std::uint64_t n, std::uint64_t* pr, ExternalStreamErrorInfoInterop*) { auto& d = *((CSrc*)h)->d; std::uint64_t k = off < d.size() ? std::min<std::uint64_t>(n, d.size() - off) : 0; if (k) std::memcpy(pv, d.data() + off, k); if (pr) *pr = k; return 0; }
static void CCl(std::uintptr_t, std::uintptr_t) {}
static JV JNum(const JV& v, JA& a) { return Num(v.IsNumber() ? v.GetDouble() : std::numeric_limits<double>::quiet_NaN(), a); }
static JV JNums(const JV& v, JA& a) { JV l = Arr(); if (v.IsArray()) for (auto& x : v.GetArray()) l.PushBack(JNum(x, a), a); return l; }
static JV JStr(const JV& v, JA& a) { return JV(v.IsString() ? v.GetString() : "(not a text)", a); }
// "a", "a-b" separated by commas
static JV JRanges(const JV& v, JA& a, bool u)
{
    JV l = Arr(); std::string s = v.IsString() ? v.GetString() : "(not a text)"; const char* p = s.c_str(); char* e;
    for (;;)
    {
        double A = std::strtod(p, &e), Bd = 0; if (e == p) { JV o = Range(true, L1("malformed", a), L1("any", a), a); l.PushBack(o, a); break; } p = e; bool one = true; if (*p == '-') { Bd = std::strtod(p + 1, &e); one = false; if (e == p + 1) Bd = std::numeric_limits<double>::quiet_NaN(); p = e; }
        JV o = Range(one, !one && A <= (u ? 0 : 2.3e-308) ? L1("low", a) : L2(Num(A, a), a), one ? L1("any", a) : Bd >= (u ? 1.8446744073709e19 : 1.79e308) ? L1("high", a) : L2(Num(Bd, a), a), a); l.PushBack(o, a);
        if (*p == ',') { ++p; continue; } if (*p) { JV q = Range(true, L1("malformed", a), L1("any", a), a); l.PushBack(q, a); } break;
    }
    return l;
}
static JV JSpec(const JV& v, JA& a) { JV o = Obj(); std::string t = v.IsObject() ? S(v, "type") : "?"; Put(o, "peak", t == "SinglePeak", a); JV x = t == "SinglePeak" && Has(v, "single_peak") ? JNum(v["single_peak"], a) : Arr(), r = t == "Ranges" && Has(v, "ranges") ? JRanges(v["ranges"], a, false) : Arr(); Put(o, "v", x, a); Put(o, "r", r, a); return o; }
static JV JColor(const JV& v, JA& a) { JV l = Arr(); std::string s = v.IsString() ? v.GetString() : ""; for (int k = 0; k < 3; ++k) { int x = -1; if (s.size() == 7 && s[0] == '#') x = (int)std::strtol(s.substr(1 + 2 * k, 2).c_str(), nullptr, 16); l.PushBack(x, a); } return l; }
// kinds: s text, d number, i integer, c colour, x exposure time, p spectrum
static JV JFields(const JV& j, std::initializer_list<const char*> m, JA& a)
{
    JV o = Obj(); int known = 0;
    for (auto t = m.begin(); t != m.end(); t += 3)
    {
        JV l = Arr(); auto it = j.FindMember(t[0]);
        if (it != j.MemberEnd()) { ++known; const JV& v = it->value; switch (t[2][0]) { case 's': l.PushBack(JStr(v, a), a); break; case 'd': l.PushBack(JNum(v, a), a); break; case 'i': l.PushBack(v.IsInt() ? v.GetInt() : -1999999999, a); break; case 'c': l.PushBack(JColor(v, a), a); break; case 'x': { JV r = JRanges(v, a, true); if (r.Size() == 1) l.PushBack(r[0], a); break; } case 'p': l.PushBack(JSpec(v, a), a); break; case 'l': case 'v': { JV q = JNums(v, a); JV p = Obj(); Put(p, "k", t[2][0] == 'v' ? "i" : "l", a); JV e1 = t[2][0] == 'v' && q.Size() == 2 ? Copy(q[0], a) : Arr(), e2 = t[2][0] == 'v' && q.Size() == 2 ? Copy(q[1], a) : Arr(); Put(p, "a", e1, a); Put(p, "b", e2, a); Put(p, "l", q, a); l.PushBack(p, a); break; } } }
        if (o.HasMember(t[1])) { for (auto& x : l.GetArray()) o[t[1]].PushBack(x, a); } else Put(o, t[1], l, a);
    }
    Put(o, "#", (int)j.MemberCount() - known, a); return o;
}
static JV CRead(const std::string& xml, JA& a)
{
    auto f = std::make_shared<MemFile>(); auto w = CreateCZIWriter(); w->Create(f, std::make_shared<CCziWriterInfo>(GuidFrom(3))); WriteMetadataInfo m; m.Clear(); m.szMetadata = xml.data(); m.szMetadataSize = xml.size(); w->SyncWriteMetadata(m); w->Close();
    CSrc src{ &f->data }; ExternalInputStreamStructInterop st; st.opaque_handle1 = (std::uintptr_t)&src; st.opaque_handle2 = 0; st.read_function = CRd; st.close_function = CCl; ObjectHandle in = 0, rd = 0, md = 0, di = 0; auto need = [](int rc, const char* t) { if (rc) throw std::runtime_error(std::string(t) + " returned " + std::to_string(rc)); };
    need(libCZI_CreateInputStreamFromExternal(&st, &in), "CreateInputStreamFromExternal"); need(libCZI_CreateReader(&rd), "CreateReader"); ReaderOpenInfoInterop oi; oi.streamObject = in; need(libCZI_ReaderOpen(rd, &oi), "ReaderOpen"); need(libCZI_ReaderGetMetadataSegment(rd, &md), "ReaderGetMetadataSegment"); need(libCZI_MetadataSegmentGetCziDocumentInfo(md, &di), "MetadataSegmentGetCziDocumentInfo");
    auto json = [&](void* p) { JD d; d.Parse((const char*)p); libCZI_Free(p); if (d.HasParseError() || !d.IsObject()) d.SetNull(); return d; };
    JV o = Obj(), bad = Arr(); void* p = nullptr; int rc = libCZI_CziDocumentInfoGetGeneralDocumentInfo(di, &p); need(rc, "GetGeneralDocumentInfo");
    { JD d = json(p); JV v = d.IsNull() ? (bad.PushBack(JV("general information", a), a), Obj()) : JFields(d, { "name", "Name", "s", "title", "Title", "s", "user_name", "UserName", "s", "description", "Description", "s", "comment", "Comment", "s", "keywords", "Keywords", "s", "rating", "Rating", "i", "creation_date_time", "CreationDate", "s" }, a); Put(o, "doc", v, a); }
    ScalingInfoInterop si; need(libCZI_CziDocumentInfoGetScalingInfo(di, &si), "GetScalingInfo"); JV s2 = Obj(); for (int k = 0; k < 3; ++k) { double x = k == 0 ? si.scale_x : k == 1 ? si.scale_y : si.scale_z; JV l = Arr(); if (x == x) l.PushBack(Num(x, a), a); char n[2] = { "XYZ"[k], 0 }; Put(s2, n, l, a); } Put(o, "s2", s2, a);
    std::uint32_t dm[16]; for (auto& x : dm) x = 77; need(libCZI_CziDocumentInfoGetAvailableDimension(di, 16, dm), "GetAvailableDimension"); JV dl = Arr(); for (int k = 0; k < 16 && dm[k] != 0; ++k) { char n[2] = { dm[k] <= 9 ? Utils::DimensionToChar((DimensionIndex)dm[k]) : '?', 0 }; dl.PushBack(JV(n, a), a); } Put(o, "dims", dl, a);
    for (int d = 1; d <= 3; ++d)
    {
        p = nullptr; rc = libCZI_CziDocumentInfoGetDimensionInfo(di, d, &p); JV l = Arr();
        if (rc == 0)
        {
            JD j = json(p); if (j.IsNull()) bad.PushBack(JV(d == 1 ? "Z information" : d == 2 ? "channel information" : "T information", a), a);
            else if (d == 1) l.PushBack(JFields(j, { "reference_position", "StartPosition", "d", "interval_definition", "Positions", "v", "position_list", "Positions", "l", "xyz_handedness", "XYZHandedness", "s", "z_axis_direction", "ZAxisDirection", "s", "z_drive_mode", "ZDriveMode", "s", "z_drive_speed", "ZDriveSpeed", "d" }, a), a);
            else if (d == 3) l.PushBack(JFields(j, { "start_time", "StartTime", "s", "interval_definition", "Positions", "v", "offset_list", "Positions", "l" }, a), a);
            else
            {
                JV q = Arr(); for (unsigned k = 0; k < j.MemberCount(); ++k) { auto it = j.FindMember(std::to_string(k).c_str()); if (it == j.MemberEnd() || !it->value.IsObject()) { q.PushBack(Obj(), a); continue; }
                    q.PushBack(JFields(it->value, { "attribute_id", "@Id", "s", "attribute_name", "@Name", "s", "channel_type", "ChannelType", "s", "channel_unit", "ChannelUnit", "s", "pixel_type", "PixelType", "s", "component_bit_count", "ComponentBitCount", "i", "acquisition_mode", "AcquisitionMode", "s", "illumination_type", "IlluminationType", "s", "contrast_method", "ContrastMethod", "s", "illumination_wavelength", "IlluminationWavelength", "p", "detection_wavelength", "DetectionWavelength", "p",
                        "excitation_wavelength", "ExcitationWavelength", "d", "emission_wavelength", "EmissionWavelength", "d", "effective_na", "EffectiveNA", "d", "dye_id", "DyeId", "s", "dye_database_id", "DyeDatabaseId", "s", "pinhole_size", "PinholeSize", "d", "pinhole_size_airy", "PinholeSizeAiry", "d", "pinhole_geometry", "PinholeGeometry", "s", "fluor", "Fluor", "s", "nd_filter", "NDFilter", "d", "pocket_cell_setting", "PockelCellSetting", "i", "color", "Color", "c", "exposure_time", "ExposureTime", "x",
                        "depth_of_focus", "DepthOfFocus", "d", "section_thickness", "SectionThickness", "d", "reflector", "Reflector", "s", "condensor_contrast", "CondenserContrast", "s", "na_condensor", "NACondenser", "d" }, a), a); }
                l.PushBack(q, a);
            }
        }
        Put(o, d == 1 ? "z" : d == 2 ? "ch" : "t", l, a);
    }
    Put(o, "bad", bad, a); for (auto h : { di, md }) (void)h; libCZI_ReleaseCziDocumentInfo(di); libCZI_ReleaseMetadataSegment(md); libCZI_ReleaseReader(rd); libCZI_ReleaseInputStream(in); return o;
}
// text and number found at a path below the root of a metadata document
static JV Raw(IXmlNodeRead* root, const char* path, JA& a)
{
    JV l = Arr(); auto n = root->GetChildNodeReadonly(path); std::wstring v; if (n && n->TryGetValue(&v)) { std::string s = U8(v); JV o = Obj(); Put(o, "s", s, a); const char* p = s.c_str(); char* e; JV q = Arr(); while (*p) { double d = std::strtod(p, &e); if (e == p) break; q.PushBack(Num(d, a), a); p = e; while (*p == ' ') ++p; } Put(o, "n", q, a); Put(o, "rest", *p != 0, a); std::wstring t; bool h = n->TryGetAttribute(L"Type", &t); Put(o, "type", h ? U8(t) : "", a); l.PushBack(o, a); } return l;
}
static void Ep(const JV& s, JV& ev, JA& a)
{
    std::shared_ptr<ICziMetadataBuilder> b; std::vector<std::string> keys;
    for (auto& c : s["ops"].GetArray())
    {
        JV e(c, a); std::string o = S(c, "o"), det, r; auto num = [&](const char* k) { const JV& v = c[k]; return v.Size() ? Dbl(v) : std::numeric_limits<double>::quiet_NaN(); };
        if (o == "info") { std::string x = "<?xml version=\"1.0\" encoding=\"utf-8\"?>"; Xml(c["tree"], x); JV q = Obj(); r = Guard([&] { q = Read(x, a); }, &det); Put(e, "r", r, a); Put(e, "det", det, a); Put(e, "q", q, a); ev.PushBack(e, a); continue; }
        if (o == "cinfo") { std::string x = "<?xml version=\"1.0\" encoding=\"utf-8\"?>"; Xml(c["tree"], x); JV q = Obj(); r = Guard([&] { q = CRead(x, a); }, &det); Put(e, "r", r, a); Put(e, "det", det, a); Put(e, "q", q, a); ev.PushBack(e, a); continue; }
        if (!b) b = CreateMetadataBuilder();
        r = Guard([&] {
            if (o == "wdoc")
            {
                GeneralDocumentInfo g; const JV& f = c["f"]; auto t = [&](const char* k) { return f[k].Size() ? W(f[k][0].GetString()) : std::wstring(); };
                if (I(c, "via")) { g.name = t("Name"); g.name_valid = f["Name"].Size(); g.title = t("Title"); g.title_valid = f["Title"].Size(); g.userName = t("UserName"); g.userName_valid = f["UserName"].Size(); g.description = t("Description"); g.description_valid = f["Description"].Size(); g.comment = t("Comment"); g.comment_valid = f["Comment"].Size(); g.keywords = t("Keywords"); g.keywords_valid = f["Keywords"].Size(); g.creationDateTime = t("CreationDate"); g.creationDateTime_valid = f["CreationDate"].Size(); g.rating_valid = f["Rating"].Size(); g.rating = g.rating_valid ? f["Rating"][0].GetInt() : 3; }
                else { g.SetName(t("Name")); g.SetTitle(t("Title")); g.SetUserName(t("UserName")); g.SetDescription(t("Description")); g.SetComment(t("Comment")); g.SetKeywords(t("Keywords")); g.SetCreationDate(t("CreationDate")); if (f["Rating"].Size()) g.SetRating(f["Rating"][0].GetInt()); }
                MetadataUtils::WriteGeneralDocumentInfo(b.get(), g);
            }
            else if (o == "wscale") { ScalingInfoEx x; x.scaleX = num("X"); x.scaleY = num("Y"); x.scaleZ = num("Z"); if (B(c, "ex")) { x.defaultUnitFormatX = W(S(c, "UX")); x.defaultUnitFormatY = W(S(c, "UY")); x.defaultUnitFormatZ = W(S(c, "UZ")); MetadataUtils::WriteScalingInfoEx(b.get(), x); } else MetadataUtils::WriteScalingInfo(b.get(), x); }
            else if (o == "wt" || o == "wz")
            {
                std::function<double(int)> fn = [&](int k) { return k < (int)c["l"].Size() ? Dbl(c["l"][k]) : (I(c, "inf") ? std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN()); };
                if (o == "wt") { XmlDateTime t; t.Clear(); bool h = c["t"].Size(); if (h) { t.year = c["t"][0].GetInt(); t.mon = c["t"][1].GetInt(); t.mday = c["t"][2].GetInt(); t.hour = c["t"][3].GetInt(); t.min = c["t"][4].GetInt(); t.sec = c["t"][5].GetInt(); t.isUTC = c["t"][6].GetInt() == 1; } if (B(c, "iv")) MetadataUtils::WriteDimInfoT_Interval(b.get(), h ? &t : nullptr, num("s"), num("n")); else MetadataUtils::WriteDimInfoT_List(b.get(), h ? &t : nullptr, fn); }
                else if (B(c, "iv")) MetadataUtils::WriteDimInfoZ_Interval(b.get(), num("p"), num("s"), num("n")); else MetadataUtils::WriteDimInfoZ_List(b.get(), num("p"), fn);
            }
            else if (o == "wsize") MetadataUtils::WriteImageSizeInformation(b.get(), I(c, "w"), I(c, "h")); else if (o == "wm") MetadataUtils::WriteMIndexSizeInformation(b.get(), I(c, "m")); else if (o == "wdim") MetadataUtils::WriteDimensionSize(b.get(), Utils::CharToDimension(S(c, "d")[0]), I(c, "n"));
            else if (o == "wstat") { SubBlockStatistics st; st.Invalidate(); st.boundingBox = { I(c, "x"), I(c, "y"), I(c, "w"), I(c, "h") }; for (auto& d : c["dims"].GetArray()) st.dimBounds.Set(Utils::CharToDimension(d[0].GetString()[0]), d[1].GetInt(), d[2].GetInt()); if (c["m"].Size()) { st.minMindex = c["m"][0].GetInt(); st.maxMindex = c["m"][1].GetInt(); } MetadataUtils::WriteFillWithSubBlockStatistics(b.get(), st); }
            else if (o == "wkv") { CustomValueVariant v; std::string t = S(c, "t"); if (t == "Int32") v.SetInt32(I(c, "i")); else if (t == "Boolean") v.SetBool(B(c, "b")); else if (t == "Double") v.SetDouble(Dbl(c["d"])); else if (t == "Float") v.SetFloat((float)Dbl(c["d"])); else if (t == "String") v.SetString(S(c, "s")); MetadataUtils::SetOrAddCustomKeyValuePair(b.get(), S(c, "key"), v); }
        }, &det);
        Put(e, "r", r, a); Put(e, "det", det, a);
        // what the document then says
        JV q = Obj(), raw = Obj(); std::string r2 = Guard([&] {
            q = Read(b->GetXml(), a); auto root = b->GetRootNode();
            for (const char* p : { "SizeX", "SizeY", "SizeM", "SizeZ", "SizeC", "SizeT", "SizeR", "SizeS", "SizeI", "SizeH", "SizeV", "SizeB" }) { JV v = Raw(root.get(), (std::string("Metadata/Information/Image/") + p).c_str(), a); Put(raw, p, v, a); }
            for (const char* p : { "T/StartTime", "T/Positions/Interval/Start", "T/Positions/Interval/Increment", "T/Positions/List/Offsets", "Z/StartPosition", "Z/Positions/Interval/Start", "Z/Positions/Interval/Increment", "Z/Positions/List/Offsets" }) { JV v = Raw(root.get(), (std::string("Metadata/Information/Dimensions/") + p).c_str(), a); Put(raw, p, v, a); }
            if (o == "wkv") { JV v = Arr(); if (r == "ok") v = Raw(root.get(), ("Metadata/Information/CustomAttributes/KeyValue/" + S(c, "key")).c_str(), a); Put(raw, "kv", v, a); if (r == "ok") keys.push_back(S(c, "key")); int n = 0; auto kv = root->GetChildNodeReadonly("Metadata/Information/CustomAttributes/KeyValue"); if (kv) kv->EnumChildren([&](std::shared_ptr<IXmlNodeRead>) { ++n; return true; }); Put(raw, "kvn", n, a); }
        }, &det);
        Put(e, "r2", r2, a); Put(e, "q", q, a); Put(e, "raw", raw, a); ev.PushBack(e, a);
    }
}
static Family fam("info", Ep);
