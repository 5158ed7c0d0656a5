// family "capi": the C interface - object handles, and its results next to those of the C++ interface
#include "drv_comp.h"
#include "libCZIApi.h"
#include <algorithm>
#include <clocale>
#include <unistd.h>
#include <sys/stat.h>
using namespace libCZI;
namespace
{
    const ObjectHandle kSentinel = (ObjectHandle)0x5A5A5A5A5A5A5A50ll;
    struct Ext { Bytes* src = nullptr; Bytes out; int closes = 0, after = 0, bad = 0; bool fail = false; int idx = 0; };
    std::vector<std::unique_ptr<Ext>>* gExt;
    Ext* Find(std::uintptr_t h1, std::uintptr_t h2) { auto& v = *gExt; if (h1 >= v.size()) { fprintf(stderr, "external stream called with an unknown opaque handle\n"); abort(); } auto e = v[h1].get(); if (h2 != 0x51A7 + h1) ++e->bad; return e; }
    void Err(ExternalStreamErrorInfoInterop* ei) { if (!ei) return; ei->error_code = 7; void* p = nullptr; if (libCZI_AllocateMemory(6, &p) == 0) { std::memcpy(p, "oops!", 6); ei->error_message = (MemoryAllocationObjectHandle)p; } }
    std::int32_t ReadFn(std::uintptr_t h1, std::uintptr_t h2, std::uint64_t off, void* pv, std::uint64_t n, std::uint64_t* pr, ExternalStreamErrorInfoInterop* ei)
    {
        auto e = Find(h1, h2); if (e->closes) ++e->after; if (e->fail) { Err(ei); return 5; }
        std::uint64_t sz = e->src->size(), k = off < sz ? std::min(n, sz - off) : 0; if (k) std::memcpy(pv, e->src->data() + off, k); if (pr) *pr = k; return 0;
    }
    std::int32_t WriteFn(std::uintptr_t h1, std::uintptr_t h2, std::uint64_t off, const void* pv, std::uint64_t n, std::uint64_t* pw, ExternalStreamErrorInfoInterop* ei)
    {
        auto e = Find(h1, h2); if (e->closes) ++e->after; if (e->fail) { Err(ei); return 5; }
        if (e->out.size() < off + n) e->out.resize(off + n); if (n) std::memcpy(e->out.data() + off, pv, n); if (pw) *pw = n; return 0;
    }
    void CloseFn(std::uintptr_t h1, std::uintptr_t h2) { ++Find(h1, h2)->closes; }
    std::string N(long long v) { return std::to_string(v); }
    std::string D(double v) { if (v != v) return "nan"; char b[40]; snprintf(b, 40, "%.12g", v); return b; }
    std::string RectS(int x, int y, int w, int h) { if (w < 0 || h < 0) return "invalid"; return N(x) + "," + N(y) + "," + N(w) + "," + N(h); }
    std::string GuidS(const void* p) { std::string s; char b[4]; for (int i = 0; i < 16; ++i) { snprintf(b, 4, "%02x", ((const std::uint8_t*)p)[i]); s += b; } return s; }
    std::string CoordS(const IDimCoordinate* c) { std::string s; for (int i = 1; i <= 9; ++i) { int v; if (c->TryGetPosition((DimensionIndex)i, &v)) s += N(i) + "=" + N(v) + " "; } return s; }
    std::string CoordS(const CoordinateInterop& c) { std::string s; int k = 0; for (int i = 1; i <= 9; ++i) if (c.dimensions_valid & (1u << (i - 1))) s += N(i) + "=" + N(c.value[k++]) + " "; if (c.dimensions_valid >> 9) s += "?"; return s; }
    CoordinateInterop CoordI(const IDimCoordinate* c) { CoordinateInterop r; std::memset(&r, 0x77, sizeof(r)); r.dimensions_valid = 0; int k = 0; for (int i = 1; i <= 9; ++i) { int v; if (c->TryGetPosition((DimensionIndex)i, &v)) { r.dimensions_valid |= 1u << (i - 1); r.value[k++] = v; } } return r; }
    std::string InfoS(const SubBlockInfo& i) { return N(i.compressionModeRaw) + "|" + N((int)i.pixelType) + "|" + CoordS(&i.coordinate) + "|" + RectS(i.logicalRect.x, i.logicalRect.y, i.logicalRect.w, i.logicalRect.h) + "|" + N(i.physicalSize.w) + "," + N(i.physicalSize.h) + "|" + (i.IsMindexValid() ? N(i.mIndex) : "-"); }
    std::string InfoS(const SubBlockInfoInterop& i) { return N(i.compression_mode_raw) + "|" + N(i.pixel_type) + "|" + CoordS(i.coordinate) + "|" + RectS(i.logical_rect.x, i.logical_rect.y, i.logical_rect.w, i.logical_rect.h) + "|" + N(i.physical_size.w) + "," + N(i.physical_size.h) + "|" + (i.m_index != std::numeric_limits<std::int32_t>::min() ? N(i.m_index) : "-"); }
    std::string AttS(const AttachmentInfo& i) { return GuidS(&i.contentGuid) + "|" + i.contentFileType + "|" + i.name; }
    std::string AttS(AttachmentInfoInterop& i) { std::string nm = i.name; if (i.name_overflow) { nm = (const char*)i.name_in_case_of_overflow; libCZI_Free(i.name_in_case_of_overflow); } return GuidS(i.guid) + "|" + (const char*)i.content_file_type + "|" + nm; }
    std::string RowsS(int pt, int w, int h, const void* p, size_t stride) { size_t n = (size_t)w * NComp((PixelType)pt) * CompBytes((PixelType)pt); Bytes b; for (int y = 0; y < h; ++y) { auto q = (const std::uint8_t*)p + y * stride; b.insert(b.end(), q, q + n); } return N(pt) + "," + N(w) + "," + N(h) + ":" + N(b.empty() ? 0 : Digest(b.data(), b.size())); }
    std::string BmpS(IBitmapData* b) { ScopedBitmapLockerP l{ b }; return RowsS((int)b->GetPixelType(), b->GetWidth(), b->GetHeight(), l.ptrDataRoi, l.stride); }
    JV PairV(const std::string& t, JA& a) { JV v = Arr(); v.PushBack(JV(t.substr(0, t.find(':')).c_str(), a).Move(), a).PushBack(JV(t.c_str(), a).Move(), a); return v; }
    JV BytesV(const void* p, size_t n, JA& a) { JV v = Arr(); v.Reserve((rapidjson::SizeType)n, a); for (size_t i = 0; i < n; ++i) v.PushBack((int)((const std::uint8_t*)p)[i], a); return v; }
    std::string Canon(const JV& v)
    {
        if (v.IsObject()) { std::map<std::string, std::string> m; for (auto& x : v.GetObject()) m[x.name.GetString()] = Canon(x.value); std::string s = "{"; for (auto& x : m) s += x.first + "=" + x.second + ";"; return s + "}"; }
        if (v.IsArray()) { std::string s = "["; for (auto& x : v.GetArray()) s += Canon(x) + ","; return s + "]"; }
        if (v.IsString()) return std::string("'") + v.GetString() + "'"; if (v.IsNumber()) return D(v.GetDouble()); if (v.IsBool()) return v.GetBool() ? "true" : "false"; return "null";
    }
    std::string CanonT(char* p) { if (!p) return "(null)"; JD d; d.Parse(p); std::string r = d.HasParseError() ? std::string("not JSON: ") + p : Canon(d); libCZI_Free(p); return r; }
    typedef std::map<std::string, std::string> M;
    std::string Canon(const M& m) { std::string s = "{"; for (auto& x : m) s += x.first + "=" + x.second + ";"; return s + "}"; }
    std::string Q(const std::wstring& w) { return "'" + Utils::ConvertToUtf8(w) + "'"; }
    // keeps of a channel's JSON object only the members modelled here
    std::string CanonCh(char* p)
    {
        static const char* keys[] = { "attribute_id", "attribute_name", "component_bit_count", "fluor", "dye_id", "dye_database_id", "reflector", "condensor_contrast", "na_condensor", "effective_na", "nd_filter", "pinhole_size", "color", "channel_unit", "emission_wavelength", "excitation_wavelength", "depth_of_focus", "section_thickness" };
        if (!p) return "(null)"; JD d; d.Parse(p); libCZI_Free(p); if (d.HasParseError() || !d.IsObject()) return "not JSON"; M m;
        for (auto& x : d.GetObject()) { M c; for (auto k : keys) { auto it = x.value.FindMember(k); if (it != x.value.MemberEnd()) c[k] = Canon(it->value); } m[x.name.GetString()] = Canon(c); }
        return Canon(m);
    }
    struct Doc { Bytes data; std::shared_ptr<ICZIReader> rd; std::string path; std::shared_ptr<IMetadataSegment> md; std::shared_ptr<ICziMultiDimensionDocumentInfo> di; std::shared_ptr<IDisplaySettings> ds; };
    std::string StatS(const SubBlockStatistics& s) { std::string r = N(s.subBlockCount) + "|" + N(s.minMindex) + "|" + N(s.maxMindex) + "|" + RectS(s.boundingBox.x, s.boundingBox.y, s.boundingBox.w, s.boundingBox.h) + "|" + RectS(s.boundingBoxLayer0Only.x, s.boundingBoxLayer0Only.y, s.boundingBoxLayer0Only.w, s.boundingBoxLayer0Only.h) + "|"; for (int i = 1; i <= 9; ++i) { int a, b; if (s.dimBounds.TryGetInterval((DimensionIndex)i, &a, &b)) r += N(i) + ":" + N(a) + "+" + N(b) + " "; } return r; }
    template <class T> std::string StatI(const T& s) { std::string r = N(s.sub_block_count) + "|" + N(s.min_m_index) + "|" + N(s.max_m_index) + "|" + RectS(s.bounding_box.x, s.bounding_box.y, s.bounding_box.w, s.bounding_box.h) + "|" + RectS(s.bounding_box_layer0.x, s.bounding_box_layer0.y, s.bounding_box_layer0.w, s.bounding_box_layer0.h) + "|"; int k = 0; for (int i = 1; i <= 9; ++i) if (s.dim_bounds.dimensions_valid & (1u << (i - 1))) { r += N(i) + ":" + N(s.dim_bounds.start[k]) + "+" + N(s.dim_bounds.size[k]) + " "; ++k; } return r; }
    std::string PyrS(const PyramidStatistics& p) { M m; for (auto& x : p.scenePyramidStatistics) { std::string l = "["; for (auto& y : x.second) l += "{count=" + N(y.count) + ";layerInfo={minificationFactor=" + N(y.layerInfo.minificationFactor) + ";pyramidLayerNo=" + N(y.layerInfo.pyramidLayerNo) + ";};},"; m[N(x.first)] = l + "]"; } return "{scenePyramidStatistics=" + Canon(m) + ";}"; }
    std::string ChanS(const IDisplaySettings* ds, int ch, bool w16)
    {
        auto c = ds->GetChannelDisplaySettings(ch); if (!c) return "none"; if (!c->GetIsEnabled()) return "w0"; float b = 0, w = 0; c->GetBlackWhitePoint(&b, &w); Rgb8Color col{ 0, 0, 0 }; bool t = c->TryGetTintingColorRgb8(&col); std::string s = D(c->GetWeight()) + "|" + D(b) + "|" + D(w) + "|" + (t ? N(col.r) + "," + N(col.g) + "," + N(col.b) : std::string("-")) + "|";
        int n = w16 ? 65536 : 256; std::vector<std::uint8_t> l; auto m = c->GetGradationCurveMode();
        if (m == IDisplaySettings::GradationCurveMode::Gamma) { float g = 1; c->TryGetGamma(&g); l = Utils::Create8BitLookUpTableFromGamma(n, b, w, g); } else if (m == IDisplaySettings::GradationCurveMode::Spline) { std::vector<IDisplaySettings::SplineData> sd; c->TryGetSplineData(&sd); l = Utils::Create8BitLookUpTableFromSplines(n, b, w, sd); }
        return s + N((int)l.size()) + ":" + N(l.empty() ? 0 : Digest(l.data(), l.size()));
    }
    std::string ChanI(CompositionChannelInfoInterop& c)
    {
        std::string s; if (c.weight == 0) s = "w0"; else s = D(c.weight) + "|" + D(c.black_point) + "|" + D(c.white_point) + "|" + (c.enable_tinting ? N(c.tinting_color_r) + "," + N(c.tinting_color_g) + "," + N(c.tinting_color_b) : std::string("-")) + "|" + N(c.look_up_table_element_count) + ":" + N(c.look_up_table_element_count > 0 ? Digest(c.ptr_look_up_table, c.look_up_table_element_count) : 0);
        if (c.look_up_table_element_count > 0) libCZI_Free((void*)c.ptr_look_up_table); return s;
    }
    std::string DimZ(IDimensionZInfo* z) { if (!z) return "none"; M m; double d, e; if (z->TryGetReferencePosition(&d)) m["reference_position"] = D(d); std::vector<double> v; if (z->TryGetIntervalDefinition(&d, &e)) m["interval_definition"] = "[" + D(d) + "," + D(e) + ",]"; else if (z->TryGetPositionList(&v)) { std::string s = "["; for (auto x : v) s += D(x) + ","; m["position_list"] = s + "]"; } if (z->TryZDriveSpeed(&d)) m["z_drive_speed"] = D(d);
        IDimensionZInfo::XyzHandedness h; if (z->TryGetXyzHandedness(&h)) m["xyz_handedness"] = h == IDimensionZInfo::XyzHandedness::LeftHanded ? "'left_handed'" : h == IDimensionZInfo::XyzHandedness::RightHanded ? "'right_handed'" : "'undefined'"; IDimensionZInfo::ZaxisDirection zd; if (z->TryGetZAxisDirection(&zd)) m["z_axis_direction"] = zd == IDimensionZInfo::ZaxisDirection::FromSpecimenToObjective ? "'from_specimen_to_objective'" : zd == IDimensionZInfo::ZaxisDirection::FromObjectiveToSpecimen ? "'from_objective_to_specimen'" : "'undefined'"; IDimensionZInfo::ZDriveMode zm; if (z->TryGetZDriveMode(&zm)) m["z_drive_mode"] = zm == IDimensionZInfo::ZDriveMode::Continuous ? "'continuous'" : "'step'"; return Canon(m); }
    std::string DimT(IDimensionTInfo* z) { if (!z) return "none"; M m; double d, e; XmlDateTime t; if (z->TryGetStartTime(&t)) m["start_time"] = "'" + t.ToXmlString() + "'"; std::vector<double> v; if (z->TryGetIntervalDefinition(&d, &e)) m["interval_definition"] = "[" + D(d) + "," + D(e) + ",]"; else if (z->TryGetOffsetsList(&v)) { std::string s = "["; for (auto x : v) s += D(x) + ","; m["offset_list"] = s + "]"; } return Canon(m); }
    std::string DimC(IDimensionsChannelsInfo* z)
    {
        if (!z) return "none"; M m;
        for (int i = 0; i < z->GetChannelCount(); ++i)
        {
            auto c = z->GetChannel(i); M k; std::wstring w; int n; double d; Rgb8Color col;
            if (c->TryGetAttributeId(&w)) k["attribute_id"] = Q(w); if (c->TryGetAttributeName(&w)) k["attribute_name"] = Q(w); if (c->TryGetComponentBitCount(&n)) k["component_bit_count"] = N(n); if (c->TryGetFluor(&w)) k["fluor"] = Q(w); if (c->TryGetDyeId(&w)) k["dye_id"] = Q(w); if (c->TryGetDyeDatabaseId(&w)) k["dye_database_id"] = Q(w); if (c->TryGetReflector(&w)) k["reflector"] = Q(w); if (c->TryGetCondenserContrast(&w)) k["condensor_contrast"] = Q(w); if (c->TryGetChannelUnit(&w)) k["channel_unit"] = Q(w);
            if (c->TryGetNACondenser(&d)) k["na_condensor"] = D(d); if (c->TryGetEffectiveNA(&d)) k["effective_na"] = D(d); if (c->TryGetNDFilter(&d)) k["nd_filter"] = D(d); if (c->TryGetPinholeSize(&d)) k["pinhole_size"] = D(d); if (c->TryGetEmissionWavelength(&d)) k["emission_wavelength"] = D(d); if (c->TryGetExcitationWavelength(&d)) k["excitation_wavelength"] = D(d); if (c->TryGetDepthOfFocus(&d)) k["depth_of_focus"] = D(d); if (c->TryGetSectionThickness(&d)) k["section_thickness"] = D(d);
            if (c->TryGetColor(&col)) { char b[10]; snprintf(b, 10, "'#%02x%02x%02x'", col.r, col.g, col.b); k["color"] = b; }
            m[N(i)] = Canon(k);
        }
        return Canon(m);
    }
    void Describe(Doc& d, JV& o, JA& a)
    {
        auto h = d.rd->GetFileHeaderInfo(); Put(o, "hdr", GuidS(&h.fileGuid) + "|" + N(h.majorVersion) + "|" + N(h.minorVersion), a);
        auto st = d.rd->GetStatistics(); Put(o, "stat", StatS(st), a); JV sc = Arr(); for (auto& x : st.sceneBoundingBoxes) { auto& p = x.second.boundingBox; auto& q = x.second.boundingBoxLayer0; std::string t = N(x.first) + "|" + RectS(p.x, p.y, p.w, p.h) + "|" + RectS(q.x, q.y, q.w, q.h); sc.PushBack(JV(t.c_str(), a).Move(), a); } Put(o, "scenes", sc, a);
        Put(o, "pyr", PyrS(d.rd->GetPyramidStatistics()), a);
        JV sb = Arr(); for (int i = 0; i < st.subBlockCount; ++i) { auto s = d.rd->ReadSubBlock(i); JV x = Obj(); Put(x, "info", InfoS(s->GetSubBlockInfo()), a); for (int t = 0; t < 2; ++t) { size_t n = 0; auto p = s->GetRawData(t ? ISubBlock::Metadata : ISubBlock::Data, &n); JV b = BytesV(p.get(), n, a); Put(x, t ? "meta" : "data", b, a); } { JV b = PairV(BmpS(s->CreateBitmap(nullptr).get()), a); Put(x, "bm", b, a); } sb.PushBack(x, a); } Put(o, "subs", sb, a);
        JV at = Arr(); for (int i = 0; i < d.rd->GetAttachmentCount(); ++i) { auto s = d.rd->ReadAttachment(i); JV x = Obj(); Put(x, "info", AttS(s->GetAttachmentInfo()), a); size_t n = 0; auto p = s->GetRawData(&n); JV b = BytesV(p.get(), n, a); Put(x, "data", b, a); at.PushBack(x, a); } Put(o, "atts", at, a);
        std::string xml = "none", gen = "none", scal = "none", dz = "none", dt = "none", dc = "none"; JV dims = Arr(), ch = Arr(); bool ds = false;
        try { d.md = d.rd->ReadMetadataSegment(); } catch (LibCZISegmentNotPresent&) {}
        if (d.md)
        {
            size_t n = 0; auto p = d.md->GetRawData(IMetadataSegment::XmlMetadata, &n); xml = N((int)n) + ":" + N(n ? Digest(p.get(), n) : 0);
            std::shared_ptr<ICziMetadata> m; try { m = d.md->CreateMetaFromMetadataSegment(); if (m->IsXmlValid()) d.di = m->GetDocumentInfo(); } catch (std::exception&) {}
            if (d.di)
            {
                auto g = d.di->GetGeneralDocumentInfo(); M k; if (g.name_valid) k["name"] = Q(g.name); if (g.title_valid) k["title"] = Q(g.title); if (g.userName_valid) k["user_name"] = Q(g.userName); if (g.description_valid) k["description"] = Q(g.description); if (g.comment_valid) k["comment"] = Q(g.comment); if (g.keywords_valid) k["keywords"] = Q(g.keywords); if (g.rating_valid) k["rating"] = N(g.rating); if (g.creationDateTime_valid) k["creation_date_time"] = Q(g.creationDateTime); gen = Canon(k);
                auto s = d.di->GetScalingInfo(); auto f = [](bool v, double x) { return v ? D(x) : std::string("nan"); }; scal = f(s.IsScaleXValid(), s.scaleX) + "|" + f(s.IsScaleYValid(), s.scaleY) + "|" + f(s.IsScaleZValid(), s.scaleZ);
                for (auto x : d.di->GetDimensions()) dims.PushBack((int)x, a); dz = DimZ(d.di->GetDimensionZInfo().get()); dt = DimT(d.di->GetDimensionTInfo().get()); dc = DimC(d.di->GetDimensionChannelsInfo().get());
                d.ds = d.di->GetDisplaySettings(); ds = (bool)d.ds; if (ds) for (int i = 0; i < 4; ++i) { JV x = Arr(); x.PushBack(JV(ChanS(d.ds.get(), i, false).c_str(), a).Move(), a).PushBack(JV(ChanS(d.ds.get(), i, true).c_str(), a).Move(), a); ch.PushBack(x, a); }
            }
        }
        Put(o, "xml", xml, a); Put(o, "di", (bool)d.di, a); Put(o, "gen", gen, a); Put(o, "scal", scal, a); Put(o, "dims", dims, a); Put(o, "d1", dz, a); Put(o, "d3", dt, a); Put(o, "d2", dc, a); Put(o, "ds", ds, a); Put(o, "ch", ch, a);
    }
    struct Locked { const void* p; std::uint32_t stride; int pt, w, h; };
    const char* kGoodJson[] = { nullptr, "", "{}", "not json", "[1]" };
    void Ep(const JV& s, JV& ev, JA& a)
    {
        std::vector<std::unique_ptr<Ext>> ext; gExt = &ext; char tmpl[] = "/tmp/czicapXXXXXX"; if (!mkdtemp(tmpl)) { perror("mkdtemp"); exit(4); } std::string dir = tmpl; std::vector<std::string> files;
        std::vector<Doc> docs(s["docs"].Size()); JV dv = Arr(); int di = 0;
        for (auto& q : s["docs"].GetArray())
        {
            Doc& d = docs[di]; auto f = std::make_shared<MemFile>(); auto w = CreateCZIWriter(); w->Create(f, std::make_shared<CCziWriterInfo>(GuidFrom(10 + I(q, "g")))); WriteCompTiles(q["tiles"], w.get());
            for (auto& t : q["atts"].GetArray()) { AddAttachmentInfo i; i.Clear(); i.contentGuid = GuidFrom(I(t, "g")); std::string n = S(t, "n"), ty = S(t, "t"); i.SetName(n.c_str()); i.SetContentFileType(ty.c_str()); Bytes b = Gen(I(t, "len"), I(t, "s")); i.ptrData = b.data(); i.dataSize = (std::uint32_t)b.size(); w->SyncAddAttachment(i); }
            if (Has(q, "xml")) { std::string x = S(q, "xml"); WriteMetadataInfo m; m.Clear(); m.szMetadata = x.data(); m.szMetadataSize = x.size(); w->SyncWriteMetadata(m); }
            w->Close(); d.data = f->data; d.rd = CreateCZIReader(); d.rd->Open(f, nullptr); d.path = dir + "/d" + N(di) + ".czi"; std::FILE* o = std::fopen(d.path.c_str(), "wb"); std::fwrite(d.data.data(), 1, d.data.size(), o); std::fclose(o); files.push_back(d.path);
            JV x = Obj(); Describe(d, x, a); dv.PushBack(x, a); ++di;
        }
        { JV e = Obj(); Put(e, "o", "docs", a); Put(e, "docs", dv, a); ev.PushBack(e, a); }
        std::map<int, ObjectHandle> live; std::map<int, Locked> locked; std::map<int, std::string> osfile;
        for (auto& c : s["ops"].GetArray())
        {
            JV e(c, a); std::string o = S(c, "o"), str; int h = I(c, "h"), rc = -99; bool rel = false, mk = false, gone = h != 0 && !live.count(h); ObjectHandle H = h && !gone ? live[h] : 0, nh = kSentinel; if (gone && o != "dump") { Put(e, "gone", true, a); ev.PushBack(e, a); continue; }
            if (o == "mkrd") { mk = true; rc = libCZI_CreateReader(B(c, "nul") ? nullptr : &nh); }
            else if (o == "mkin")
            {
                mk = true; std::string k = S(c, "k"); Doc& d = docs[I(c, "d")]; ObjectHandle* p = B(c, "nul") ? nullptr : &nh; std::string pa = B(c, "missing") ? dir + "/nothere.czi" : d.path;
                if (k == "ext") { auto x = std::make_unique<Ext>(); x->src = &d.data; x->idx = (int)ext.size(); ExternalInputStreamStructInterop st; st.opaque_handle1 = ext.size(); st.opaque_handle2 = 0x51A7 + ext.size(); st.read_function = ReadFn; st.close_function = CloseFn; if (p && !B(c, "nulst")) ext.push_back(std::move(x)); rc = libCZI_CreateInputStreamFromExternal(B(c, "nulst") ? nullptr : &st, p); }
                else if (k == "u8") rc = libCZI_CreateInputStreamFromFileUTF8(pa.c_str(), p);
                else if (k == "wide") { std::wstring w(pa.begin(), pa.end()); rc = libCZI_CreateInputStreamFromFileWide(w.c_str(), p); }
                else if (k == "class") rc = libCZI_CreateInputStream(B(c, "badclass") ? "no_such_class" : (I(c, "id") % 2 ? "pread_file_inputstream" : "c_runtime_file_inputstream"), B(c, "badbag") ? "{\"x\":1}" : nullptr, pa.c_str(), p);
                else exit(3);
            }
            else if (o == "open") { ReaderOpenInfoInterop i; int s2 = I(c, "s"); if (s2 && !live.count(s2)) { Put(e, "gone", true, a); ev.PushBack(e, a); continue; } i.streamObject = s2 ? live[s2] : 0; rc = libCZI_ReaderOpen(H, B(c, "nul") ? nullptr : &i); }
            else if (o == "hdr") { FileHeaderInfoInterop i; rc = libCZI_ReaderGetFileHeaderInfo(H, B(c, "nul") ? nullptr : &i); if (rc == 0) str = GuidS(i.guid) + "|" + N(i.majorVersion) + "|" + N(i.minorVersion); }
            else if (o == "stat") { SubBlockStatisticsInterop i; rc = libCZI_ReaderGetStatisticsSimple(H, B(c, "nul") ? nullptr : &i); if (rc == 0) str = StatI(i); }
            else if (o == "statx")
            {
                int cap = I(c, "cap"); std::vector<std::uint8_t> mem(sizeof(SubBlockStatisticsInteropEx) + std::max(cap, 0) * sizeof(BoundingBoxesInterop)); auto p = (SubBlockStatisticsInteropEx*)mem.data(); std::int32_t n = cap; JV sc = Arr(); bool nc = B(c, "nc"); rc = libCZI_ReaderGetStatisticsEx(H, B(c, "nul") ? nullptr : p, nc ? nullptr : &n);
                if (rc == 0) { str = StatI(*p); for (int i = 0; i < p->number_of_per_scenes_bounding_boxes; ++i) { auto& q = p->per_scenes_bounding_boxes[i]; std::string t = N(q.sceneIndex) + "|" + RectS(q.bounding_box.x, q.bounding_box.y, q.bounding_box.w, q.bounding_box.h) + "|" + RectS(q.bounding_box_layer0_only.x, q.bounding_box_layer0_only.y, q.bounding_box_layer0_only.w, q.bounding_box_layer0_only.h); sc.PushBack(JV(t.c_str(), a).Move(), a); } } Put(e, "sc", sc, a); Put(e, "n", n, a);
            }
            else if (o == "pyr") { char* p = nullptr; rc = libCZI_ReaderGetPyramidStatistics(H, B(c, "nul") ? nullptr : &p); if (rc == 0) str = CanonT(p); }
            else if (o == "rsb") { mk = true; rc = libCZI_ReaderReadSubBlock(H, I(c, "i"), B(c, "nul") ? nullptr : &nh); }
            else if (o == "gmd") { mk = true; rc = libCZI_ReaderGetMetadataSegment(H, B(c, "nul") ? nullptr : &nh); }
            else if (o == "atn") { std::int32_t n = -7; rc = libCZI_ReaderGetAttachmentCount(H, B(c, "nul") ? nullptr : &n); Put(e, "n", (int)n, a); }
            else if (o == "ati") { AttachmentInfoInterop i; rc = libCZI_ReaderGetAttachmentInfoFromDirectory(H, I(c, "i"), B(c, "nul") ? nullptr : &i); if (rc == 0) str = AttS(i); }
            else if (o == "rat") { mk = true; rc = libCZI_ReaderReadAttachment(H, I(c, "i"), B(c, "nul") ? nullptr : &nh); }
            else if (o == "sbi") { SubBlockInfoInterop i; rc = libCZI_TryGetSubBlockInfoForIndex(H, I(c, "i"), B(c, "nul") ? nullptr : &i); if (rc == 0) str = InfoS(i); }
            else if (o == "cacc") { mk = true; rc = libCZI_CreateSingleChannelTileAccessor(H, B(c, "nul") ? nullptr : &nh); }
            else if (o == "cbm") { mk = true; rc = libCZI_SubBlockCreateBitmap(H, B(c, "nul") ? nullptr : &nh); }
            else if (o == "sbinfo") { SubBlockInfoInterop i; rc = libCZI_SubBlockGetInfo(H, B(c, "nul") ? nullptr : &i); if (rc == 0) str = InfoS(i); }
            else if (o == "sbraw" || o == "atraw")
            {
                int cap = I(c, "cap"); std::unique_ptr<std::uint8_t[]> b(new std::uint8_t[cap ? cap : 1]); std::memset(b.get(), 0xEE, cap); std::uint64_t n = (std::uint64_t)cap; auto pn = B(c, "nul") ? nullptr : &n; void* pd = B(c, "nd") ? nullptr : b.get();
                rc = o == "sbraw" ? libCZI_SubBlockGetRawData(H, I(c, "t"), pn, pd) : libCZI_AttachmentGetRawData(H, pn, pd); Put(e, "n", Clamp((unsigned long long)n), a); JV v = BytesV(b.get(), cap, a); Put(e, "d", v, a);
            }
            else if (o == "atinfo") { AttachmentInfoInterop i; rc = libCZI_AttachmentGetInfo(H, B(c, "nul") ? nullptr : &i); if (rc == 0) str = AttS(i); }
            else if (o == "bminfo") { BitmapInfoInterop i; rc = libCZI_BitmapGetInfo(H, B(c, "nul") ? nullptr : &i); if (rc == 0) str = N(i.pixelType) + "," + N(i.width) + "," + N(i.height); }
            else if (o == "lock") { BitmapLockInfoInterop i; rc = libCZI_BitmapLock(H, B(c, "nul") ? nullptr : &i); if (rc == 0) { BitmapInfoInterop f; libCZI_BitmapGetInfo(H, &f); locked[h] = Locked{ i.ptrDataRoi, i.stride, f.pixelType, (int)f.width, (int)f.height }; str = RowsS(f.pixelType, f.width, f.height, i.ptrDataRoi, i.stride); size_t line = (size_t)f.width * NComp((PixelType)f.pixelType) * CompBytes((PixelType)f.pixelType); Put(e, "szok", i.stride >= line && i.size >= (f.height ? (std::uint64_t)i.stride * (f.height - 1) + line : 0), a); } }
            else if (o == "peek") { rc = -98; auto it = locked.find(h); if (it != locked.end()) { rc = 0; str = RowsS(it->second.pt, it->second.w, it->second.h, it->second.p, it->second.stride); } }
            else if (o == "unlock") rc = libCZI_BitmapUnlock(H);
            else if (o == "copy")
            {
                BitmapInfoInterop f; std::memset(&f, 0, sizeof(f)); bool isbm = H && I(c, "isbm") && libCZI_BitmapGetInfo(H, &f) == 0; if (!isbm) { f.width = 3; f.height = 2; f.pixelType = 0; }
                std::uint32_t w = f.width + I(c, "dw"), hh = f.height + I(c, "dh"); int pt = f.pixelType; if (B(c, "dpt")) pt = pt == 0 ? 1 : 0; size_t line = (size_t)f.width * NComp((PixelType)f.pixelType) * CompBytes((PixelType)f.pixelType); long stride = (long)line + I(c, "pad"); if (stride < 0) stride = 0; size_t total = f.height ? (size_t)std::max(stride, (long)line) * (f.height - 1) + line : 0;
                std::unique_ptr<std::uint8_t[]> b(new std::uint8_t[total ? total : 1]); std::memset(b.get(), 0xEE, total); rc = libCZI_BitmapCopyTo(H, w, hh, pt, (std::uint32_t)stride, B(c, "nul") ? nullptr : b.get());
                bool pad = true; if (rc == 0) { str = RowsS(f.pixelType, f.width, f.height, b.get(), stride); for (std::uint32_t y = 0; y + 1 < f.height; ++y) for (size_t i = line; i < (size_t)stride; ++i) if (b[y * stride + i] != 0xEE) pad = false; } else for (size_t i = 0; i < total; ++i) if (b[i] != 0xEE) pad = false; Put(e, "pok", pad, a); Put(e, "sok", stride >= (long)line, a);
            }
            else if (o == "xml") { MetadataAsXmlInterop i; i.data = nullptr; i.size = 77; rc = libCZI_MetadataSegmentGetMetadataAsXml(H, B(c, "nul") ? nullptr : &i); if (rc == 0) { str = N((int)i.size) + ":" + N(i.size ? Digest(i.data, i.size) : 0); libCZI_Free(i.data); } }
            else if (o == "cdi") { mk = true; rc = libCZI_MetadataSegmentGetCziDocumentInfo(H, B(c, "nul") ? nullptr : &nh); }
            else if (o == "gen") { void* p = nullptr; rc = libCZI_CziDocumentInfoGetGeneralDocumentInfo(H, B(c, "nul") ? nullptr : &p); if (rc == 0) str = CanonT((char*)p); }
            else if (o == "scal") { ScalingInfoInterop i; rc = libCZI_CziDocumentInfoGetScalingInfo(H, B(c, "nul") ? nullptr : &i); if (rc == 0) str = D(i.scale_x) + "|" + D(i.scale_y) + "|" + D(i.scale_z); }
            else if (o == "dims") { int cap = I(c, "cap"); std::unique_ptr<std::uint32_t[]> b(new std::uint32_t[cap ? cap : 1]); for (int i = 0; i < cap; ++i) b[i] = 99; rc = libCZI_CziDocumentInfoGetAvailableDimension(H, (std::uint32_t)cap, B(c, "nul") ? nullptr : b.get()); JV v = Arr(); for (int i = 0; i < cap; ++i) v.PushBack((int)b[i], a); Put(e, "d", v, a); }
            else if (o == "gds") { mk = true; rc = libCZI_CziDocumentInfoGetDisplaySettings(H, B(c, "nul") ? nullptr : &nh); }
            else if (o == "dimi") { void* p = nullptr; rc = libCZI_CziDocumentInfoGetDimensionInfo(H, (std::uint32_t)I(c, "i"), B(c, "nul") ? nullptr : &p); if (rc == 0) str = I(c, "i") == 2 ? CanonCh((char*)p) : CanonT((char*)p); }
            else if (o == "cds") { mk = true; rc = libCZI_DisplaySettingsGetChannelDisplaySettings(H, I(c, "i"), B(c, "nul") ? nullptr : &nh); }
            else if (o == "fill") { CompositionChannelInfoInterop i; std::memset(&i, 0, sizeof(i)); rc = libCZI_CompositorFillOutCompositionChannelInfoInterop(H, I(c, "i"), B(c, "w16"), B(c, "nul") ? nullptr : &i); if (rc == 0) str = ChanI(i); }
            else if (o == "csize") { IntRectInterop r{ c["roi"][0].GetInt(), c["roi"][1].GetInt(), c["roi"][2].GetInt(), c["roi"][3].GetInt() }; IntSizeInterop z{ -7, -7 }; float zm = I(c, "zn") / 64.f; rc = libCZI_SingleChannelTileAccessorCalcSize(H, B(c, "nul") ? nullptr : &r, zm, &z); if (rc == 0) str = N(z.w) + "," + N(z.h); auto q = docs[0].rd->CreateSingleChannelScalingTileAccessor()->CalcSize(IntRect{ r.x, r.y, r.w, r.h }, zm); Put(e, "exp", N(q.w) + "," + N(q.h), a); }
            else if (o == "get")
            {
                mk = true; IntRectInterop r{ c["roi"][0].GetInt(), c["roi"][1].GetInt(), c["roi"][2].GetInt(), c["roi"][3].GetInt() }; CDimCoordinate co = CoordFrom(c["c"]); CoordinateInterop ci = CoordI(&co); float zm = I(c, "zn") / 64.f;
                AccessorOptionsInterop op; float nan = std::numeric_limits<float>::quiet_NaN(); op.back_ground_color_r = op.back_ground_color_g = op.back_ground_color_b = nan; if (Has(c, "bg")) { op.back_ground_color_r = c["bg"][0].GetInt() / 4.f; op.back_ground_color_g = c["bg"][1].GetInt() / 4.f; op.back_ground_color_b = c["bg"][2].GetInt() / 4.f; } op.sort_by_m = B(c, "srt"); op.use_visibility_check_optimization = B(c, "vis"); static const char* ap[] = { nullptr, "", "{\"mask_aware\":true}", "{\"mask_aware\":false}", "{\"x\":3}", "garbage{" }; op.additional_parameters = ap[I(c, "ap") % 6]; bool no = B(c, "noopt");
                if (B(c, "bgn")) { /* a background that is not cleared leaves the pixels indeterminate */ }
                rc = libCZI_SingleChannelTileAccessorGet(H, &ci, B(c, "nul") ? nullptr : &r, zm, no ? nullptr : &op, &nh);
                JV ex = Arr(); for (auto& d : docs) { std::string t; auto g = Guard([&] { ISingleChannelScalingTileAccessor::Options q; q.Clear(); if (!no) { q.backGroundColor = RgbFloatColor{ op.back_ground_color_r, op.back_ground_color_g, op.back_ground_color_b }; q.sortByM = op.sort_by_m; q.useVisibilityCheckOptimization = op.use_visibility_check_optimization; q.maskAware = I(c, "ap") % 6 == 2; } t = BmpS(d.rd->CreateSingleChannelScalingTileAccessor()->Get(IntRect{ r.x, r.y, r.w, r.h }, &co, zm, no ? nullptr : &q).get()); }); JV pv = PairV(g == "ok" ? t : "refused", a); ex.PushBack(pv, a); } Put(e, "exp", ex, a);
            }
            else if (o == "comp")
            {
                mk = true; std::vector<BitmapObjectHandle> hs; std::vector<CompositionChannelInfoInterop> ci; bool miss = false; for (auto& x : c["hs"].GetArray()) { if (x.GetInt() && !live.count(x.GetInt())) miss = true; else hs.push_back(x.GetInt() ? live[x.GetInt()] : 0); } if (miss) { Put(e, "gone", true, a); ev.PushBack(e, a); continue; }
                Bytes lut(256); for (int i = 0; i < 256; ++i) lut[i] = (std::uint8_t)(255 - i); std::vector<Compositors::ChannelInfo> cc; int k = 0;
                for (auto& q : c["chs"].GetArray()) { CompositionChannelInfoInterop x; std::memset(&x, 0, sizeof(x)); x.weight = I(q, "wt") / 16.f; x.enable_tinting = B(q, "tint"); x.tinting_color_r = (std::uint8_t)I(q, "r"); x.tinting_color_g = (std::uint8_t)I(q, "g"); x.tinting_color_b = (std::uint8_t)I(q, "b"); x.black_point = I(q, "bp") / 64.f; x.white_point = I(q, "wp") / 64.f; if (B(q, "lut")) { x.look_up_table_element_count = 256; x.ptr_look_up_table = lut.data(); } ci.push_back(x); Compositors::ChannelInfo y; y.Clear(); y.weight = x.weight; y.enableTinting = B(q, "tint"); y.tinting.color = Rgb8Color{ x.tinting_color_r, x.tinting_color_g, x.tinting_color_b }; y.blackPoint = x.black_point; y.whitePoint = x.white_point; y.lookUpTableElementCount = x.look_up_table_element_count; y.ptrLookUpTable = x.ptr_look_up_table; cc.push_back(y); ++k; }
                std::string ex = "refused"; if (B(c, "allbm")) { std::vector<std::shared_ptr<GBmp>> src; std::vector<IBitmapData*> ps; for (auto x : hs) { BitmapInfoInterop f; libCZI_BitmapGetInfo(x, &f); auto g = std::make_shared<GBmp>((PixelType)f.pixelType, f.width, f.height, 0, true); libCZI_BitmapCopyTo(x, f.width, f.height, f.pixelType, g->stride, g->Base()); src.push_back(g); ps.push_back(g.get()); } Guard([&] { ex = BmpS(Compositors::ComposeMultiChannel_Bgr24((int)ps.size(), ps.data(), cc.data()).get()); }); } { JV pv = PairV(ex, a); Put(e, "exp", pv, a); }
                rc = libCZI_CompositorDoMultiChannelComposition(B(c, "zero") ? 0 : (int)hs.size(), hs.data(), ci.data(), B(c, "nul") ? nullptr : &nh);
            }
            else if (o == "mkos")
            {
                mk = true; std::string k = S(c, "k"); ObjectHandle* p = B(c, "nul") ? nullptr : &nh; std::string pa = dir + "/o" + N(I(c, "id")) + ".czi";
                if (k == "ext") { auto x = std::make_unique<Ext>(); x->idx = (int)ext.size(); ExternalOutputStreamStructInterop st; st.opaque_handle1 = ext.size(); st.opaque_handle2 = 0x51A7 + ext.size(); st.write_function = WriteFn; st.close_function = CloseFn; if (p && !B(c, "nulst")) ext.push_back(std::move(x)); rc = libCZI_CreateOutputStreamFromExternal(B(c, "nulst") ? nullptr : &st, p); }
                else if (k == "u8") rc = libCZI_CreateOutputStreamForFileUTF8(pa.c_str(), B(c, "over"), p); else if (k == "wide") { std::wstring w(pa.begin(), pa.end()); rc = libCZI_CreateOutputStreamForFileWide(w.c_str(), B(c, "over"), p); } else exit(3);
                if (k != "ext") { files.push_back(pa); osfile[I(c, "id")] = pa; }
            }
            else if (o == "mkwr") { mk = true; static const char* op[] = { nullptr, "", "{\"allow_duplicate_subblocks\":true}", "{\"allow_duplicate_subblocks\":false}", "{\"allow_duplicate_subblocks\":1}", "rubbish", "[true]" }; rc = libCZI_CreateWriter(B(c, "nul") ? nullptr : &nh, op[I(c, "opt") % 7]); }
            else if (o == "create")
            {
                int s2 = I(c, "s"); if (s2 && !live.count(s2)) { Put(e, "gone", true, a); ev.PushBack(e, a); continue; } std::string js = "{"; auto sep = [&] { if (js.size() > 1) js += ","; };
                if (Has(c, "guid")) { GUID g = GuidFrom(I(c, "guid")); char b[64]; snprintf(b, 64, "%08x-%04x-%04x-%02x%02x-%02x%02x%02x%02x%02x%02x", (unsigned)g.Data1, g.Data2, g.Data3, g.Data4[0], g.Data4[1], g.Data4[2], g.Data4[3], g.Data4[4], g.Data4[5], g.Data4[6], g.Data4[7]); js += std::string("\"file_guid\":\"") + (B(c, "brace") ? "{" : "") + b + (B(c, "brace") ? "}" : "") + "\""; }
                if (Has(c, "ra")) { sep(); js += "\"reserved_size_attachments_directory\":" + N(I(c, "ra")); } if (Has(c, "rs")) { sep(); js += "\"reserved_size_subblock_directory\":" + N(I(c, "rs")); } if (Has(c, "rm")) { sep(); js += "\"reserved_size_metadata_segment\":" + N(I(c, "rm")); } if (Has(c, "mm")) { sep(); js += "\"minimum_m_index\":" + N(c["mm"][0].GetInt()) + ",\"maximum_m_index\":" + N(c["mm"][1].GetInt()); } js += "}";
                rc = libCZI_WriterCreate(H, s2 ? live[s2] : 0, Has(c, "js") ? kGoodJson[I(c, "js") % 5] : js.c_str());
            }
            else if (o == "addsb")
            {
                AddSubBlockInfoInterop i; std::memset(&i, 0, sizeof(i)); CDimCoordinate co = CoordFrom(c["c"]); i.coordinate = CoordI(&co); i.m_index_valid = B(c, "hm"); i.m_index = I(c, "m"); i.x = I(c, "x"); i.y = I(c, "y"); i.logical_width = I(c, "w"); i.logical_height = I(c, "hh"); i.physical_width = I(c, "pw"); i.physical_height = I(c, "ph"); i.pixel_type = I(c, "pt"); i.compression_mode_raw = I(c, "cmp");
                Bytes md = Gen(I(c, "ml"), 5 + I(c, "sd")), at = Gen(I(c, "al"), 9 + I(c, "sd")); std::unique_ptr<std::uint8_t[]> buf; GBmp b((PixelType)i.pixel_type, i.physical_width, i.physical_height, 0, true); b.Fill(I(c, "sd"));
                if (i.compression_mode_raw == 0) { i.stride = b.stride + I(c, "pad"); size_t need = (size_t)i.stride * (b.h - 1) + b.rowBytes, n = (size_t)std::max(0, (int)need + I(c, "dn")); buf.reset(new std::uint8_t[n]); std::memset(buf.get(), 0xEE, n); for (std::uint32_t y = 0; y < b.h; ++y) for (int x = 0; x < b.rowBytes; ++x) if ((size_t)y * i.stride + x < n) buf[(size_t)y * i.stride + x] = b.Row(y)[x]; i.data = buf.get(); i.size_data = (std::uint32_t)n; }
                else { Bytes d = Gen(I(c, "cl"), 77 + I(c, "sd")); buf.reset(new std::uint8_t[d.size() + 1]); std::memcpy(buf.get(), d.data(), d.size()); i.data = buf.get(); i.size_data = (std::uint32_t)d.size(); }
                i.metadata = md.data(); i.size_metadata = (std::uint32_t)md.size(); i.attachment = at.data(); i.size_attachment = (std::uint32_t)at.size(); rc = libCZI_WriterAddSubBlock(H, B(c, "nul") ? nullptr : &i);
                // what the item has to be in the file
                Bytes cl = Gen(I(c, "cl"), 77 + I(c, "sd")); std::string m; if (i.compression_mode_raw == 0) m = N((int)(b.rowBytes * b.h)) + ":" + N(Digest(b.Base(), (size_t)b.rowBytes * b.h)); else m = N((int)cl.size()) + ":" + N(cl.empty() ? 0 : Digest(cl.data(), cl.size()));
                Put(e, "item", N(i.compression_mode_raw) + "|" + N(i.pixel_type) + "|" + CoordS(&co) + "|" + RectS(i.x, i.y, i.logical_width, i.logical_height) + "|" + N(i.physical_width) + "," + N(i.physical_height) + "|" + (i.m_index_valid ? N(i.m_index) : "-") + "|" + m + "|" + N((int)md.size()) + ":" + N(md.empty() ? 0 : Digest(md.data(), md.size())) + "|" + N((int)at.size()) + ":" + N(at.empty() ? 0 : Digest(at.data(), at.size())), a);
            }
            else if (o == "addatt")
            {
                AddAttachmentInfoInterop i; std::memset(&i, 0, sizeof(i)); GUID g = GuidFrom(I(c, "g")); std::memcpy(i.guid, &g, 16); std::string n = S(c, "n"), t = S(c, "t"); std::memcpy(i.contentFileType, t.data(), std::min<size_t>(8, t.size())); std::memcpy(i.name, n.data(), std::min<size_t>(80, n.size())); Bytes d = Gen(I(c, "len"), I(c, "sd")); i.attachment_data = d.data(); i.size_attachment_data = (std::uint32_t)d.size(); rc = libCZI_WriterAddAttachment(H, B(c, "nul") ? nullptr : &i);
                Put(e, "item", GuidS(&g) + "|" + t + "|" + n + "|" + N((int)d.size()) + ":" + N(d.empty() ? 0 : Digest(d.data(), d.size())), a);
            }
            else if (o == "wmeta") { WriteMetadataInfoInterop i; std::string x = S(c, "xml"); std::unique_ptr<char[]> b(new char[x.size() + 1]); std::memcpy(b.get(), x.data(), x.size()); i.metadata = b.get(); i.size_metadata = (std::uint32_t)x.size(); rc = libCZI_WriterWriteMetadata(H, B(c, "nul") ? nullptr : &i); Put(e, "item", N((int)x.size()) + ":" + N(x.empty() ? 0 : Digest(x.data(), x.size())), a); }
            else if (o == "wclose") rc = libCZI_WriterClose(H);
            else if (o == "dump")
            {
                Bytes data; if (I(c, "x", -1) >= 0) data = ext[I(c, "x")]->out; else { std::FILE* f = std::fopen(osfile[I(c, "s")].c_str(), "rb"); if (f) { std::uint8_t b[4096]; size_t k; while ((k = std::fread(b, 1, 4096, f)) > 0) data.insert(data.end(), b, b + k); std::fclose(f); } }
                JV sb = Arr(), at = Arr(); std::string md = "none", g; std::string r = Guard([&] { auto f = std::make_shared<MemFile>(); f->data = data; auto rd = CreateCZIReader(); rd->Open(f, nullptr); auto hd = rd->GetFileHeaderInfo(); g = N(GuidTo(hd.fileGuid)); int n = rd->GetStatistics().subBlockCount;
                    for (int i = 0; i < n; ++i) { auto b = rd->ReadSubBlock(i); std::string t = InfoS(b->GetSubBlockInfo()); for (auto k : { ISubBlock::Data, ISubBlock::Metadata, ISubBlock::Attachment }) { size_t z = 0; auto p = b->GetRawData(k, &z); t += "|" + N((int)z) + ":" + N(z ? Digest(p.get(), z) : 0); } sb.PushBack(JV(t.c_str(), a).Move(), a); }
                    for (int i = 0; i < rd->GetAttachmentCount(); ++i) { auto b = rd->ReadAttachment(i); size_t z = 0; auto p = b->GetRawData(&z); std::string t = AttS(b->GetAttachmentInfo()) + "|" + N((int)z) + ":" + N(z ? Digest(p.get(), z) : 0); at.PushBack(JV(t.c_str(), a).Move(), a); }
                    try { auto m = rd->ReadMetadataSegment(); size_t z = 0; auto p = m->GetRawData(IMetadataSegment::XmlMetadata, &z); md = N((int)z) + ":" + N(z ? Digest(p.get(), z) : 0); } catch (LibCZISegmentNotPresent&) {} });
                Put(e, "r", r, a); Put(e, "subs", sb, a); Put(e, "atts", at, a); Put(e, "md", md, a); Put(e, "guid", g, a); rc = 0;
            }
            else if (o == "fail") { ext[I(c, "x")]->fail = B(c, "on"); rc = 0; }
            else if (o == "rel")
            {
                rel = true; std::string k = S(c, "k");
                if (k == "rd") rc = libCZI_ReleaseReader(H); else if (k == "in") rc = libCZI_ReleaseInputStream(H); else if (k == "sb") rc = libCZI_ReleaseSubBlock(H); else if (k == "at") rc = libCZI_ReleaseAttachment(H); else if (k == "bm") rc = libCZI_ReleaseBitmap(H); else if (k == "md") rc = libCZI_ReleaseMetadataSegment(H); else if (k == "di") rc = libCZI_ReleaseCziDocumentInfo(H); else if (k == "ds") rc = libCZI_ReleaseDisplaySettings(H); else if (k == "cd") rc = libCZI_ReleaseChannelDisplaySettings(H); else if (k == "os") rc = libCZI_ReleaseOutputStream(H); else if (k == "wr") rc = libCZI_ReleaseWriter(H); else if (k == "ac") rc = libCZI_ReleaseCreateSingleChannelTileAccessor(H); else exit(3);
                if (rc == 0 && h) { live.erase(h); locked.erase(h); }
            }
            else if (o == "misc")
            {
                LibCZIVersionInfoInterop v; rc = libCZI_GetLibCZIVersionInfo(&v); int x[4]; GetLibCZIVersion(&x[0], &x[1], &x[2], &x[3]); str = N(v.major) + "." + N(v.minor) + "." + N(v.patch) + "." + N(v.tweak); std::string ex = N(x[0]) + "." + N(x[1]) + "." + N(x[2]) + "." + N(x[3]);
                LibCZIBuildInformationInterop bi; rc |= libCZI_GetLibCZIBuildInformation(&bi); BuildInformation b2; GetLibCZIBuildInformation(b2); auto t = [&](char* p) { std::string r = p ? p : ""; libCZI_Free(p); return "|" + r; }; str += t(bi.compilerIdentification) + t(bi.repositoryUrl) + t(bi.repositoryBranch) + t(bi.repositoryTag); ex += "|" + b2.compilerIdentification + "|" + b2.repositoryUrl + "|" + b2.repositoryBranch + "|" + b2.repositoryTag;
                std::int32_t n = -1; rc |= libCZI_GetStreamClassesCount(&n); str += "#" + N(n); ex += "#" + N(StreamsFactory::GetStreamClassesCount()); for (int i = 0; i < n; ++i) { InputStreamClassInfoInterop ic; rc |= libCZI_GetStreamClassInfo(i, &ic); str += t(ic.name) + t(ic.description); StreamsFactory::StreamClassInfo sc; StreamsFactory::GetStreamInfoForClass(i, sc); ex += "|" + sc.class_name + "|" + sc.short_description; }
                InputStreamClassInfoInterop ic; if (libCZI_GetStreamClassInfo(n, &ic) == 0 || libCZI_GetStreamClassInfo(-1, &ic) == 0 || libCZI_GetStreamClassInfo(0, nullptr) == 0 || libCZI_GetStreamClassesCount(nullptr) == 0 || libCZI_GetLibCZIVersionInfo(nullptr) == 0) str += "?accepted";
                void* p = &p; if (libCZI_AllocateMemory(0, &p) == 0 || libCZI_AllocateMemory(5, nullptr) == 0) str += "?alloc"; if (libCZI_AllocateMemory(8, &p) != 0) str += "?noalloc"; else { std::memset(p, 1, 8); libCZI_Free(p); } libCZI_Free(nullptr); Put(e, "exp", ex, a);
            }
            else { fprintf(stderr, "unknown op %s\n", o.c_str()); exit(3); }
            if (mk) { bool dup = false; std::string hv = nh == kSentinel ? "same" : nh == 0 ? "zero" : "set"; if (hv == "set") { for (auto& x : live) if (x.second == nh) dup = true; if (rc == 0) live[I(c, "id")] = nh; } Put(e, "hv", hv, a); Put(e, "dup", dup, a); }
            (void)rel; Put(e, "rc", rc, a); Put(e, "str", str, a); JV cl = Arr(); for (auto& x : ext) cl.PushBack(x->closes + 100 * x->after + 10000 * x->bad, a); Put(e, "cl", cl, a); ev.PushBack(e, a);
        }
        for (auto& f : files) ::unlink(f.c_str()); ::rmdir(dir.c_str()); gExt = nullptr;
    }
    Family f("capi", Ep);
}
