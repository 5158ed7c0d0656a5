// family "rdconc": one open reader used from several threads, one of which may close it
#include "drv_comp.h"
#include "drv_conc.h"
#include <cstdlib>
#include <unistd.h>
#include <sys/stat.h>
#include "libCZI_StreamsLib.h"
namespace
{
    thread_local unsigned tlsN = 0; std::atomic<int> lvl{ 0 };
    struct ConstStream : public IStream   // no locking of its own, so that it hides no race of the library
    {
        Bytes data; explicit ConstStream(const Bytes& d) : data(d) {}
        ~ConstStream() override { std::memset(data.data(), 0xDD, data.size()); }
        void Read(std::uint64_t offset, void* pv, std::uint64_t size, std::uint64_t* pr) override
        {
            Noise(tlsN, lvl.load(std::memory_order_relaxed));
            std::uint64_t avail = offset < data.size() ? data.size() - offset : 0, k = std::min(avail, size), h = k / 2;
            if (h) std::memcpy(pv, data.data() + offset, h);
            Noise(tlsN, lvl.load(std::memory_order_relaxed));
            if (k > h) std::memcpy((char*)pv + h, data.data() + offset + h, k - h);
            if (pr) *pr = k;
        }
    };
    struct Ser { std::string s; void N(long long v) { s += std::to_string(v) + ","; } void T(const std::string& t) { s += t + ";"; } void R(const IntRect& r) { if (!r.IsValid()) { T("invalid"); return; } N(r.x); N(r.y); N(r.w); N(r.h); } void D(const void* p, size_t n) { N((long long)n); N(n ? Digest(p, n) : 0); } };
    void SerInfo(Ser& z, const SubBlockInfo& i) { z.T(Utils::DimCoordinateToString(&i.coordinate)); z.N(i.compressionModeRaw); z.N((int)i.pixelType); z.R(i.logicalRect); z.N(i.physicalSize.w); z.N(i.physicalSize.h); z.N(i.mIndex); z.N((int)i.pyramidType); }
    void SerBmp(Ser& z, IBitmapData* b) { JD d; JV px = Arr(); z.N(b->GetWidth()); z.N(b->GetHeight()); z.N((int)b->GetPixelType()); ScopedBitmapLockerP l{ b }; for (std::uint32_t y = 0; y < b->GetHeight(); ++y) z.D((const char*)l.ptrDataRoi + (ptrdiff_t)y * l.stride, b->GetWidth() * (size_t)NComp(b->GetPixelType()) * CompBytes(b->GetPixelType())); }
    void SerRaw(Ser& z, ISubBlock* s) { SerInfo(z, s->GetSubBlockInfo()); for (auto t : { ISubBlock::Data, ISubBlock::Metadata, ISubBlock::Attachment }) { size_t n = 0; auto p = s->GetRawData(t, &n); z.D(p.get(), n); } }
    struct World { Comp comp; };
    struct Out { std::string r; int d = 0; std::string s; Conc::Rec t; std::shared_ptr<ISubBlock> held; };
    void Do(World& w, const JV& q, Out& o)
    {
        Ser z; auto& rd = w.comp.rd; std::string k = S(q, "o"); int i = I(q, "i");
        o.r = Guard([&] {
            if (k == "close") { rd->Close(); }
            else if (k == "sb") { auto s = rd->ReadSubBlock(i); if (!s) z.T("null"); else SerRaw(z, s.get()); }
            else if (k == "bmp") { auto s = rd->ReadSubBlock(i); if (!s) z.T("null"); else SerBmp(z, s->CreateBitmap(nullptr).get()); }
            else if (k == "hold") { auto s = rd->ReadSubBlock(i); o.held = s; if (!s) z.T("null"); else SerInfo(z, s->GetSubBlockInfo()); }
            else if (k == "info") { SubBlockInfo n; bool b = rd->TryGetSubBlockInfo(i, &n); z.N(b); if (b) SerInfo(z, n); }
            else if (k == "arb") { SubBlockInfo n; bool b = rd->TryGetSubBlockInfoOfArbitrarySubBlockInChannel(i, n); z.N(b); if (b) z.N((int)n.pixelType); }
            else if (k == "stat") { auto s = rd->GetStatistics(); z.N(s.subBlockCount); z.N(s.minMindex); z.N(s.maxMindex); z.R(s.boundingBox); z.R(s.boundingBoxLayer0Only); s.dimBounds.EnumValidDimensions([&](DimensionIndex d, int a, int b) { z.N((int)d); z.N(a); z.N(b); return true; }); for (auto& p : s.sceneBoundingBoxes) { z.N(p.first); z.R(p.second.boundingBox); z.R(p.second.boundingBoxLayer0); } }
            else if (k == "pyr") { auto s = rd->GetPyramidStatistics(); for (auto& p : s.scenePyramidStatistics) { z.N(p.first); for (auto& l : p.second) { z.N(l.layerInfo.minificationFactor); z.N(l.layerInfo.pyramidLayerNo); z.N(l.count); } } }
            else if (k == "enum") rd->EnumerateSubBlocks([&](int n, const SubBlockInfo& f) { z.N(n); SerInfo(z, f); Noise(tlsN, lvl.load(std::memory_order_relaxed)); return true; });
            else if (k == "enumx") rd->EnumerateSubBlocksEx([&](int n, const DirectorySubBlockInfo& f) { z.N(n); SerInfo(z, f); z.N((long long)f.filePosition); return true; });
            else if (k == "sub") { CDimCoordinate c = CoordFrom(q["c"]); IntRect roi{ 0, 0, 0, 0 }; bool hr = Has(q, "roi"); if (hr) roi = IntRect{ q["roi"][0].GetInt(), q["roi"][1].GetInt(), q["roi"][2].GetInt(), q["roi"][3].GetInt() }; rd->EnumSubset(&c, hr ? &roi : nullptr, B(q, "l0"), [&](int n, const SubBlockInfo& f) { z.N(n); SerInfo(z, f); return true; }); }
            else if (k == "att") { auto s = rd->ReadAttachment(i); if (!s) z.T("null"); else { size_t n = 0; auto p = s->GetRawData(&n); z.D(p.get(), n); z.T(s->GetAttachmentInfo().name); z.N(GuidTo(s->GetAttachmentInfo().contentGuid)); } }
            else if (k == "attn") z.N(rd->GetAttachmentCount());
            else if (k == "atti") { AttachmentInfo n; bool b = rd->TryGetAttachmentInfo(i, &n); z.N(b); if (b) { z.T(n.name); z.T(n.contentFileType); z.N(GuidTo(n.contentGuid)); } }
            else if (k == "atte") rd->EnumerateAttachments([&](int n, const AttachmentInfo& f) { z.N(n); z.T(f.name); z.T(f.contentFileType); return true; });
            else if (k == "atts") rd->EnumerateSubset("BIN", nullptr, [&](int n, const AttachmentInfo& f) { z.N(n); z.T(f.name); return true; });
            else if (k == "meta") { auto m = rd->ReadMetadataSegment(); auto x = m->CreateMetaFromMetadataSegment(); z.T(x->GetXml()); }
            else if (k == "hdr") { auto h = rd->GetFileHeaderInfo(); z.N(h.majorVersion); z.N(h.minorVersion); z.N(GuidTo(h.fileGuid)); }
            else if (k == "tp") { auto p = rd->TransformPoint(IntPointAndFrameOfReference{ CZIFrameOfReference::PixelCoordinateSystem, IntPoint{ i, i + 1 } }, CZIFrameOfReference::RawSubBlockCoordinateSystem); z.N(p.point.x); z.N(p.point.y); }
            else if (k == "get") { JD d; JV px = Arr(); int iw = 0, ih = 0, pt = 0; bool gok = true; std::string det; auto r = w.comp.Call(q["call"], true, &px, &iw, &ih, &pt, &gok, &det, d.GetAllocator()); z.T(r); z.N(iw); z.N(ih); z.N(pt); z.N(gok); if (r == "ok") for (auto& v : px.GetArray()) z.N(v.GetInt()); if (r == "logic" && det.find("perational") == std::string::npos && det.find("stream is null") == std::string::npos) z.T(det); if (r != "ok") throw std::pair<std::string, std::string>(r, z.s); }
            else throw std::runtime_error("harness: unknown op " + k);
        });
        if (o.r == "unknown") { o.r = "?"; }
        o.s = z.s; o.d = Digest(z.s.data(), z.s.size());
    }
    void DoX(World& w, const JV& q, Out& o)
    {
        // "get" reports refusals through Comp::Call
        if (S(q, "o") != "get") { Do(w, q, o); if (o.r != "ok") o.d = 0; return; }
        Do(w, q, o); if (o.r == "?") { size_t p = o.s.find(';'); o.r = o.s.substr(0, p); o.d = 0; }
    }
    void Ep(const JV& s, JV& ev, JA& a)
    {
        lvl = 0; auto file = std::make_shared<MemFile>();
        {
            auto w = CreateCZIWriter(); w->Create(file, std::make_shared<CCziWriterInfo>(GuidFrom(3))); WriteCompTiles(s["tiles"], w.get());
            for (int n = 0; n < I(s, "natt"); ++n) { AddAttachmentInfo i; i.Clear(); i.contentGuid = GuidFrom(10 + n); i.SetContentFileType(n % 2 ? "BIN" : "CZEXP"); i.SetName(("att" + std::to_string(n)).c_str()); auto d = Gen(100 + n * 37, n); i.ptrData = d.data(); i.dataSize = (std::uint32_t)d.size(); w->SyncAddAttachment(i); }
            if (B(s, "meta")) { WriteMetadataInfo m; m.Clear(); std::string x = "<ImageDocument><Metadata><Information><Image><SizeX>1</SizeX></Image></Information></Metadata></ImageDocument>"; m.szMetadata = x.data(); m.szMetadataSize = x.size(); w->SyncWriteMetadata(m); }
            w->Close();
        }
        std::string tmp; int sk = I(s, "stream");
        if (sk) { char t[] = "/tmp/vpczi-XXXXXX"; if (!mkdtemp(t)) throw std::runtime_error("mkdtemp"); tmp = t; std::FILE* f = std::fopen((tmp + "/d.czi").c_str(), "wb"); std::fwrite(file->data.data(), 1, file->data.size(), f); std::fclose(f); }
        auto mk = [&]() -> std::shared_ptr<IStream> {
            if (sk == 0) return std::make_shared<ConstStream>(file->data);
            std::string p = tmp + "/d.czi"; if (sk == 1) return CreateStreamFromFile(std::wstring(p.begin(), p.end()).c_str());
            StreamsFactory::CreateStreamInfo ci; ci.class_name = sk == 2 ? "c_runtime_file_inputstream" : "pread_file_inputstream"; auto r = StreamsFactory::CreateStream(ci, p); if (!r) r = CreateStreamFromFile(std::wstring(p.begin(), p.end()).c_str()); return r; };
        {
            World alone, w; w.comp.rd = CreateCZIReader(); w.comp.rd->Open(mk(), nullptr); alone.comp.rd = CreateCZIReader(); alone.comp.rd->Open(std::make_shared<ConstStream>(file->data), nullptr);
            for (int c = 0; c < 2; ++c) w.comp.caches[c] = CreateSubBlockCache();
            auto& ops = s["ops"];  // distinct operations; threads are lists of indices into it
            auto th = s["threads"].GetArray(); std::vector<std::vector<Out>> rs(th.Size());
            for (rapidjson::SizeType t = 0; t < th.Size(); ++t) rs[t].resize(th[t].Size());
            lvl = I(s, "noise"); Conc c;
            c.Run(th.Size(), [&](size_t t)
            {
                tlsN = (unsigned)I(s, "ns") * 7919u + (unsigned)t * 104729u; auto l = th[(rapidjson::SizeType)t].GetArray();
                for (rapidjson::SizeType k = 0; k < l.Size(); ++k) { Noise(tlsN, I(s, "noise")); Out& o = rs[t][k]; o.t = c.Time([&] { DoX(w, ops[(rapidjson::SizeType)l[k].GetInt()], o); }); }
            });
            lvl = 0;
            // reference: every operation alone, on its own reader
            std::vector<Out> ref(ops.Size());
            for (rapidjson::SizeType k = 0; k < ops.Size(); ++k) if (S(ops[k], "o") != "close") DoX(alone, ops[k], ref[k]);
            JV i0 = Obj(); Put(i0, "o", "ref", a); JV rv = Arr();
            for (rapidjson::SizeType k = 0; k < ops.Size(); ++k) { JV v = Obj(); Put(v, "r", ref[k].r, a); Put(v, "d", ref[k].d, a); rv.PushBack(v, a); }
            Put(i0, "ref", rv, a); ev.PushBack(i0, a);
            for (rapidjson::SizeType t = 0; t < th.Size(); ++t) for (rapidjson::SizeType k = 0; k < th[t].Size(); ++k)
            {
                Out& o = rs[t][k]; int q = th[t][k].GetInt(); JV v = Obj(); Put(v, "o", S(ops[(rapidjson::SizeType)q], "o") == "close" ? "close" : "call", a); Put(v, "k", S(ops[(rapidjson::SizeType)q], "o"), a); Put(v, "q", q + 1, a); Put(v, "th", (int)t, a); Put(v, "r", o.r, a); Put(v, "d", o.d, a); if (o.r == "ok" && o.d != ref[q].d) { Put(v, "got", o.s.substr(0, 600), a); Put(v, "want", ref[q].s.substr(0, 600), a); } Put(v, "t0", o.t.t0, a); Put(v, "t1", o.t.t1, a);
                if (o.held)
                {
                    Ser z1, z2; std::string r1 = Guard([&] { SerRaw(z1, o.held.get()); SerBmp(z1, o.held->CreateBitmap(nullptr).get()); });
                    std::string r2 = Guard([&] { auto x = alone.comp.rd->ReadSubBlock(I(ops[(rapidjson::SizeType)q], "i")); SerRaw(z2, x.get()); SerBmp(z2, x->CreateBitmap(nullptr).get()); });
                    Put(v, "late", r1 == r2 && (r1 != "ok" || z1.s == z2.s), a);
                }
                ev.PushBack(v, a);
            }
        }
        if (!tmp.empty()) { unlink((tmp + "/d.czi").c_str()); rmdir(tmp.c_str()); }
    }
    Family f("rdconc", Ep);
}
