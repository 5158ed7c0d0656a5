// family "cache": the subblock cache, sequentially and from several threads
#include "drv_conc.h"
using namespace libCZI;
namespace
{
    thread_local unsigned tlsNoise = 0; std::atomic<int> noiseLevel{ 0 };
    struct FakeBmp : public IBitmapData
    {
        PixelType pt; std::uint32_t w, h; mutable std::uint8_t dummy[16];
        FakeBmp(PixelType pt, std::uint32_t w, std::uint32_t h) : pt(pt), w(w), h(h) {}
        PixelType GetPixelType() const override { return pt; }
        IntSize GetSize() const override { if (noiseLevel.load(std::memory_order_relaxed)) Noise(tlsNoise, noiseLevel.load(std::memory_order_relaxed)); return IntSize{ w, h }; }
        BitmapLockInfo Lock() override { BitmapLockInfo i; i.ptrData = i.ptrDataRoi = dummy; i.stride = 1; i.size = 1; return i; }
        void Unlock() override {}
        int GetLockCount() const override { return 0; }
    };
    struct FakeBit : public IBitonalBitmapData
    {
        std::uint32_t w, h; mutable std::uint8_t dummy[16];
        FakeBit(std::uint32_t w, std::uint32_t h) : w(w), h(h) {}
        IntSize GetSize() const override { return IntSize{ w, h }; }
        BitonalBitmapLockInfo Lock() override { BitonalBitmapLockInfo i; i.ptrData = dummy; i.stride = 1; i.size = 1; return i; }
        void Unlock() override {}
        int GetLockCount() const override { return 0; }
    };
    struct Res { int id = 0; std::uint64_t mem = 0; int cnt = 0, vm = 0; Conc::Rec r; };
    struct World { std::shared_ptr<ISubBlockCache> c; std::vector<ISubBlockCacheOperation::CacheItem> items; };
    std::uint64_t U64(const JV& v) { return v[0].GetInt() < 0 ? ~0ULL : ((std::uint64_t)v[0].GetInt() << 20) + (std::uint64_t)v[1].GetInt(); }
    void Do(World& w, const JV& op, Res& q)
    {
        std::string o = S(op, "o");
        if (o == "add") w.c->Add(I(op, "k"), w.items[I(op, "it") - 1]);
        else if (o == "get")
        {
            auto it = w.c->Get(I(op, "k")); q.id = 0;
            if (it.IsValid()) { q.id = -1; for (size_t n = 0; n < w.items.size(); ++n) if (w.items[n].bitmap == it.bitmap && w.items[n].mask == it.mask) q.id = (int)n + 1; }
            else if (it.mask) q.id = -2;
        }
        else if (o == "prune") { ISubBlockCacheControl::PruneOptions p; p.maxMemoryUsage = U64(op["mem"]); p.maxSubBlockCount = I(op, "cnt") < 0 ? 0xffffffffu : (std::uint32_t)I(op, "cnt"); w.c->Prune(p); }
        else if (o == "stat") { auto s = w.c->GetStatistics((std::uint8_t)I(op, "m")); q.mem = s.memoryUsage; q.cnt = (int)s.elementsCount; q.vm = s.validityMask; }
    }
    void Emit(const JV& op, const Res& q, JV& ev, JA& a)
    {
        JV v = Copy(op, a); std::string o = S(op, "o");
        if (o == "get") Put(v, "id", q.id, a);
        if (o == "stat") { JV m = Arr(); m.PushBack(Clamp((unsigned long long)(q.mem >> 20)), a); m.PushBack((int)(q.mem & 0xfffff), a); Put(v, "rmem", m, a); Put(v, "rcnt", q.cnt, a); Put(v, "vm", q.vm, a); }
        Put(v, "t0", q.r.t0, a); Put(v, "t1", q.r.t1, a); ev.PushBack(v, a);
    }
    void Episode(const JV& s, JV& ev, JA& a)
    {
        World w; w.c = CreateSubBlockCache();
        for (auto& it : s["items"].GetArray()) w.items.emplace_back(std::make_shared<FakeBmp>((PixelType)I(it, "pt"), I(it, "w"), I(it, "h")), I(it, "mw") > 0 ? std::make_shared<FakeBit>(I(it, "mw"), I(it, "mh")) : nullptr);
        JV i0 = Obj(); Put(i0, "o", "init", a); JV its = Copy(s["items"], a); Put(i0, "items", its, a); ev.PushBack(i0, a);
        Conc c; noiseLevel = 0;
        auto one = [&](const JV& op) { Res q; q.r = c.Time([&] { Do(w, op, q); }); Emit(op, q, ev, a); };
        if (Has(s, "seq"))
            for (auto& op : s["seq"].GetArray()) { one(op); if (B(s, "probe")) { JV p = Obj(); Put(p, "o", "stat", a); Put(p, "m", (int)(1 + c.clock.load() / 4 % 3), a); one(p); } }
        if (Has(s, "threads"))
        {
            auto th = s["threads"].GetArray(); std::vector<std::vector<Res>> rs(th.Size());
            for (size_t t = 0; t < th.Size(); ++t) rs[t].resize(th[(rapidjson::SizeType)t].Size());
            noiseLevel = I(s, "noise");
            c.Run(th.Size(), [&](size_t t)
            {
                tlsNoise = (unsigned)I(s, "ns") * 7919u + (unsigned)t * 104729u; auto ops = th[(rapidjson::SizeType)t].GetArray();
                for (rapidjson::SizeType k = 0; k < ops.Size(); ++k) { Noise(tlsNoise, noiseLevel); Res& q = rs[t][k]; q.r = c.Time([&] { Do(w, ops[k], q); }); }
            });
            noiseLevel = 0;
            for (size_t t = 0; t < th.Size(); ++t) for (rapidjson::SizeType k = 0; k < rs[t].size(); ++k) Emit(th[(rapidjson::SizeType)t][k], rs[t][k], ev, a);
        }
        if (Has(s, "post")) for (auto& op : s["post"].GetArray()) one(op);
        if (B(s, "probe")) for (int k = 0; k < 8; ++k) { JV p = Obj(); Put(p, "o", "get", a); Put(p, "k", k, a); one(p); }
    }
    Family fam("cache", Episode);
}
