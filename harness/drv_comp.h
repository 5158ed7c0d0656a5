#pragma once
#include "drv_pix.h"
using namespace libCZI;
void WriteCompTiles(const JV& tiles, libCZI::ICziWriter* w);
void WriteCompDoc(const JV& tiles, const std::shared_ptr<MemFile>& file);
inline RgbFloatColor Bg(const JV& c)
{
    RgbFloatColor r; if (!Has(c, "bg")) { r.r = r.g = r.b = std::numeric_limits<float>::quiet_NaN(); return r; }
    auto& b = c["bg"]; r.b = (float)b[0].GetInt(); r.g = (float)b[1].GetInt(); r.r = (float)b[2].GetInt(); return r;
}
struct Comp
{
    std::shared_ptr<ICZIReader> rd; std::map<int, std::shared_ptr<ISubBlockCache>> caches;
    std::string Call(const JV& c, bool opts, JV* px, int* w, int* h, int* pt, bool* gok, std::string* det, JA& a)
    {
        std::string kind = S(c, "kind"); CDimCoordinate co = CoordFrom(c["c"]); auto fr = (CZIFrameOfReference)I(c, "fr", 1);
        std::shared_ptr<IIndexSet> sf; if (Has(c, "sf")) { std::string s; for (auto& x : c["sf"].GetArray()) { if (!s.empty()) s += ","; s += std::to_string(x.GetInt()); } sf = Utils::IndexSetFromString(std::wstring(s.begin(), s.end())); }
        std::shared_ptr<ISubBlockCacheOperation> cache; if (opts && Has(c, "cache")) { auto& p = caches[I(c, "cache")]; if (!p) p = CreateSubBlockCache(); cache = p; }
        bool vis = opts && B(c, "vis"), own = B(c, "own"), only = B(c, "only", true), mask = B(c, "mask"), srt = B(c, "srt", true), nop = B(c, "nop"); auto& q = c["roi"]; IntRect roi{ q[0].GetInt(), q[1].GetInt(), q[2].GetInt(), q[3].GetInt() };
        int dpt = I(c, "dpt", -1); std::shared_ptr<IBitmapData> res; std::shared_ptr<GBmp> ob; *gok = true;
        if (own) { ob = std::make_shared<GBmp>((PixelType)dpt, (std::uint32_t)I(c, "ow"), (std::uint32_t)I(c, "oh"), I(c, "pad"), B(c, "tight")); ob->FillConst(I(c, "pre")); }
        std::string r = Guard([&] {
            if (kind == "t")
            {
                auto acc = rd->CreateSingleChannelTileAccessor(); ISingleChannelTileAccessor::Options o; o.Clear(); o.backGroundColor = Bg(c); o.sortByM = srt; o.useVisibilityCheckOptimization = vis; o.sceneFilter = sf; o.subBlockCache = cache; o.onlyUseSubBlockCacheForCompressedData = only; o.maskAware = mask; o.drawTileBorder = B(c, "brd"); auto po = nop ? nullptr : &o;
                if (own) { if (fr == CZIFrameOfReference::Default && B(c, "plain")) acc->Get(ob.get(), roi.x, roi.y, &co, po); else acc->Get(ob.get(), IntPointAndFrameOfReference{ fr, IntPoint{ roi.x, roi.y } }, &co, po); res = ob; }
                else if (dpt >= 0) { if (fr == CZIFrameOfReference::Default && B(c, "plain")) res = acc->Get((PixelType)dpt, roi, &co, po); else res = acc->Get((PixelType)dpt, IntRectAndFrameOfReference{ fr, roi }, &co, po); }
                else { if (fr == CZIFrameOfReference::Default && B(c, "plain")) res = acc->Get(roi, &co, po); else res = acc->Get(IntRectAndFrameOfReference{ fr, roi }, &co, po); }
            }
            else if (kind == "p")
            {
                auto acc = rd->CreateSingleChannelPyramidLayerTileAccessor(); ISingleChannelPyramidLayerTileAccessor::Options o; o.Clear(); o.backGroundColor = Bg(c); o.sortByM = srt; o.sceneFilter = sf; o.subBlockCache = cache; o.onlyUseSubBlockCacheForCompressedData = only; o.maskAware = mask; auto po = nop ? nullptr : &o;
                ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo pi; pi.minificationFactor = (std::uint8_t)I(c, "f"); pi.pyramidLayerNo = (std::uint8_t)I(c, "l");
                if (fr == CZIFrameOfReference::Default && B(c, "plain")) { if (own) { acc->Get(ob.get(), roi.x, roi.y, &co, pi, po); res = ob; } else if (dpt >= 0) res = acc->Get((PixelType)dpt, roi, &co, pi, po); else res = acc->Get(roi, &co, pi, po); }
                else if (own) { acc->Get(ob.get(), IntPointAndFrameOfReference{ fr, IntPoint{ roi.x, roi.y } }, &co, pi, po); res = ob; }
                else if (dpt >= 0) res = acc->Get((PixelType)dpt, IntRectAndFrameOfReference{ fr, roi }, &co, pi, po);
                else res = acc->Get(IntRectAndFrameOfReference{ fr, roi }, &co, pi, po);
            }
            else
            {
                auto acc = rd->CreateSingleChannelScalingTileAccessor(); ISingleChannelScalingTileAccessor::Options o; o.Clear(); o.backGroundColor = Bg(c); o.sortByM = srt; o.useVisibilityCheckOptimization = vis; o.sceneFilter = sf; o.subBlockCache = cache; o.onlyUseSubBlockCacheForCompressedData = only; o.maskAware = mask; auto po = nop ? nullptr : &o;
                float z = (float)I(c, "zn") / 64.f;
                if (fr == CZIFrameOfReference::Default && B(c, "plain")) { if (own) { acc->Get(ob.get(), roi, &co, z, po); res = ob; } else if (dpt >= 0) res = acc->Get((PixelType)dpt, roi, &co, z, po); else res = acc->Get(roi, &co, z, po); }
                else if (own) { acc->Get(ob.get(), IntRectAndFrameOfReference{ fr, roi }, &co, z, po); res = ob; }
                else if (dpt >= 0) res = acc->Get((PixelType)dpt, IntRectAndFrameOfReference{ fr, roi }, &co, z, po);
                else res = acc->Get(IntRectAndFrameOfReference{ fr, roi }, &co, z, po);
            }
        }, det);
        if (ob) *gok = ob->GuardsOk();
        if (r == "ok")
        {
            *gok = *gok && res->GetLockCount() == 0; *w = (int)res->GetSize().w; *h = (int)res->GetSize().h; *pt = (int)res->GetPixelType(); if ((long long)*w * *h > 4096) throw std::runtime_error("image too large for recording"); PixelsV(res.get(), *px, a);
        }
        return r;
    }
};
