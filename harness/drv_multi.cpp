// family "multi": multi-channel composition of given pixels
#include "drv_pix.h"
using namespace libCZI;
static std::uint8_t LutVal(const JV& l, int i) { return (std::uint8_t)((l[0].GetInt() * i + l[1].GetInt() + l[2].GetInt() * (i / 7)) % 256); }
static void Ep(const JV& s, JV& ev, JA& a)
{
    for (auto& c : s["ops"].GetArray())
    {
        JV e(c, a); int fn = I(c, "fn"), n = I(c, "n"); bool rgba = B(c, "rgba"); int alpha = I(c, "alpha");
        std::vector<std::shared_ptr<GBmp>> bm; std::vector<IBitmapData*> bp; std::vector<std::shared_ptr<IBitmapData>> sp; std::vector<Compositors::ChannelInfo> ci; std::vector<std::unique_ptr<std::uint8_t[]>> luts; std::vector<Bytes> before;
        for (auto& q : c["ch"].GetArray())
        {
            auto b = std::make_shared<GBmp>((PixelType)I(q, "pt"), I(q, "w"), I(q, "h"), I(q, "pad"), B(q, "tight")); int k = NComp(b->pt);
            for (std::uint32_t y = 0; y < b->h; ++y) for (std::uint32_t x = 0; x < b->w * k; ++x) PutComp(b->pt, b->Row(y), x, q["px"][y * b->w * k + x].GetInt());
            bm.push_back(b); bp.push_back(B(q, "nobm") ? nullptr : b.get()); sp.push_back(b);
            before.push_back(Bytes(b->Base(), b->Base() + (size_t)b->stride * (b->h - 1) + b->rowBytes));
            Compositors::ChannelInfo i; i.Clear(); i.weight = Has(q, "nan") ? std::nanf("") : I(q, "wt") / 4.f; i.enableTinting = B(q, "tint"); const JV& t = q["col"]; i.tinting.color = Rgb8Color{ (std::uint8_t)t[2].GetInt(), (std::uint8_t)t[1].GetInt(), (std::uint8_t)t[0].GetInt() };
            i.blackPoint = I(q, "bp") / 256.f; i.whitePoint = I(q, "wp") / 256.f;
            if (Has(q, "lut")) { i.lookUpTableElementCount = I(q, "ln"); luts.emplace_back(new std::uint8_t[i.lookUpTableElementCount]); for (int k2 = 0; k2 < i.lookUpTableElementCount; ++k2) luts.back()[k2] = LutVal(q["lut"], k2); i.ptrLookUpTable = B(q, "nolut") ? nullptr : luts.back().get(); }
            ci.push_back(i);
        }
        GBmp d((PixelType)I(c, "dpt"), I(c, "w"), I(c, "h"), I(c, "pad"), B(c, "tight")); d.FillConst(77); std::shared_ptr<IBitmapData> out; IBitmapData* o = &d; std::string det;
        std::string r = Guard([&] {
            if (fn == 0) { if (rgba) Compositors::ComposeMultiChannel_Bgra32(&d, (std::uint8_t)alpha, n, bp.data(), ci.data()); else Compositors::ComposeMultiChannel_Bgr24(&d, n, bp.data(), ci.data()); }
            else if (fn == 1) out = rgba ? Compositors::ComposeMultiChannel_Bgra32((std::uint8_t)alpha, n, bp.data(), ci.data()) : Compositors::ComposeMultiChannel_Bgr24(n, bp.data(), ci.data());
            else out = rgba ? Compositors::ComposeMultiChannel_Bgra32((std::uint8_t)alpha, n, sp.begin(), ci.data()) : Compositors::ComposeMultiChannel_Bgr24(n, sp.begin(), ci.data()); }, &det);
        if (out) o = out.get();
        Put(e, "r", r, a); JV px = Arr(); if (r == "ok") PixelsV(o, px, a); Put(e, "px", px, a); Put(e, "opt", (int)o->GetPixelType(), a); Put(e, "ow", (int)o->GetWidth(), a); Put(e, "oh", (int)o->GetHeight(), a);
        bool ok = d.GuardsOk() && d.locks == 0; for (size_t i = 0; i < bm.size(); ++i) ok = ok && bm[i]->locks == 0 && std::memcmp(before[i].data(), bm[i]->Base(), before[i].size()) == 0;
        Put(e, "kept", ok, a); ev.PushBack(e, a);
    }
}
static Family f("multi", Ep);
