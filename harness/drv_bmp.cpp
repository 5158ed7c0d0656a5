// family "bmp": a destination bitmap and a bit mask, changed by a history of bitmap operations; everything is recorded after every step
#include "drv_pix.h"
#ifndef VERIF_PUBLIC_ONLY
#include "BitmapOperations.h"
#endif
using namespace libCZI;
#ifdef VERIF_PUBLIC_ONLY   // the build with the internal classes failed
static const bool PUBLIC_ONLY = true;
#else
static const bool PUBLIC_ONLY = false;
#endif
static void BitsV(IBitonalBitmapData* b, JV& e, JA& a)
{
    JV v = Arr(); auto sz = b->GetSize(); ScopedBitonalBitmapLockerP l{ b };
    for (std::uint32_t y = 0; y < sz.h; ++y) for (std::uint32_t i = 0; i < (sz.w + 7) / 8; ++i) v.PushBack((int)((const std::uint8_t*)l.ptrData)[(size_t)y * l.stride + i], a);
    Put(e, "bits", v, a); Put(e, "bw", (int)sz.w, a); Put(e, "bh", (int)sz.h, a);
}
static bool BitPadOk(GBit& g) { for (std::uint32_t y = 0; y < g.h; ++y) for (int i = (int)(g.w + 7) / 8; i < g.stride; ++i) if (g.m[(size_t)y * g.stride + i] != 0xA5) return false; return g.m[(size_t)g.stride * g.h] == 0xA5; }
static std::unique_ptr<GBmp> Src(const JV& c) { auto b = std::make_unique<GBmp>((PixelType)I(c, "pt"), I(c, "w"), I(c, "h"), I(c, "pad"), B(c, "tight")); b->Fill(I(c, "s")); return b; }
static void Ep(const JV& s, JV& ev, JA& a)
{
    const JV& dd = s["d"]; const JV& bb = s["bit"]; auto d = Src(dd);
    auto gb = std::make_shared<GBit>(I(bb, "w"), I(bb, "h"), I(bb, "pad")); gb->Fill(I(bb, "ms")); std::shared_ptr<IBitonalBitmapData> bit = gb;
    { JV e = Obj(); Put(e, "o", std::string("init"), a); JV px = Arr(); PixelsV(d.get(), px, a); Put(e, "px", px, a); BitsV(bit.get(), e, a); Put(e, "pt", (int)d->pt, a); Put(e, "w", (int)d->w, a); Put(e, "h", (int)d->h, a); Put(e, "s", I(dd, "s"), a); Put(e, "ms", I(bb, "ms"), a); ev.PushBack(e, a); }
    for (auto& c : s["ops"].GetArray())
    {
        if (PUBLIC_ONLY && !B(c, "ut") && S(c, "o").compare(0, 2, "nn") == 0) continue;
        JV e(c, a); std::string o = S(c, "o"), det, r; bool colour = o[0] != 'b', srcOk = true; bool got = false; std::shared_ptr<IBitonalBitmapData> dec; std::unique_ptr<GBmp> src; std::unique_ptr<GBit> own;
        if (Has(c, "src")) src = Src(c["src"]);
        r = Guard([&] {
            if (o == "copyat")
            {
                IBitonalBitmapData* m = nullptr; if (Has(c, "m")) { own = std::make_unique<GBit>(I(c["m"], "w"), I(c["m"], "h"), I(c["m"], "pad")); own->Fill(I(c["m"], "ms")); m = own.get(); } else if (B(c, "cur")) m = bit.get();
                BitonalBitmapOperations::CopyAt(src.get(), m, IntPoint{ I(c, "x"), I(c, "y") }, d.get());
            }
            else if (o == "copyoff")
            {
#ifdef VERIF_PUBLIC_ONLY
                BitonalBitmapOperations::CopyAt(src.get(), nullptr, IntPoint{ I(c, "x"), I(c, "y") }, d.get());
#else
                detail::CBitmapOperations::CopyWithOffsetInfo i; i.xOffset = I(c, "x"); i.yOffset = I(c, "y"); i.srcPixelType = src->pt; i.srcPtr = src->Base(); i.srcStride = src->stride; i.srcWidth = src->w; i.srcHeight = src->h;
                i.dstPixelType = d->pt; i.dstPtr = d->Base(); i.dstStride = d->stride; i.dstWidth = d->w; i.dstHeight = d->h; i.drawTileBorder = false; detail::CBitmapOperations::CopyWithOffset(i);
#endif
            }
            else if (o == "md5")
            {
                Bytes data; std::uint8_t h[18]; std::memset(h, 0x5A, 18); int n, n0; bool same = true; std::string small;
                if (src) { for (int y = 0; y < (int)src->h; ++y) data.insert(data.end(), src->Row(y), src->Row(y) + src->rowBytes); n0 = Utils::CalcMd5SumHash(src.get(), nullptr, 0); small = Guard([&] { Utils::CalcMd5SumHash(src.get(), h, 15); }); for (auto q : h) same = same && q == 0x5A; n = Utils::CalcMd5SumHash(src.get(), h, 16); }
                else { std::uint32_t q = (std::uint32_t)I(c, "s") * 2654435761u + 1; data.resize((size_t)I(c, "len")); for (auto& x : data) { q = q * 1664525u + 1013904223u; x = (std::uint8_t)(q >> 24); } n0 = Utils::CalcMd5SumHash(data.data(), data.size(), nullptr, 0); small = Guard([&] { Utils::CalcMd5SumHash(data.data(), data.size(), h, 15); }); for (auto q2 : h) same = same && q2 == 0x5A; n = Utils::CalcMd5SumHash(data.data(), data.size(), h, 16); }
                same = same && h[16] == 0x5A && h[17] == 0x5A; JV hv = Arr(), dv = Arr(); for (int k = 0; k < 16; ++k) hv.PushBack((int)h[k], a); for (auto x : data) dv.PushBack((int)x, a); Put(e, "hash", hv, a); Put(e, "data", dv, a); Put(e, "n", n, a); Put(e, "n0", n0, a); Put(e, "same", same, a); Put(e, "small", small, a);
            }
            else if (o == "fill" && (B(c, "ut") || PUBLIC_ONLY)) { RgbFloatColor q; q.b = c["bg"][0].GetInt() / 4.f; q.g = c["bg"][1].GetInt() / 4.f; q.r = c["bg"][2].GetInt() / 4.f; Utils::FillBitmap(d.get(), q); }
#ifndef VERIF_PUBLIC_ONLY
            else if (o == "fill") { RgbFloatColor q; q.b = c["bg"][0].GetInt() / 4.f; q.g = c["bg"][1].GetInt() / 4.f; q.r = c["bg"][2].GetInt() / 4.f; detail::CBitmapOperations::Fill(d.get(), q); }
#endif
            else if (B(c, "ut"))
            {
                auto rc = [&](const char* k) { DblRect x; x.x = c[k][0].GetInt() / 4.; x.y = c[k][1].GetInt() / 4.; x.w = c[k][2].GetInt() / 4.; x.h = c[k][3].GetInt() / 4.; return x; };
                auto n = o == "nn" ? Utils::NearestNeighborResize(src.get(), (int)d->w, (int)d->h) : Utils::NearestNeighborResize(src.get(), (int)d->w, (int)d->h, rc("rs"), rc("rd"));
                if (n->GetPixelType() != d->pt || n->GetWidth() != d->w || n->GetHeight() != d->h || n->GetLockCount() != 0) throw std::runtime_error("the resized bitmap has a wrong size or type");
                ScopedBitmapLockerSP l{ n }; for (std::uint32_t y = 0; y < d->h; ++y) std::memcpy(d->Row((int)y), static_cast<const std::uint8_t*>(l.ptrDataRoi) + (size_t)y * l.stride, d->rowBytes);
            }
#ifndef VERIF_PUBLIC_ONLY
            else if (o == "nn") detail::CBitmapOperations::NNResize(src.get(), d.get());
            else if (o == "nnroi")
            {
                auto rc = [&](const char* k) { DblRect x; x.x = c[k][0].GetInt() / 4.; x.y = c[k][1].GetInt() / 4.; x.w = c[k][2].GetInt() / 4.; x.h = c[k][3].GetInt() / 4.; return x; };
                detail::CBitmapOperations::NNResize(src.get(), d.get(), rc("rs"), rc("rd"));
            }
#endif
            else
            {
                int via = I(c, "via"); IntSize sz = bit->GetSize(); ScopedBitonalBitmapLockerP l{ bit.get() }; std::uint32_t x = (std::uint32_t)I(c, "x"), y = (std::uint32_t)I(c, "y"); bool v = B(c, "v"); IntRect rc{ I(c, "x"), I(c, "y"), I(c, "w"), I(c, "h") };
                if (o == "bset") { if (via == 0) BitonalBitmapOperations::SetPixelValue(l, sz, x, y, v); else if (via == 1) BitonalBitmapOperations::SetPixelValue(bit.get(), x, y, v); else BitonalBitmapOperations::SetPixelValue(bit, x, y, v); }
                else if (o == "bget") { got = via == 0 ? BitonalBitmapOperations::GetPixelValue(l, sz, x, y) : via == 1 ? BitonalBitmapOperations::GetPixelValue(bit.get(), l, x, y) : BitonalBitmapOperations::GetPixelValue(bit, x, y); }
                else if (o == "bfill") { if (via == 0) BitonalBitmapOperations::Fill(l, sz, rc, v); else if (via == 1) BitonalBitmapOperations::Fill(bit.get(), rc, v); else BitonalBitmapOperations::Fill(bit, rc, v); }
                else if (o == "ball") { if (via == 0) BitonalBitmapOperations::SetAllPixels(l, sz, v); else if (via == 1) BitonalBitmapOperations::SetAllPixels(bit.get(), v); else BitonalBitmapOperations::SetAllPixels(bit, v); }
                else if (o == "bdec") dec = via == 0 ? BitonalBitmapOperations::Decimate(I(c, "n"), l, sz) : BitonalBitmapOperations::Decimate(I(c, "n"), bit.get());
                else std::fprintf(stderr, "unknown op\n"), std::exit(3);
            }
        }, &det);
        Put(e, "r", r, a); if (r != "ok") Put(e, "det", det, a);
        if (src) { GBmp ref(src->pt, src->w, src->h, 0); ref.Fill(I(c["src"], "s")); for (int y = 0; y < (int)src->h; ++y) srcOk = srcOk && !std::memcmp(ref.Row(y), src->Row(y), src->rowBytes); srcOk = srcOk && src->GuardsOk(); }
        Put(e, "srcok", srcOk, a); Put(e, "gok", d->GuardsOk() && (bit != gb || BitPadOk(*gb)), a); Put(e, "lck", d->locks == 0 && bit->GetLockCount() == 0, a);
        if (o == "bget") Put(e, "got", got, a);
        if (colour) { JV px = Arr(); PixelsV(d.get(), px, a); Put(e, "px", px, a); }
        else
        {
            if (dec && B(c, "keep")) bit = dec;
            BitsV(dec ? dec.get() : bit.get(), e, a);
        }
        ev.PushBack(e, a);
    }
}
static Family f("bmp", Ep);
