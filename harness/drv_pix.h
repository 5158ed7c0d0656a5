// Bitmaps with known content, guard bytes and arbitrary stride; pixel recording.
#pragma once
#include "drv.h"
#include <cmath>
#include <cstring>
inline int NComp(libCZI::PixelType t) { switch (t) { case libCZI::PixelType::Gray8: case libCZI::PixelType::Gray16: case libCZI::PixelType::Gray32Float: return 1; case libCZI::PixelType::Bgr24: case libCZI::PixelType::Bgr48: return 3; case libCZI::PixelType::Bgra32: return 4; default: return 1; } }
inline int CompBytes(libCZI::PixelType t) { switch (t) { case libCZI::PixelType::Gray16: case libCZI::PixelType::Bgr48: return 2; case libCZI::PixelType::Gray32Float: return 4; default: return 1; } }
// content formula (mirrored in Pixels.tla)
inline int PixVal(libCZI::PixelType t, int s, int x, int y, int k)
{
    if (CompBytes(t) == 1) return (s * 31 + x * 7 + y * 13 + k * 5) % 251;
    return (s * 311 + x * 71 + y * 131 + k * 17) % 65521;
}
inline void PutComp(libCZI::PixelType t, void* row, int idx, int v)
{
    switch (CompBytes(t)) { case 1: ((std::uint8_t*)row)[idx] = (std::uint8_t)v; break; case 2: { std::uint16_t u = (std::uint16_t)v; std::memcpy((char*)row + 2 * idx, &u, 2); break; } default: { float f = (float)v; std::memcpy((char*)row + 4 * idx, &f, 4); } }
}
inline int GetComp(libCZI::PixelType t, const void* row, int idx)   // floats are recorded times 4096
{
    switch (CompBytes(t))
    {
    case 1: return ((const std::uint8_t*)row)[idx];
    case 2: { std::uint16_t u; std::memcpy(&u, (const char*)row + 2 * idx, 2); return u; }
    default: { float f; std::memcpy(&f, (const char*)row + 4 * idx, 4); if (!(f > -500000.f && f < 500000.f)) return -2000000000; return (int)std::lround((double)f * 4096); }
    }
}
struct GBmp : public libCZI::IBitmapData
{
    libCZI::PixelType pt; std::uint32_t w, h; int stride, rowBytes; Bytes mem; int locks = 0; size_t lead = 32; bool tight; std::unique_ptr<std::uint8_t[]> exact;
    // guards: bytes before, after, and in the padding of every row hold 0xA5. tight: heap block of exactly the needed size (so that the memory checker sees any overrun)
    GBmp(libCZI::PixelType pt, std::uint32_t w, std::uint32_t h, int pad, bool tight = false) : pt(pt), w(w), h(h), tight(tight)
    {
        rowBytes = (int)w * NComp(pt) * CompBytes(pt); stride = rowBytes + pad; size_t n = h ? (size_t)stride * (h - 1) + rowBytes : 0;
        if (tight) { exact.reset(new std::uint8_t[n ? n : 1]); std::memset(exact.get(), 0xA5, n); }
        else { mem.assign(lead + (size_t)stride * h + 64, 0xA5); }
    }
    std::uint8_t* Base() { return tight ? exact.get() : mem.data() + lead; }
    std::uint8_t* Row(int y) { return Base() + (ptrdiff_t)stride * y; }
    libCZI::PixelType GetPixelType() const override { return pt; }
    libCZI::IntSize GetSize() const override { return libCZI::IntSize{ w, h }; }
    libCZI::BitmapLockInfo Lock() override { ++locks; libCZI::BitmapLockInfo i; i.ptrData = i.ptrDataRoi = Base(); i.stride = stride; i.size = h ? (size_t)stride * (h - 1) + rowBytes : 0; return i; }
    void Unlock() override { --locks; }
    int GetLockCount() const override { return locks; }
    void Fill(int s) { for (std::uint32_t y = 0; y < h; ++y) for (std::uint32_t x = 0; x < w; ++x) for (int k = 0; k < NComp(pt); ++k) PutComp(pt, Row(y), x * NComp(pt) + k, PixVal(pt, s, x, y, k)); }
    void FillConst(int v) { for (std::uint32_t y = 0; y < h; ++y) for (int i = 0; i < (int)w * NComp(pt); ++i) PutComp(pt, Row(y), i, v); }
    bool GuardsOk()
    {
        if (tight) { for (std::uint32_t y = 0; y + 1 < h; ++y) for (int i = rowBytes; i < stride; ++i) if (Row(y)[i] != 0xA5) return false; return true; }
        for (size_t i = 0; i < lead; ++i) if (mem[i] != 0xA5) return false;
        for (std::uint32_t y = 0; y < h; ++y) for (int i = rowBytes; i < stride; ++i) if (Row(y)[i] != 0xA5) return false;
        for (size_t i = lead + (size_t)stride * h; i < mem.size(); ++i) if (mem[i] != 0xA5) return false;
        return true;
    }
};
inline void PixelsV(libCZI::IBitmapData* b, JV& out, JA& a)
{
    libCZI::ScopedBitmapLockerP l{ b }; auto sz = b->GetSize(); auto t = b->GetPixelType(); int n = NComp(t);
    out.Reserve(sz.w * sz.h * n + 1, a);
    for (std::uint32_t y = 0; y < sz.h; ++y) for (std::uint32_t i = 0; i < sz.w * n; ++i) out.PushBack(GetComp(t, (const char*)l.ptrDataRoi + (ptrdiff_t)y * l.stride, i), a);
}
inline bool MaskBit(int ms, int x, int y) { if (ms < 0) return ms == -1; return (ms + 3 * x + 2 * y + x * y + x / 8) % 5 != 0; }   // -1 all set, -2 none
struct GBit : public libCZI::IBitonalBitmapData
{
    std::uint32_t w, h; int stride; std::unique_ptr<std::uint8_t[]> m; int locks = 0;
    GBit(std::uint32_t w, std::uint32_t h, int pad) : w(w), h(h), stride((int)(w + 7) / 8 + pad), m(new std::uint8_t[(size_t)stride * h + 1]) { std::memset(m.get(), 0xA5, (size_t)stride * h + 1); }
    libCZI::IntSize GetSize() const override { return libCZI::IntSize{ w, h }; }
    libCZI::BitonalBitmapLockInfo Lock() override { ++locks; libCZI::BitonalBitmapLockInfo i; i.ptrData = m.get(); i.stride = stride; i.size = (size_t)stride * h; return i; }
    void Unlock() override { --locks; }
    int GetLockCount() const override { return locks; }
    void Put(int x, int y, bool v) { auto& b = m[(size_t)y * stride + x / 8]; std::uint8_t k = (std::uint8_t)(0x80 >> (x & 7)); if (v) b |= k; else b &= (std::uint8_t)~k; }
    bool Get(int x, int y) const { return (m[(size_t)y * stride + x / 8] >> (7 - (x & 7))) & 1; }
    void Fill(int ms) { for (std::uint32_t y = 0; y < h; ++y) for (std::uint32_t x = 0; x < w; ++x) Put(x, y, MaskBit(ms, x, y)); }
};
