// family "codec": compression round trips and the treatment of stored data of unexpected size
#include "drv_pix.h"
#include <zstd.h>
using namespace libCZI;
static std::shared_ptr<ICZIReader> DocWith(int w, int h, PixelType pt, int comp, const void* p, size_t n, std::shared_ptr<MemFile>& f)
{
    f = std::make_shared<MemFile>(); auto wr = CreateCZIWriter(); wr->Create(f, nullptr);
    AddSubBlockInfoMemPtr s; s.Clear(); s.coordinate.Set(DimensionIndex::C, 0); s.mIndexValid = true; s.mIndex = 0; s.x = s.y = 0; s.logicalWidth = s.physicalWidth = w; s.logicalHeight = s.physicalHeight = h; s.PixelType = pt; s.compressionModeRaw = comp; s.ptrData = p; s.dataSize = (std::uint32_t)n;
    wr->SyncAddSubBlock(s); wr->Close(); auto r = CreateCZIReader(); r->Open(f); return r;
}
static void PutBytes(JV& e, const char* k, IBitmapData* b, JA& a)
{
    JV v = Arr(); ScopedBitmapLockerP l{ b }; size_t n = b->GetWidth() * (size_t)NComp(b->GetPixelType()) * CompBytes(b->GetPixelType());
    for (std::uint32_t y = 0; y < b->GetHeight(); ++y) for (size_t i = 0; i < n; ++i) v.PushBack((int)((const std::uint8_t*)l.ptrDataRoi)[(ptrdiff_t)y * l.stride + i], a);
    Put(e, k, v, a);
}
static void Decode(const JV& c, const std::shared_ptr<ICZIReader>& rd, JV& e, JA& a, std::shared_ptr<IBitmapData>& out)
{
    std::string det, r = Guard([&] {
        auto sb = rd->ReadSubBlock(0); CreateBitmapOptions o; int h = I(c, "hm", -1);
        if (h >= 0) { o.handle_jpgxr_bitmap_mismatch = o.handle_uncompressed_data_size_mismatch = o.handle_zstd_data_size_mismatch = h == 1; out = sb->CreateBitmap(&o); } else out = sb->CreateBitmap(nullptr);
    }, &det);
    Put(e, "r", r, a); if (r != "ok") Put(e, "det", det, a); else { Put(e, "iw", (int)out->GetWidth(), a); Put(e, "ih", (int)out->GetHeight(), a); Put(e, "ipt", (int)out->GetPixelType(), a); }
}
static void Ep(const JV& s, JV& ev, JA& a)
{
    for (auto& c : s["ops"].GetArray())
    {
        JV e(c, a); std::string o = S(c, "o"); int w = I(c, "w"), h = I(c, "h"), scheme = I(c, "sch"); PixelType pt = (PixelType)I(c, "pt"); std::shared_ptr<MemFile> f; std::shared_ptr<IBitmapData> out; bool rec = true;
        if (o == "rt")
        {
            GBmp b(pt, w, h, I(c, "pad"), B(c, "tight")); b.Fill(I(c, "s"));
            if (Has(c, "rnd")) { unsigned z = (unsigned)I(c, "rnd"); for (int y = 0; y < h; ++y) for (int i = 0; i < b.rowBytes; ++i) { z = z * 1664525u + 1013904223u; b.Row(y)[i] = (std::uint8_t)(z >> 24); } if (pt == PixelType::Gray32Float) for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) PutComp(pt, b.Row(y), x, (int)(x * 2654435761u % 60000)); }
            CompressParametersOnMap pm; bool any = false;
            if (Has(c, "lv")) { pm.map[(int)CompressionParameterKey::ZSTD_RAWCOMPRESSIONLEVEL] = CompressParameter((std::int32_t)I(c, "lv")); any = true; }
            if (Has(c, "hl")) { pm.map[(int)CompressionParameterKey::ZSTD_PREPROCESS_DOLOHIBYTEPACKING] = CompressParameter(B(c, "hl")); any = true; }
            if (Has(c, "qu")) { pm.map[(int)CompressionParameterKey::JXRLIB_QUALITY] = CompressParameter((std::uint32_t)I(c, "qu")); any = true; }
            const ICompressParameters* pp = any || B(c, "emptymap") ? &pm : nullptr; int var = I(c, "var"); Bytes data; int allocs = 0, frees = 0; std::string det;
            auto al = [&](size_t n) -> void* { ++allocs; return std::malloc(n); }; auto fr = [&](void* p) { ++frees; std::free(p); };
            std::string r = Guard([&] {
                std::shared_ptr<IMemoryBlock> mb;
                if (scheme == 0) { for (int y = 0; y < h; ++y) data.insert(data.end(), b.Row(y), b.Row(y) + b.rowBytes); }
                else if (scheme == 1) mb = JxrLibCompress::Compress(pt, w, h, b.stride, b.Base(), pp);
                else if (var == 0) mb = scheme == 5 ? ZstdCompress::CompressZStd0Alloc(w, h, b.stride, pt, b.Base(), pp) : ZstdCompress::CompressZStd1Alloc(w, h, b.stride, pt, b.Base(), pp);
                else if (var == 1) mb = scheme == 5 ? ZstdCompress::CompressZStd0Alloc(w, h, b.stride, pt, b.Base(), al, fr, pp) : ZstdCompress::CompressZStd1Alloc(w, h, b.stride, pt, b.Base(), al, fr, pp);
                else
                {
                    size_t mx = scheme == 5 ? ZstdCompress::CalculateMaxCompressedSizeZStd0(w, h, pt) : ZstdCompress::CalculateMaxCompressedSizeZStd1(w, h, pt); size_t n = mx; if (var == 4) n = 5;
                    std::unique_ptr<std::uint8_t[]> d(new std::uint8_t[n]); bool ok;
                    if (var == 2) ok = scheme == 5 ? ZstdCompress::CompressZStd0(w, h, b.stride, pt, b.Base(), d.get(), n, pp) : ZstdCompress::CompressZStd1(w, h, b.stride, pt, b.Base(), d.get(), n, pp);
                    else ok = scheme == 5 ? ZstdCompress::CompressZStd0(w, h, b.stride, pt, b.Base(), al, fr, d.get(), n, pp) : ZstdCompress::CompressZStd1(w, h, b.stride, pt, b.Base(), al, fr, d.get(), n, pp);
                    if (!ok) throw std::pair<int, int>(0, 0); if (n > mx) throw std::runtime_error("result larger than the announced maximum"); data.assign(d.get(), d.get() + n);
                }
                if (mb) data.assign((const std::uint8_t*)mb->GetPtr(), (const std::uint8_t*)mb->GetPtr() + mb->GetSizeOfData()); else if (data.empty() && scheme) throw std::pair<int, int>(0, 0);
            }, &det);
            Put(e, "rc", r, a); Put(e, "bal", allocs == frees, a); Put(e, "gok", b.GuardsOk(), a); if (r != "ok") Put(e, "det", det, a);
            if (r == "ok")
            {
                auto rd = DocWith(w, h, pt, scheme == 1 ? 4 : scheme, data.data(), data.size(), f); Decode(c, rd, e, a, out);
                if (out && (int)out->GetWidth() == w && (int)out->GetHeight() == h && out->GetPixelType() == pt) { bool same = true; ScopedBitmapLockerSP l{ out }; for (int y = 0; y < h; ++y) same = same && !std::memcmp((const char*)l.ptrDataRoi + (ptrdiff_t)y * l.stride, b.Row(y), b.rowBytes); Put(e, "same", same, a); rec = !Has(c, "rnd") && b.rowBytes * h <= 300; }
            }
        }
        else if (o == "mm")
        {
            int n = I(c, "n"); Bytes raw((size_t)n); for (int k = 0; k < n; ++k) raw[(size_t)k] = (std::uint8_t)((I(c, "s") * 31 + k * 7 + k / 13 * 5) % 256);
            Bytes st; if (scheme == 6) for (auto& x : c["hdr"].GetArray()) st.push_back((std::uint8_t)x.GetInt());
            if (scheme == 0) st = raw; else { Bytes z(ZSTD_compressBound((size_t)n)); size_t k = ZSTD_compress(z.data(), z.size(), raw.data(), raw.size(), 3); st.insert(st.end(), z.begin(), z.begin() + (ptrdiff_t)k); }
            Bytes exact(st); auto rd = DocWith(w, h, pt, scheme, exact.data(), exact.size(), f); Decode(c, rd, e, a, out);
        }
        else if (o == "jm")
        {
            PixelType p1 = (PixelType)I(c, "pt1"); GBmp b(p1, I(c, "w1"), I(c, "h1"), 0); b.Fill(I(c, "s")); auto mb = JxrLibCompress::Compress(p1, b.w, b.h, b.stride, b.Base(), nullptr);
            auto rd = DocWith(w, h, pt, 4, mb->GetPtr(), mb->GetSizeOfData(), f); Decode(c, rd, e, a, out);
        }
        if (out && rec) { if (o == "mm") PutBytes(e, "by", out.get(), a); else { JV px = Arr(); PixelsV(out.get(), px, a); Put(e, "px", px, a); } }
        ev.PushBack(e, a);
    }
}
static Family f("codec", Ep);
