#pragma once
#include "libCZI.h"
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <mutex>
#include <thread>
#include <atomic>
#include <algorithm>
using namespace libCZI;
struct Mem : IInputOutputStream
{
    std::vector<uint8_t> d; std::mutex m; bool log = false; std::vector<std::pair<uint64_t, std::vector<uint8_t>>> writes; int shortAt = -1, n = 0, shortReadAt = -1, rn = 0;
    void Read(uint64_t o, void* p, uint64_t s, uint64_t* r) override { std::lock_guard<std::mutex> l(m); uint64_t k = o < d.size() ? std::min<uint64_t>(s, d.size() - o) : 0; if (rn++ == shortReadAt && k > 1) k /= 2; if (k) std::memcpy(p, d.data() + o, k); if (r) *r = k; }
    void Write(uint64_t o, const void* p, uint64_t s, uint64_t* w) override { std::lock_guard<std::mutex> l(m); if (n++ == shortAt && s > 1) s /= 2; if (s) { if (d.size() < o + s) d.resize(o + s); std::memcpy(d.data() + o, p, s); } if (log) writes.push_back({ o, std::vector<uint8_t>((const uint8_t*)p, (const uint8_t*)p + s) }); if (w) *w = s; }
};
inline int fail(const char* why) { std::printf("BROKEN: %s\n", why); return 1; }
struct Tile { std::string c; int m, x, y, w, h, pw, ph; PixelType pt = PixelType::Gray8; uint8_t fill = 1; };
inline CDimCoordinate Coord(const std::string& s) { return s.empty() ? CDimCoordinate() : CDimCoordinate::Parse(s.c_str()); }
inline AddSubBlockInfoMemPtr Info(const Tile& t, const std::vector<uint8_t>& data)
{
    AddSubBlockInfoMemPtr i; i.Clear(); i.coordinate = Coord(t.c); i.mIndexValid = t.m >= 0; i.mIndex = t.m; i.x = t.x; i.y = t.y; i.logicalWidth = t.w; i.logicalHeight = t.h; i.physicalWidth = t.pw; i.physicalHeight = t.ph; i.PixelType = t.pt;
    i.ptrData = data.data(); i.dataSize = (uint32_t)data.size(); i.SetCompressionMode(CompressionMode::UnCompressed); return i;
}
inline std::vector<uint8_t> Pix(const Tile& t) { return std::vector<uint8_t>((size_t)t.pw * t.ph * Utils::GetBytesPerPixel(t.pt), t.fill); }
template <class W> void Add(W& w, const Tile& t) { auto p = Pix(t); w->SyncAddSubBlock(Info(t, p)); }
template <class W> void AddAtt(W& w, int g, const char* name, const std::string& data)
{
    AddAttachmentInfo i; i.Clear(); i.contentGuid = GUID{ (uint32_t)g, 1, 2, {1,2,3,4,5,6,7,8} }; i.SetContentFileType("BIN"); i.SetName(name); i.ptrData = data.data(); i.dataSize = (uint32_t)data.size(); w->SyncAddAttachment(i);
}
template <class W> void Meta(W& w, const std::string& xml) { WriteMetadataInfo i; i.Clear(); i.szMetadata = xml.data(); i.szMetadataSize = xml.size(); w->SyncWriteMetadata(i); }
inline std::string MetaOf(const std::shared_ptr<IMetadataSegment>& s) { size_t n = 0; auto p = s->GetRawData(IMetadataSegment::XmlMetadata, &n); return std::string((const char*)p.get(), n); }
inline std::shared_ptr<Mem> WriteTiles(const std::vector<Tile>& ts) { auto f = std::make_shared<Mem>(); auto w = CreateCZIWriter(); w->Create(f, std::make_shared<CCziWriterInfo>(GUID{ 1,2,3,{4,5,6,7,8,9,10,11} })); for (auto& t : ts) Add(w, t); w->Close(); return f; }
inline std::shared_ptr<ICZIReader> Open(const std::shared_ptr<IStream>& f) { auto r = CreateCZIReader(); r->Open(f); return r; }
