#include "drv.h"
#include <fstream>
#include <iostream>
#include <cstring>
#include <unistd.h>
#include <typeinfo>
#include <ios>

std::map<std::string, EpisodeFn>& Families() { static std::map<std::string, EpisodeFn> m; return m; }
Family::Family(const char* n, EpisodeFn f) { Families()[n] = f; }

int Digest(const void* p, size_t n)
{
    std::uint64_t h = 1469598103934665603ULL; const auto* b = static_cast<const std::uint8_t*>(p);
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ULL; }
    h ^= h >> 32; return (int)(h & 0x3fffffff);
}
JV DigestV(const void* p, size_t n, JA& a) { JV v = Arr(); v.PushBack(Clamp((unsigned long)n), a); v.PushBack(n ? Digest(p, n) : 0, a); return v; }
Bytes Gen(size_t len, unsigned seed)
{
    Bytes b(len); std::uint32_t x = seed * 2654435761u + 12345u;
    for (size_t i = 0; i < len; ++i) { x = x * 1664525u + 1013904223u; b[i] = (std::uint8_t)(x >> 24); }
    return b;
}
libCZI::GUID GuidFrom(int g)
{
    libCZI::GUID r; std::memset(&r, 0, sizeof(r)); if (g == 0) return r;
    if (g > 900000 && g <= 900016) { reinterpret_cast<std::uint8_t*>(&r)[g - 900001] = 1; return r; }    // all but one byte are zero
    r.Data1 = (std::uint32_t)g; r.Data2 = (std::uint16_t)(g * 7 + 1); r.Data3 = (std::uint16_t)(g * 13 + 5);
    for (int i = 0; i < 8; ++i) r.Data4[i] = (std::uint8_t)(g * 31 + i * 17 + 3);
    return r;
}
int GuidTo(const libCZI::GUID& g)
{
    if (g.Data1 < 0x3fffffffu) { auto r = GuidFrom((int)g.Data1); if (!std::memcmp(&r, &g, sizeof(g))) return (int)g.Data1; }
    for (int k = 900001; k <= 900016; ++k) { auto r = GuidFrom(k); if (!std::memcmp(&r, &g, sizeof(g))) return k; }
    return -1 - (Digest(&g, sizeof(g)) & 0xfffffff);
}
std::string Guard(const std::function<void()>& f, std::string* detail)
{
    using namespace libCZI;
    try { f(); return "ok"; }
    catch (LibCZIWriteException& e) { if (detail) *detail = e.what(); return "write"; }
    catch (LibCZIReaderWriteException& e) { if (detail) *detail = e.what(); return "rw"; }
    catch (LibCZIIOException& e) { if (detail) *detail = e.what(); return "io"; }
    catch (LibCZICZIParseException& e) { if (detail) *detail = e.what(); return "parse"; }
    catch (LibCZIAccessorException& e) { if (detail) *detail = e.what(); return "accessor"; }
    catch (LibCZIMetadataException& e) { if (detail) *detail = e.what(); return "meta"; }
    catch (LibCZIException& e) { if (detail) *detail = e.what(); return "libczi"; }
    catch (std::bad_alloc& e) { if (detail) *detail = e.what(); return "badalloc"; }
    catch (std::invalid_argument& e) { if (detail) *detail = e.what(); return "arg"; }
    catch (std::out_of_range& e) { if (detail) *detail = e.what(); return "range"; }
    catch (std::logic_error& e) { if (detail) *detail = e.what(); return "logic"; }
    catch (std::runtime_error& e) { if (detail) *detail = e.what(); return "runtime"; }
    catch (std::exception& e) { if (detail) *detail = e.what(); return "std"; }
    catch (...) { return "unknown"; }
}
void MemFile::Read(std::uint64_t offset, void* pv, std::uint64_t size, std::uint64_t* pr)
{
    std::lock_guard<std::mutex> l(mtx);
    int n = readCalls++; std::uint64_t lim = size;
    auto f = rfault.find(n);
    if (f != rfault.end()) { if (f->second == 1) { ++faultsHit; throw std::runtime_error("injected read fault"); } lim = size / 2; }
    std::uint64_t total = data.size() + hole; std::uint64_t avail = offset < total ? total - offset : 0; std::uint64_t k = std::min(avail, lim);
    if (k < std::min(avail, size)) ++faultsHit;
    if (k && !hole) std::memcpy(pv, data.data() + offset, k);
    else if (k)
    {
        auto* d = static_cast<std::uint8_t*>(pv); std::uint64_t o = offset, left = k;
        while (left)
        {
            std::uint64_t m;
            if (o < holeAt) { m = std::min(left, holeAt - o); std::memcpy(d, data.data() + o, m); }
            else if (o < holeAt + hole) { m = std::min(left, holeAt + hole - o); std::memset(d, 0, m); }
            else { m = left; std::memcpy(d, data.data() + (o - hole), m); }
            d += m; o += m; left -= m;
        }
    }
    if (pr) *pr = k;
}
void MemFile::Put1(std::uint64_t off, const std::uint8_t* p, std::uint64_t n)
{
    if (data.size() < off + n) data.resize(off + n, 0xEE);   // 0xEE marks never-written gaps
    std::memcpy(data.data() + off, p, n);
}
void MemFile::Write(std::uint64_t offset, const void* pv, std::uint64_t size, std::uint64_t* pw)
{
    std::lock_guard<std::mutex> l(mtx);
    int n = writeCalls++; std::uint64_t lim = size;
    auto f = wfault.find(n); int kind = f != wfault.end() ? f->second : 0;
    if (wfaultAllAfter && n >= wfaultAllFrom) kind = 1;
    if (kind == 1) { ++faultsHit; throw std::runtime_error("injected write fault"); }
    if (kind == 2 && size) { ++faultsHit; lim = size ? size - 1 - (size - 1) / 2 : 0; if (lim == size && size) lim = size - 1; }
    if (offset + lim > (1u << 28) + hole) throw std::runtime_error("file too large");
    if (lim)
    {
        const auto* b = static_cast<const std::uint8_t*>(pv);
        if (!hole) Put1(offset, b, lim);
        else
        {
            if (offset < holeAt) Put1(offset, b, std::min(lim, holeAt - offset));
            if (offset + lim > holeAt + hole) { std::uint64_t o = std::max(offset, holeAt + hole); Put1(o - hole, b + (o - offset), offset + lim - o); }
        }
    }
    if (logWrites) log.push_back({ offset, Bytes((const std::uint8_t*)pv, (const std::uint8_t*)pv + lim) });
    if (pw) *pw = lim;
}
static const char* const kDims = "ZCTRSIHVB";
JV CoordV(const libCZI::IDimCoordinate* c, JA& a)
{
    JV v = Arr();
    for (const char* d = kDims; *d; ++d)
    {
        int val;
        if (c->TryGetPosition(libCZI::Utils::CharToDimension(*d), &val))
        {
            JV p = Arr(); p.PushBack(JV(std::string(1, *d), a).Move(), a); p.PushBack(val, a); v.PushBack(p, a);
        }
    }
    return v;
}
libCZI::CDimCoordinate CoordFrom(const JV& v)
{
    libCZI::CDimCoordinate c;
    for (auto& p : v.GetArray()) c.Set(libCZI::Utils::CharToDimension(p[0].GetString()[0]), p[1].GetInt());
    return c;
}

// usage: czidrv SCRIPT OUT START : runs episodes from line START on; one output line per episode
int main(int argc, char** argv)
{
    if (argc < 4) { std::cerr << "usage: czidrv script out start [episode-timeout-s]\n"; return 3; }
    std::ifstream in(argv[1]); std::FILE* out = std::fopen(argv[2], "ab"); long start = std::atol(argv[3]);
    unsigned tmo = argc > 4 ? (unsigned)std::atoi(argv[4]) : 60;
    if (!in || !out) { std::cerr << "cannot open files\n"; return 3; }
    std::string line; long n = -1;
    while (std::getline(in, line))
    {
        if (++n < start || line.empty()) continue;
        JD d; d.Parse(line.c_str(), line.size());
        if (d.HasParseError() || !d.IsObject()) { std::cerr << "bad script line " << n << "\n"; return 3; }
        std::string fam = S(d, "fam"); auto it = Families().find(fam);
        if (it == Families().end()) { std::cerr << "unknown family " << fam << "\n"; return 3; }
        JD o; o.SetObject(); JA& a = o.GetAllocator(); JV ev = Arr();
        alarm(tmo);
        try { it->second(d, ev, a); }
        catch (const std::exception& e) { std::cerr << "harness error in episode " << n << ": " << typeid(e).name() << " " << e.what() << "\n"; return 4; }
        alarm(0);
        o.AddMember("id", JV(S(d, "id"), a).Move(), a); o.AddMember("ev", ev, a);
        rapidjson::StringBuffer sb; rapidjson::Writer<rapidjson::StringBuffer> w(sb); o.Accept(w);
        std::fwrite(sb.GetString(), 1, sb.GetSize(), out); std::fputc('\n', out); std::fflush(out);
    }
    std::fclose(out);
    return 0;
}
