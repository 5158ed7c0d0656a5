// family "stream": stream implementations on one scratch file (sparse, so that offsets beyond 4 GB can be used)
#include "drv.h"
#include "drv_conc.h"
#ifndef VERIF_PUBLIC_ONLY
#include "StreamImpl.h"
#define OUTCRT(p, o) std::make_shared<libCZI::detail::CSimpleOutputStreamStreams>(p, o)
#define IOCRT(p) std::make_shared<libCZI::detail::CSimpleInputOutputStreamImpl>(p)
#else   // (the build with the internal classes failed)
#define OUTCRT(p, o) CreateOutputStreamForFile(p, o)
#define IOCRT(p) CreateInputOutputStreamForFile(p)
#endif
#include "libCZI_StreamsLib.h"
#include <cstring>
#include <csignal>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <atomic>
#include <thread>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include "libCZIApi.h"
using namespace libCZI;
static std::uint64_t PosOf(const JV& p) { return (std::uint64_t)p[0].GetInt() * 1048576u + p[1].GetInt(); }
static JV PosV(std::uint64_t v, JA& a) { JV r = Arr(); r.PushBack((int)(v >> 20), a).PushBack((int)(v & 1048575), a); return r; }
static Bytes BytesOf(const JV& v) { Bytes b; for (auto& x : v.GetArray()) b.push_back((std::uint8_t)x.GetInt()); return b; }
static JV BytesV(const std::uint8_t* p, size_t n, JA& a) { JV v = Arr(); for (size_t i = 0; i < n; ++i) v.PushBack((int)p[i], a); return v; }
struct FakeAttachment : IAttachment
{
    Bytes d; 
    const AttachmentInfo& GetAttachmentInfo() const override { static AttachmentInfo i{}; return i; }
    void DangerousGetRawData(const void*& p, size_t& s) const override { p = d.data(); s = d.size(); }
    std::shared_ptr<const void> GetRawData(size_t* s) override { if (s) *s = d.size(); auto p = std::shared_ptr<std::uint8_t>(new std::uint8_t[d.size() + 1], std::default_delete<std::uint8_t[]>()); if (!d.empty()) std::memcpy(p.get(), d.data(), d.size()); return p; }
};
// a small HTTP server on the loopback interface, serving the scratch file; the first path element selects how it answers
struct Http
{
    int ls = -1, port = 0; std::string path; std::thread acc; std::mutex m; std::vector<std::thread> th; std::vector<int> fds; std::string ua, cookie; int requests = 0; bool stop = false;
    bool Start(const std::string& p)
    {
        path = p; setenv("no_proxy", "*", 1); signal(SIGPIPE, SIG_IGN); ls = socket(AF_INET, SOCK_STREAM, 0); if (ls < 0) return false; sockaddr_in sa{}; sa.sin_family = AF_INET; sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t n = sizeof(sa);
        if (bind(ls, (sockaddr*)&sa, n) || listen(ls, 64) || getsockname(ls, (sockaddr*)&sa, &n)) { close(ls); ls = -1; return false; } port = ntohs(sa.sin_port);
        acc = std::thread([this] { for (;;) { int c = accept(ls, nullptr, nullptr); if (c < 0) return; int one = 1; setsockopt(c, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one)); std::lock_guard<std::mutex> l(m); if (stop) { close(c); return; } fds.push_back(c); th.emplace_back([this, c] { Serve(c); }); } }); return true;
    }
    ~Http() { if (ls < 0) return; { std::lock_guard<std::mutex> l(m); stop = true; for (int c : fds) shutdown(c, SHUT_RDWR); } shutdown(ls, SHUT_RDWR); acc.join(); close(ls); for (auto& t : th) t.join(); for (int c : fds) close(c); }
    static bool Send(int c, const void* p, size_t n) { auto q = (const char*)p; while (n) { ssize_t k = send(c, q, n, MSG_NOSIGNAL); if (k <= 0) return false; q += k; n -= (size_t)k; } return true; }
    static std::string Hdr(const std::string& rq, const std::string& name) { size_t i = rq.find("\r\n" + name + ": "); if (i == std::string::npos) return ""; i += name.size() + 4; return rq.substr(i, rq.find("\r\n", i) - i); }
    void Serve(int c)
    {
        std::string buf; char b[4096];
        for (;;)
        {
            size_t e; while ((e = buf.find("\r\n\r\n")) == std::string::npos) { ssize_t k = recv(c, b, sizeof(b), 0); if (k <= 0) return; buf.append(b, (size_t)k); }
            std::string rq = buf.substr(0, e + 2); buf.erase(0, e + 4); { std::lock_guard<std::mutex> l(m); ua = Hdr(rq, "User-Agent"); cookie = Hdr(rq, "Cookie"); ++requests; }
            std::string mode = rq.substr(5, rq.find(' ', 5) - 5), loc; std::uint64_t lo = 0, hi = ~0ull; std::string rg = Hdr(rq, "Range"); bool ranged = rg.compare(0, 6, "bytes=") == 0; if (ranged) { char* q; lo = std::strtoull(rg.c_str() + 6, &q, 10); if (*q == '-' && q[1]) hi = std::strtoull(q + 1, nullptr, 10); }
            if (mode.compare(0, 3, "rd/") == 0) { std::string t = mode.substr(3), h = "HTTP/1.1 302 Found\r\nLocation: /" + t + "\r\nContent-Length: 5\r\n\r\nmoved"; if (!Send(c, h.data(), h.size())) return; continue; }
            struct stat sb; int fd = open(path.c_str(), O_RDONLY); bool ex = fd >= 0 && fstat(fd, &sb) == 0; std::uint64_t sz = ex ? (std::uint64_t)sb.st_size : 0;
            auto err = [&](const char* st) { std::string body = "<html>this is an error page</html>", h = std::string("HTTP/1.1 ") + st + "\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body; return Send(c, h.data(), h.size()); };
            bool go = true; Bytes d; auto get = [&](std::uint64_t off, std::uint64_t n) { d.resize((size_t)n); if (n && pread(fd, d.data(), d.size(), (off_t)off) != (ssize_t)n) d.clear(); };
            if (!ex || mode == "e404") go = err("404 Not Found"); else if (mode == "e500") go = err("500 Internal Server Error"); else if (mode == "e403") go = err("403 Forbidden");
            else if (mode == "whole" || !ranged) { if (sz > (1u << 20)) go = err("413 Payload Too Large"); else { get(0, sz); std::string h = "HTTP/1.1 200 OK\r\nContent-Length: " + std::to_string(sz) + "\r\n\r\n"; go = Send(c, h.data(), h.size()) && Send(c, d.data(), d.size()); } }
            else if (lo >= sz || hi < lo) go = err("416 Range Not Satisfiable");
            else
            {
                if (hi >= sz) hi = sz - 1; if (mode == "more") { hi = std::min<std::uint64_t>(sz - 1, hi + 7); } get(lo, hi - lo + 1); std::string h = "HTTP/1.1 206 Partial Content\r\nContent-Range: bytes " + std::to_string(lo) + "-" + std::to_string(hi) + "/" + std::to_string(sz) + "\r\n";
                if (mode == "chunked") { h += "Transfer-Encoding: chunked\r\n\r\n"; go = Send(c, h.data(), h.size()); for (size_t k = 0; go && k < d.size(); k += 7) { size_t n = std::min<size_t>(7, d.size() - k); char t[16]; std::snprintf(t, 16, "%zx\r\n", n); std::string x = t + std::string((char*)d.data() + k, n) + "\r\n"; go = Send(c, x.data(), x.size()); } go = go && Send(c, "0\r\n\r\n", 5); }
                else { h += "Content-Length: " + std::to_string(d.size()) + "\r\n\r\n"; go = Send(c, h.data(), h.size()); if (mode == "cut") { if (go) Send(c, d.data(), d.size() / 2); shutdown(c, SHUT_RDWR); go = false; } else go = go && Send(c, d.data(), d.size()); }
            }
            if (fd >= 0) close(fd); if (!go) return;
        }
    }
};
struct H { std::shared_ptr<IStream> in; std::shared_ptr<IOutputStream> out; };
static const char* NAMES[] = { "plain.bin", "with space.bin", "\xc3\xa4\xc3\xb6\xc3\xbc.bin", "\xe6\xb8\xac\xe8\xa9\xa6.bin", "\xf0\x9f\x94\xac.bin" };
static std::wstring Wide(const std::string& u)
{   // own decoder, not the library's
    std::wstring w; for (size_t i = 0; i < u.size();) { unsigned char c = u[i]; int n = c < 0x80 ? 0 : c < 0xe0 ? 1 : c < 0xf0 ? 2 : 3; unsigned v = n == 0 ? c : c & (0x3f >> n); for (int k = 1; k <= n; ++k) v = (v << 6) | (u[i + k] & 0x3f); w += (wchar_t)v; i += n + 1; } return w;
}
static void ReadInto(JV& o, IStream* st, std::uint64_t off, size_t n, bool nullcount, JA& a)
{
    std::unique_ptr<std::uint8_t[]> b(new std::uint8_t[n ? n : 1]); std::memset(b.get(), 0xA5, n ? n : 1); std::uint64_t got = 0;
    std::string r = Guard([&] { st->Read(off, b.get(), n, nullcount ? nullptr : &got); });
    if (nullcount && r == "ok") { std::uint64_t g2 = 0; std::unique_ptr<std::uint8_t[]> b2(new std::uint8_t[n ? n : 1]); std::memset(b2.get(), 0xA5, n ? n : 1); Guard([&] { st->Read(off, b2.get(), n, &g2); }); got = g2; if (std::memcmp(b.get(), b2.get(), n)) got = 1999999999; }
    bool same = true; for (size_t k = (size_t)std::min<std::uint64_t>(got, n); k < n; ++k) if (b[k] != 0xA5) same = false;
    Put(o, "r", r, a); Put(o, "got", Clamp((unsigned long)got), a); Put(o, "same", same || r != "ok", a); JV d = BytesV(b.get(), r == "ok" ? (size_t)std::min<std::uint64_t>(got, n) : 0, a); Put(o, "d", d, a);
}
static std::shared_ptr<IStream> OpenIn(const std::string& kind, const std::string& path, const JV& op)
{
    if (kind == "pread" || kind == "crt") { StreamsFactory::CreateStreamInfo ci; ci.class_name = kind == "pread" ? "pread_file_inputstream" : "c_runtime_file_inputstream"; return StreamsFactory::CreateStream(ci, path); }
    if (kind == "crtw") { StreamsFactory::CreateStreamInfo ci; ci.class_name = "c_runtime_file_inputstream"; return StreamsFactory::CreateStream(ci, Wide(path)); }
    if (kind == "default") return StreamsFactory::CreateDefaultStreamForFile(path.c_str());
    if (kind == "defaultw") return StreamsFactory::CreateDefaultStreamForFile(Wide(path).c_str());
    if (kind == "create") return CreateStreamFromFile(Wide(path).c_str());
    Bytes d = BytesOf(op["d"]);
    if (kind == "att") { FakeAttachment f; f.d = d; return CreateStreamFromMemory(&f); }
    if (kind == "mem") { std::shared_ptr<std::uint8_t> p(new std::uint8_t[d.empty() ? 1 : d.size()], std::default_delete<std::uint8_t[]>()); if (!d.empty()) std::memcpy(p.get(), d.data(), d.size()); return CreateStreamFromMemory(p, d.size()); }
    fprintf(stderr, "unknown kind %s\n", kind.c_str()); exit(3);
}
static void Ep(const JV& s, JV& ev, JA& a)
{
    setlocale(LC_ALL, "C.UTF-8"); signal(SIGXFSZ, SIG_IGN);
    char tmpl[] = "/tmp/czistrXXXXXX"; if (!mkdtemp(tmpl)) { perror("mkdtemp"); exit(4); } std::string dir = tmpl, path = dir + "/" + NAMES[I(s, "name") % 5]; mkdir((dir + "/d").c_str(), 0700);
    std::unique_ptr<Http> http; auto server = [&] { if (!http) { StreamsFactory::Initialize(); http.reset(new Http); if (!http->Start(path)) http->port = 0; } return http->port; };
    std::map<int, H> hs; std::vector<std::pair<std::uint64_t, size_t>> touched;
    for (auto& op : s["ops"].GetArray())
    {
        std::string o = S(op, "o"); JV e(op, a);
        if (o == "file")
        {
            if (B(op, "ex")) { int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); for (auto& w : op["w"].GetArray()) { Bytes d = BytesOf(w["d"]); if (pwrite(fd, d.data(), d.size(), (off_t)PosOf(w["p"])) != (ssize_t)d.size()) { perror("pwrite"); exit(4); } touched.emplace_back(PosOf(w["p"]), d.size()); } close(fd); }
        }
        else if (o == "open")
        {
            std::string kind = S(op, "kind"), p = B(op, "dir") ? dir + "/d" : path; H h;
            if (kind == "curl" && !server()) continue;
            std::string r = Guard([&] {
                if (kind == "curl")
                {
                    StreamsFactory::CreateStreamInfo ci; ci.class_name = "curl_http_inputstream"; using SP = StreamsFactory::StreamProperties; std::string m = S(op, "mode"), u = m == "badurl" ? "not a url" : "http://127.0.0.1:" + std::to_string(m == "refused" ? 1 : http->port) + "/" + m;
                    if (Has(op, "ua")) ci.property_bag[SP::kCurlHttp_UserAgent] = StreamsFactory::Property(S(op, "ua")); if (Has(op, "ck")) ci.property_bag[SP::kCurlHttp_Cookie] = StreamsFactory::Property(S(op, "ck")); if (B(op, "follow")) ci.property_bag[SP::kCurlHttp_FollowLocation] = StreamsFactory::Property(true); if (Has(op, "redirs")) ci.property_bag[SP::kCurlHttp_MaxRedirs] = StreamsFactory::Property((std::int32_t)I(op, "redirs")); if (B(op, "wrong")) ci.property_bag[SP::kCurlHttp_UserAgent] = StreamsFactory::Property((std::int32_t)5);
                    ci.property_bag[SP::kCurlHttp_Timeout] = StreamsFactory::Property((std::int32_t)60); h.in = B(op, "wide") ? StreamsFactory::CreateStream(ci, Wide(u)) : StreamsFactory::CreateStream(ci, u);
                }
                else if (kind == "out") h.out = CreateOutputStreamForFile(Wide(p).c_str(), B(op, "over"));
                else if (kind == "out8") h.out = CreateOutputStreamForFileUtf8(p.c_str(), B(op, "over"));
                else if (kind == "outcrt") h.out = OUTCRT(Wide(p).c_str(), B(op, "over"));
                else if (kind == "io") { auto x = CreateInputOutputStreamForFile(Wide(p).c_str()); h.in = x; h.out = x; }
                else if (kind == "iocrt") { auto x = IOCRT(Wide(p).c_str()); h.in = x; h.out = x; }
                else h.in = OpenIn(kind, p, op); });
            if (r == "ok") { if (!h.in && !h.out) r = "null"; else hs[I(op, "h")] = h; }
            Put(e, "r", r, a);
        }
        else if (o == "read")
        {
            auto it = hs.find(I(op, "h")); if (it == hs.end() || !it->second.in) continue;
            std::uint64_t off = B(op, "huge") ? 0x8000000000000000ULL + PosOf(op["p"]) : PosOf(op["p"]); int rq = http ? http->requests : 0; ReadInto(e, it->second.in.get(), off, (size_t)I(op, "n"), B(op, "nc"), a);
            if (http) { std::lock_guard<std::mutex> l(http->m); bool any = http->requests != rq; Put(e, "req", any, a); Put(e, "ua", any ? http->ua : "", a); Put(e, "ck", any ? http->cookie : "", a); }
        }
        else if (o == "conc")
        {
            auto it = hs.find(I(op, "h")); if (it == hs.end() || !it->second.in) continue;
            JV q = Arr(); std::vector<std::vector<JD>> per; size_t nt = op["t"].Size(); per.resize(nt); IStream* st = it->second.in.get(); unsigned seed = (unsigned)I(op, "seed"); Conc c;
            for (size_t t = 0; t < nt; ++t) per[t] = std::vector<JD>(op["t"][(rapidjson::SizeType)t].Size());
            c.Run(nt, [&](size_t t) { unsigned sd = seed + 77 * (unsigned)t; auto& l = op["t"][(rapidjson::SizeType)t]; for (rapidjson::SizeType k = 0; k < l.Size(); ++k) { Noise(sd, 1); JD& d = per[t][k]; d.SetObject(); d.CopyFrom(l[k], d.GetAllocator()); ReadInto(d, st, PosOf(l[k]["p"]), (size_t)I(l[k], "n"), false, d.GetAllocator()); } });
            for (auto& l : per) for (auto& d : l) { JV x(d, a); Put(x, "h", I(op, "h"), a); q.PushBack(x, a); }
            e.RemoveMember("t"); Put(e, "q", q, a);
        }
        else if (o == "write")
        {
            auto it = hs.find(I(op, "h")); if (it == hs.end() || !it->second.out) continue;
            Bytes d = BytesOf(op["d"]); std::unique_ptr<std::uint8_t[]> b(new std::uint8_t[d.size() + (d.empty() ? 1 : 0)]); if (!d.empty()) std::memcpy(b.get(), d.data(), d.size()); std::uint64_t got = 0;
            rlimit old; bool lim = Has(op, "lim"); if (lim) { getrlimit(RLIMIT_FSIZE, &old); rlimit n = old; n.rlim_cur = PosOf(op["lim"]); setrlimit(RLIMIT_FSIZE, &n); }
            bool nc = B(op, "nc"); std::string r = Guard([&] { it->second.out->Write(PosOf(op["p"]), b.get(), d.size(), nc ? nullptr : &got); }); if (nc) got = d.size();
            if (lim) setrlimit(RLIMIT_FSIZE, &old);
            touched.emplace_back(PosOf(op["p"]), d.size()); Put(e, "r", r, a); Put(e, "got", Clamp((unsigned long)got), a);
        }
        else if (o == "close") { hs.erase(I(op, "h")); }
        else if (o == "raw")
        {
            struct stat sb; bool ex = stat(path.c_str(), &sb) == 0; Put(e, "ex", ex, a); JV l = PosV(ex ? (std::uint64_t)sb.st_size : 0, a); Put(e, "len", l, a); JV w = Arr();
            if (ex) { int fd = open(path.c_str(), O_RDONLY); for (auto& t : touched) { Bytes b(t.second); ssize_t n = pread(fd, b.data(), b.size(), (off_t)t.first); JV x = Obj(); JV p = PosV(t.first, a); Put(x, "p", p, a); JV d = BytesV(b.data(), n > 0 ? (size_t)n : 0, a); Put(x, "d", d, a); w.PushBack(x, a); } close(fd); }
            Put(e, "w", w, a);
        }
        else if (o == "bag")
        {   // the options of a stream as a JSON text of the C interface; the requests of a reader on it show which ones arrived
            if (!server()) continue; std::string bag = S(op, "bag"), u = "http://127.0.0.1:" + std::to_string(http->port) + "/f"; ObjectHandle in = 0, rd = 0; int rq = http->requests; int rc = libCZI_CreateInputStream("curl_http_inputstream", bag.c_str(), u.c_str(), &in); bool issued = in != 0; std::string ua, ck;
            if (rc == 0) { libCZI_CreateReader(&rd); ReaderOpenInfoInterop oi; oi.streamObject = in; libCZI_ReaderOpen(rd, &oi); libCZI_ReleaseReader(rd); libCZI_ReleaseInputStream(in); std::lock_guard<std::mutex> l(http->m); if (http->requests != rq) { ua = http->ua; ck = http->cookie; } }
            Put(e, "rc", rc, a); Put(e, "issued", issued, a); Put(e, "ua", ua, a); Put(e, "ck", ck, a);
        }
        else if (o == "factory")
        {
            int n = StreamsFactory::GetStreamClassesCount(); JV c = Arr(); { int fd = open((dir + "/x").c_str(), O_RDWR | O_CREAT, 0600); if (write(fd, "abc", 3) != 3) exit(4); close(fd); }
            for (int k = 0; k < n; ++k) { StreamsFactory::StreamClassInfo i; bool ok = StreamsFactory::GetStreamInfoForClass(k, i); if (ok && i.class_name.find("file") != std::string::npos) { StreamsFactory::CreateStreamInfo ci; ci.class_name = i.class_name; std::string r = Guard([&] { auto st = StreamsFactory::CreateStream(ci, dir + "/x"), st2 = StreamsFactory::CreateStream(ci, Wide(dir + "/x")); char b[4] = {}, b2[4] = {}; std::uint64_t g; st->Read(0, b, 3, &g); st2->Read(0, b2, 3, &g); ok = !std::strcmp(b, "abc") && !std::strcmp(b2, "abc"); }); ok = ok && r == "ok"; } c.PushBack(ok, a); }
            StreamsFactory::StreamClassInfo i; Put(e, "bounds", !StreamsFactory::GetStreamInfoForClass(n, i) && !StreamsFactory::GetStreamInfoForClass(-1, i), a);
            StreamsFactory::CreateStreamInfo ci; ci.class_name = "no_such_class"; std::shared_ptr<IStream> st; std::string r = Guard([&] { st = StreamsFactory::CreateStream(ci, dir + "/x"); }); Put(e, "unknown", r != "ok" ? r.c_str() : st ? "stream" : "null", a); Put(e, "c", c, a);
            unlink((dir + "/x").c_str());
        }
        else { fprintf(stderr, "unknown op %s\n", o.c_str()); exit(3); }
        ev.PushBack(e, a);
    }
    hs.clear(); http.reset(); unlink(path.c_str()); rmdir((dir + "/d").c_str()); rmdir(dir.c_str());
}
static Family f("stream", Ep);
