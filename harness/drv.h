// Common parts of the conformance driver: JSON episodes in, JSON event traces out.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <vector>
#include <stdexcept>
#define RAPIDJSON_HAS_STDSTRING 1
#include <rapidjson/document.h>
#include <rapidjson/stringbuffer.h>
#include <rapidjson/writer.h>
#include "inc_libCZI_Config.h"
#include "libCZI.h"

using JV = rapidjson::Value;
using JD = rapidjson::Document;
using JA = rapidjson::Document::AllocatorType;
typedef std::vector<std::uint8_t> Bytes;

// an episode: reads "ops" of the script line and appends events to ev
typedef void (*EpisodeFn)(const JV& script, JV& ev, JA& a);
struct Family { Family(const char* name, EpisodeFn fn); };
std::map<std::string, EpisodeFn>& Families();

inline int I(const JV& v, const char* k, int def = 0) { auto it = v.FindMember(k); return it == v.MemberEnd() || it->value.IsNull() ? def : (it->value.IsBool() ? (it->value.GetBool() ? 1 : 0) : it->value.GetInt()); }
inline bool B(const JV& v, const char* k, bool def = false) { auto it = v.FindMember(k); return it == v.MemberEnd() || it->value.IsNull() ? def : (it->value.IsBool() ? it->value.GetBool() : it->value.GetInt() != 0); }
inline std::string S(const JV& v, const char* k, const char* def = "") { auto it = v.FindMember(k); return it == v.MemberEnd() || it->value.IsNull() ? std::string(def) : std::string(it->value.GetString(), it->value.GetStringLength()); }
inline bool Has(const JV& v, const char* k) { auto it = v.FindMember(k); return it != v.MemberEnd() && !it->value.IsNull(); }
inline void Put(JV& o, const char* k, int v, JA& a) { o.AddMember(JV(k, a).Move(), JV(v).Move(), a); }
inline void Put(JV& o, const char* k, bool v, JA& a) { o.AddMember(JV(k, a).Move(), JV(v).Move(), a); }
inline void Put(JV& o, const char* k, const std::string& v, JA& a) { o.AddMember(JV(k, a).Move(), JV(v.c_str(), (rapidjson::SizeType)v.size(), a).Move(), a); }
inline void Put(JV& o, const char* k, const char* v, JA& a) { Put(o, k, std::string(v), a); }
inline void Put(JV& o, const char* k, JV& v, JA& a) { o.AddMember(JV(k, a).Move(), v.Move(), a); }
inline JV Arr() { return JV(rapidjson::kArrayType); }
inline JV Obj() { return JV(rapidjson::kObjectType); }
inline JV Copy(const JV& v, JA& a) { return JV(v, a); }
// 64-bit numbers clamped so that TLC's 32-bit integers can hold them
inline int Clamp(long long v) { const long long m = 2000000000LL; return (int)(v > m ? m : (v < -m ? -m : v)); }
inline int Clamp(unsigned long long v) { return v > 2000000000ULL ? 2000000000 : (int)v; }
inline int Clamp(unsigned long v) { return v > 2000000000UL ? 2000000000 : (int)v; }

int Digest(const void* p, size_t n);              // 31-bit
JV DigestV(const void* p, size_t n, JA& a);       // [len,digest]
Bytes Gen(size_t len, unsigned seed);             // deterministic pseudo random bytes
libCZI::GUID GuidFrom(int g);
int GuidTo(const libCZI::GUID& g);                // inverse; <0 if not one of ours
// runs f; returns "ok" or the error category
std::string Guard(const std::function<void()>& f, std::string* detail = nullptr);

// in-memory file with write log and fault injection
struct MemFile : public libCZI::IInputOutputStream
{
    Bytes data;                                       // without the hole
    std::uint64_t holeAt = 0, hole = 0;               // a hole of zeros in the file, not stored
    void Put1(std::uint64_t off, const std::uint8_t* p, std::uint64_t n);
    std::mutex mtx;
    struct LogEntry { std::uint64_t off; Bytes d; };
    bool logWrites = false; std::vector<LogEntry> log;
    // faults: call number (counted from arm time, 0-based) -> kind: 1 throw, 2 short transfer, 3 throw a non-IO exception
    int writeCalls = 0, readCalls = 0; std::map<int, int> wfault, rfault; int faultsHit = 0;
    bool wfaultAllAfter = false; int wfaultAllFrom = 0;
    void Read(std::uint64_t offset, void* pv, std::uint64_t size, std::uint64_t* ptrBytesRead) override;
    void Write(std::uint64_t offset, const void* pv, std::uint64_t size, std::uint64_t* ptrBytesWritten) override;
};
JV CoordV(const libCZI::IDimCoordinate* c, JA& a);  // [[dim,val],...] canonical order
libCZI::CDimCoordinate CoordFrom(const JV& v);
