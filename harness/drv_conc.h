// Running operations from several threads and recording invocation / response order.
#pragma once
#include "drv.h"
#include <atomic>
#include <thread>
struct Conc
{
    std::atomic<int> clock{ 0 }, ready{ 0 };
    struct Rec { int t0 = 0, t1 = 0; };
    static void Spin(unsigned n) { for (volatile unsigned i = 0; i < n; ++i) {} }
    // bodies[t] is called in thread t with a function run(f) that executes f between two clock ticks
    void Run(size_t n, const std::function<void(size_t)>& body)
    {
        std::vector<std::thread> th; ready = 0;
        for (size_t t = 0; t < n; ++t) th.emplace_back([&, t] { ++ready; while (ready.load() < (int)n) std::this_thread::yield(); body(t); });
        for (auto& x : th) x.join();
    }
    Rec Time(const std::function<void()>& f) { Rec r; r.t0 = clock++; f(); r.t1 = clock++; return r; }
};
inline unsigned Rnd(unsigned& s) { s = s * 1664525u + 1013904223u; return s >> 8; }
inline void Noise(unsigned& s, int level) { unsigned k = Rnd(s) % 16; if (!level) return; if (k == 0) std::this_thread::sleep_for(std::chrono::microseconds(Rnd(s) % (20u * level))); else if (k < 5) std::this_thread::yield(); else if (k < 9) Conc::Spin(Rnd(s) % (200u * level)); }
