// What a piece of the real code costs: basic blocks executed (compiler instrumentation of the harness' unit, which
// holds the whole library and the standard templates it uses), bytes moved by the C string functions, memory requested.
#pragma once
#include "engine.hpp"
#include <cstdint>

namespace cost
{
struct Cost
{
    uint64_t steps, moved, bytes;
};
extern "C" Cost cost_now; // kept by cost_rt.cpp

template <typename F>
inline Cost of(F&& f)
{
    const Cost a = cost_now;
    f();
    const Cost b = cost_now;
    return { b.steps - a.steps, b.moved - a.moved, b.bytes - a.bytes };
}
inline Cost operator+(Cost a, const Cost& b) { return { a.steps + b.steps, a.moved + b.moved, a.bytes + b.bytes }; }

constexpr double kRoom = 4; // a logarithmic factor and uneven growth of buffers; quadratic growth is far beyond it
constexpr uint64_t kSlack = 2048;

// `big` was measured on something `ratio` times as large as `small`.
inline void grows(const Cost& small, const Cost& big, double ratio, const std::string& what, uint64_t slack = kSlack)
{
    mc::step();
    mc::statei(small.steps * 1000003 + small.moved, big.steps); // a state is a cost profile
    const uint64_t s[3] = { small.steps, small.moved, small.bytes }, b[3] = { big.steps, big.moved, big.bytes };
    static const char* const unit[3] = { "steps", "bytes moved", "bytes requested" };
    for (int i = 0; i < 3; ++i)
        if (double(b[i]) > kRoom * ratio * double(s[i]) + ratio * double(slack))
            mc::fail(what + ": " + std::to_string(b[i]) + " " + unit[i] + ", but " + std::to_string(s[i]) + " at " + std::to_string(1 / ratio).substr(0, 8) + " of the size");
}
} // namespace cost
