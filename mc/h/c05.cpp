// C05: the result is a function of the character sequence alone.
#include "dims.hpp"
#include "papi.hpp"
#include "spaces.hpp"
#include <deque>
#if __cplusplus >= 202002L
#include <span>
#endif
using S = std::string;

static void same(const std::optional<json::value>& got, const std::optional<ref::Node>& want, const S& t, const char* how)
{
    mc::step();
    mc::validated();
    if (bool(got) != bool(want)) mc::fail(S(how) + (got ? ": accepted " : ": rejected ") + mc::show(t));
    if (got) {
        auto d = ref::diff(*got, *want);
        if (!d.empty()) mc::fail(S(how) + ": " + d + " for " + mc::show(t));
    }
}

template <typename T>
static void container(const S& t, const std::optional<ref::Node>& s, const std::optional<ref::Node>& c, const char* how)
{
    T x(t.begin(), t.end());
    same(P(x), s, t, how);
    same(PC(x), c, t, how);
}

static void buffers(const S& t)
{
    auto s = ref::parse(t), c = ref::parse(t, true);
    mc::state(t);
    mc::outcome(s ? ref::dump(*s) : "reject");
    container<S>(t, s, c, "std::string");
    container<std::vector<char>>(t, s, c, "vector<char>");
    container<std::vector<unsigned char>>(t, s, c, "vector<unsigned char>");
    container<std::vector<signed char>>(t, s, c, "vector<signed char>");
    container<std::deque<char>>(t, s, c, "deque<char>");
#if __cplusplus >= 202002L
    container<std::vector<char8_t>>(t, s, c, "vector<char8_t>");
    container<std::u8string>(t, s, c, "u8string");
#endif
    if (t.find('\0') == S::npos) {
        same(json::parse(t.c_str()), s, t, "C string");
        same(json::parsec(t.c_str()), c, t, "C string");
    }
    // inside a larger buffer, at several alignments, with hostile neighbours
    static const S around[] = { S(64, '"'), S(64, '\\'), S(64, '\0'), S(64, 'x'), S(64, ']') , S(64, '1') };
    alignas(64) static char buf[1 << 20];
    if (t.size() + 200 > sizeof buf) return;
    for (unsigned a : { 0u, 1u, 7u, 15u, 17u, 31u }) {
        const S& ar = around[a % 6];
        memcpy(buf + a, ar.data(), 64);
        memcpy(buf + a + 64, t.data(), t.size());
        memcpy(buf + a + 64 + t.size(), ar.data(), 64);
        std::string_view v(buf + a + 64, t.size());
        same(P(v), s, t, "string_view in a larger buffer");
        same(PC(v), c, t, "string_view in a larger buffer");
    }
}

static void setup(mc::Engine& e)
{
    const bool th = mc::thorough();
    auto add = [&](sp::Space s) { e.add(s.name, s.count, [s](uint64_t i) { buffers(s.text(i)); }, [s](uint64_t i) { return mc::show(s.text(i)); }); };
    add(sp::edits("edits", sp::docs()));
    add(sp::edits("c-edits", sp::jsonc_docs()));
    add(sp::string_bytes("string-bytes", th ? 140 : 40, false));
    add(sp::string_bytes("key-bytes", th ? 70 : 20, true));
    add(sp::escape_at("escape-at", th ? 70 : 34, false));
    add(sp::escape_pairs("escape-pairs", th ? 20 : 4, th ? 70 : 35, th ? 20 : 2));
    add(sp::words("tokens", sp::tokens(), th ? 6 : 4));
    add(sp::words("string-chars", sp::chars("\\u\"0dD8cn/x"), th ? 5 : 4, "[\"0123456789abcde", "\"]"));
    add(sp::words("blocks", { "0123456789abcdef", "01234567", "0123", "x", "\"", "\\n", "\\ud83d\\ude00", "\xe4\xbd\xa0", "\x1f", "\x7f", "\x80", "\xff" }, th ? 6 : 4, "[\"", "\"]"));
    add(sp::words("number-chars", sp::chars("05-+.eE"), 5, "[", "]"));

    // every pair of special bytes at every pair of positions in one block-sized window
    static const S sp = S("\"\\\x1f \x00\x7f\x80\xff!", 9);
    static const unsigned W = th ? 66 : 34;
    auto gen = [](uint64_t i) {
        mc::Dec d(i);
        char a = sp[d(9)], b = sp[d(9)];
        unsigned p = d(W), q = d(W);
        S s(W, 'z');
        s[p] = a;
        s[q] = b;
        return "[\"" + s + "\"]";
    };
    e.add("special-pairs", 81ull * W * W, [gen](uint64_t i) {
        S t = gen(i);
        auto s = ref::parse(t);
        mc::state(t);
        same(P(t), s, t, "std::string");
        same(P(std::deque<char>(t.begin(), t.end())), s, t, "deque<char>");
    }, [gen](uint64_t i) { return mc::show(gen(i)); });

    // every alignment 0..63 x every length x every byte before and after
    static const unsigned L = th ? 100 : 50;
    e.add("alignments", 64ull * L * 3,
          [](uint64_t i) {
              mc::Dec d(i);
              unsigned al = d(64), n = d(L), k = d(3);
              S t = k == 0 ? "[\"" + S(n, 'a') + "\"]" : k == 1 ? "{\"" + S(n, 'k') + "\\u0041\":\"" + S(n, 'v') + "\"}" : "[\"" + S(n, 'a');
              auto want = ref::parse(t);
              alignas(64) static char buf[1024];
              for (int fill = 0; fill < 256; fill += (fill < 0x30 || fill == 0x22 || fill == 0x5b) ? 1 : 13) {
                  memset(buf, fill, sizeof buf);
                  memcpy(buf + 64 + al, t.data(), t.size());
                  same(P(std::string_view(buf + 64 + al, t.size())), want, t, "string_view");
              }
          },
          [](uint64_t i) { return "alignment " + std::to_string(i % 64) + " length " + std::to_string(i / 64 % L); });

    // deque nodes: the text starts at every offset of a node
    e.add("deque-offsets", 530ull * 3,
          [](uint64_t i) {
              unsigned off = i / 3, k = i % 3;
              S t = k == 0 ? "[\"" + S(600, 'a') + "\\n" + S(40, 'b') + "\"]" : k == 1 ? "{\"" + S(33, 'k') + "\":[1,2.5e3,true,\"" + S(500, 'z') + "\"]}" : S(100, ' ') + "[" + S(700, '9') + "]";
              std::deque<char> q(off, 'x');
              q.insert(q.end(), t.begin(), t.end());
              q.erase(q.begin(), q.begin() + off);
              same(P(q), ref::parse(t), t, "deque<char>");
          },
          [](uint64_t i) { return "deque offset " + std::to_string(i / 3); });
    dm::Reach r = dm::reach(th);
    if (!th) r = { 140, 1u << 13, 270, 1u << 17, 70, 1u << 9 };
    dm::add_dims(e, "every-size", r, [](const dm::Dim& d, size_t n) {
        S t = dm::text_of(d, n);
        buffers(t);
        buffers(t.substr(0, t.size() - 1));
        if (n > 4) {
            t.insert(t.size() - 2, 1, '\x01');
            buffers(t);
        }
    });
}
MC_MAIN(setup)
