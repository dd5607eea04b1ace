// C09: every byte string is escaped correctly, wherever it occurs.
#include "dims.hpp"
#include "trees.hpp"
#include "spaces.hpp"
using ref::Node;
using S = std::string;

static S Q(const S& s)
{
    S q;
    ref::quote(q, s);
    return q;
}
// Independent scan of a JSON string literal: quotes, no raw control bytes, only legal escapes.
static void legal(const S& q)
{
    auto bad = [&](const char* w) { mc::fail(S(w) + " in " + mc::show(q)); };
    if (q.size() < 2 || q.front() != '"' || q.back() != '"') bad("missing quotes");
    for (size_t i = 1; i + 1 < q.size(); ++i) {
        unsigned char c = q[i];
        if (c < 0x20) bad("raw control character");
        if (c == '"') bad("unescaped quote");
        if (c == '\\') {
            if (++i + 1 >= q.size()) bad("dangling backslash");
            if (!strchr("\"\\/bfnrtu", q[i])) bad("illegal escape");
            if (q[i] == 'u') {
                for (int k = 0; k < 4; ++k)
                    if (++i + 1 >= q.size() || !isxdigit((unsigned char)q[i])) bad("illegal unicode escape");
            }
        }
    }
}
static void check(const S& s, bool more)
{
    auto q = Q(s);
    mc::state(s);
    mc::step();
    mc::validated();
    S got = json::value(s).to_string();
    legal(got);
    // the escape spelling is free; the decoded string and the untouched bytes are not
    auto back = ref::parse("[" + got + "]");
    if (!back || back->a.size() != 1 || back->a[0] != ref::str(s)) mc::fail("the literal " + mc::show(got) + " does not denote " + mc::show(s));
    for (unsigned char c : s)
        if (c >= 0x20 && c != '"' && c != '\\' && got.find(char(c)) == S::npos) mc::fail("byte " + std::to_string(c) + " was changed in " + mc::show(got));
    size_t plain = 0, esc = 0;
    for (unsigned char c : s) (c >= 0x20 && c != '"' && c != '\\' ? plain : esc)++;
    if (got.size() < plain + 2 * esc + 2 || got.size() > plain + 6 * esc + 2) mc::fail("bytes that need no escape were escaped: " + mc::show(got));
    mc::outcome(got);
    if (!more) {
        auto v = json::parse("[" + got + "]");
        if (!v || v->at(0).as_string() != s) mc::fail("does not decode to the same bytes: " + mc::show(got));
        return;
    }
    json::value key { { s, 1 } };
    json::value nested = json::array { json::object { { s, json::array { s, s + "x", "x" + s } } }, s };
    Node nn = ref::arr({ ref::obj({ { s, ref::arr({ ref::str(s), ref::str(s + "x"), ref::str("x" + s) }) } }), ref::str(s) });
    mc::step(6);
    auto one = [&](const S& t, const Node& n) {
        auto m = ref::parse(t);
        if (!m || *m != n) mc::fail("text " + mc::show(t) + " does not denote " + mc::show(ref::dump(n)));
        auto v = json::parse(t);
        if (!v) mc::fail("own text rejected: " + mc::show(t));
        auto d = ref::diff(*v, n);
        if (!d.empty()) mc::fail(d + " from " + mc::show(t));
    };
    Node kn = ref::obj({ { s, ref::num("1") } });
    one(key.to_string(), kn);
    one(key.format(), kn);
    one(key.as_object().to_string(), kn);
    one(nested.to_string(), nn);
    one(nested.format(0), nn);
    one(nested.format(3), nn);
    if (json::value(s).format() != got || json::value(s).dumps() != got || json::value(s).dumps(2) != got) mc::fail("formatted string literal differs from the compact one");
    if (key.to_string() != "{" + got + ":1}") mc::fail("a key is quoted differently from a value: " + mc::show(key.to_string()));
}

static void setup(mc::Engine& e)
{
    const bool th = mc::thorough();
    e.add("length-0-1", 257, [](uint64_t i) { check(i ? S(1, char(i - 1)) : S(), true); }, [](uint64_t i) { return i ? "byte " + std::to_string(i - 1) : S("empty"); });
    e.add("length-2", 65536, [](uint64_t i) { check(S { char(i >> 8), char(i) }, true); }, [](uint64_t i) { return mc::show(S { char(i >> 8), char(i) }); });
    if (th) e.add("length-3", 1 << 24, [](uint64_t i) { check(S { char(i >> 16), char(i >> 8), char(i) }, false); }, [](uint64_t i) { return mc::show(S { char(i >> 16), char(i >> 8), char(i) }); });
    static const S alpha("\0\1\x08\t\n\x0b\x0c\r\x0e\x1b\x1f \"/\\ux0\x7f\x80\xc3\xff", 22);
    static const unsigned L = th ? 5 : 4;
    e.add("words", mc::ipow(22, L),
          [](uint64_t i) {
              mc::Dec d(i);
              S s;
              for (unsigned k = 0; k < L; ++k) s += alpha[d(22)];
              check(s, false);
          },
          [](uint64_t i) {
              mc::Dec d(i);
              S s;
              for (unsigned k = 0; k < L; ++k) s += alpha[d(22)];
              return mc::show(s);
          });
    // every byte at every position of every run length: a vectorised escaper has its seams here
    static const unsigned N = th ? 140 : 72;
    e.add("byte-in-run", uint64_t(N) * 256,
          [](uint64_t i) {
              unsigned len = i / 256 + 1;
              for (unsigned p = 0; p < len; ++p) {
                  S s(len, 'a');
                  s[p] = char(i % 256);
                  check(s, len % 16 < 2 && p % 8 == 0);
              }
          },
          [](uint64_t i) { return "byte " + std::to_string(i % 256) + " in runs of " + std::to_string(i / 256 + 1); });
    static const S esc("\0\1\x1f\"\\\n\xff\x80", 8);
    e.add("two-in-run", uint64_t(N) * 64,
          [](uint64_t i) {
              unsigned len = i / 64 + 1;
              for (unsigned p = 0; p < len; ++p)
                  for (unsigned q = 0; q < len; q += (len > 40 ? 3 : 1)) {
                      S s(len, 'a');
                      s[p] = esc[i % 8];
                      s[q] = esc[i / 8 % 8];
                      check(s, false);
                  }
          },
          [](uint64_t i) { return "two special bytes in runs of " + std::to_string(i / 64 + 1); });
    e.add("repeated", 256 * 600,
          [](uint64_t i) { check(S(i / 256 * (i / 256 > 500 ? 97 : 1), char(i % 256)), i / 256 % 32 == 31); },
          [](uint64_t i) { return "byte " + std::to_string(i % 256) + " repeated " + std::to_string(i / 256); });
    // strings obtained by parsing escapes are escaped again
    e.add("every-unit", 65536,
          [](uint64_t i) {
              if (i >= 0xd800 && i < 0xe000) return;
              S s;
              ref::Reader::utf8(s, i);
              check(s, true);
              check("ab" + s + "\n", false);
          },
          [](uint64_t i) { return "U+" + std::to_string(i); });
    // one byte that needs an escape, or none, at the start, middle and end of strings of every size
    dm::add_sizes(e, "every-size", dm::ladder(th ? 2200 : 1100, th ? 1u << 22 : 1u << 18), [](size_t n) {
        for (char c : S("\0\x01\x1f\"\\\n\x7f\x80" "a", 9))
            for (size_t p : { size_t(0), n / 2, n }) {
                S s(n, 'q');
                s.insert(p, 1, c);
                check(s, n % 16 < 3 && (n < 5000 || c == 1));
            }
        check(S(n, '\x02'), false);
        check(S(n, '"'), false);
    });
}
MC_MAIN(setup)
