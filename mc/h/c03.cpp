// C03: string escapes decode to exactly the characters they denote.
#include "dims.hpp"
#include "papi.hpp"
#include "spaces.hpp"
using S = std::string;

static void check(const S& body, bool key)
{
    S t = key ? "{\"" + body + "\":0}" : "[\"" + body + "\"]";
    auto want = ref::parse(t);
    auto got = P(t);
    ref::check_parse(got, want, t);
    mc::state(t);
    mc::outcome(want ? ref::dump(*want) : "reject");
}
static S hex4(unsigned u, bool up)
{
    char b[8];
    snprintf(b, sizeof b, up ? "\\u%04X" : "\\u%04x", u);
    return b;
}
// Expected bytes computed independently of the reference parser as well.
static S utf8(unsigned long cp)
{
    S r;
    ref::Reader::utf8(r, cp);
    return r;
}
static void expect_string(const S& body, const S& want, bool key)
{
    S t = key ? "{\"" + body + "\":0}" : "[\"" + body + "\"]";
    auto v = P(t);
    mc::step();
    mc::validated();
    if (!v) mc::fail("rejected " + mc::show(t));
    S got = key ? v->as_object().begin()->first : v->as_array().at(0).as_string();
    if (got != want) mc::fail("decoded " + mc::show(t) + " to " + mc::show(got) + ", expected " + mc::show(want));
    mc::state(body, key);
}
static void expect_reject(const S& body, bool key)
{
    S t = key ? "{\"" + body + "\":0}" : "[\"" + body + "\"]";
    mc::step();
    mc::validated();
    if (P(t)) mc::fail("accepted " + mc::show(t));
    mc::state(body, key);
}

static const unsigned kUnits[] = { 0, 0x22, 0x41, 0x5c, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xd801, 0xdbff, 0xdc00, 0xdc01, 0xdfff, 0xe000, 0xffff };
static const char* kRaw[] = { "", "x", "\\n", "\\\\", "0123456789abcdef", "u", "ud800", "\xed\xa0\x80" };

static void setup(mc::Engine& e)
{
    const bool th = mc::thorough();
    e.add("units", 65536 * 4,
          [](uint64_t i) {
              unsigned u = i / 4;
              bool up = i & 1, key = i & 2;
              S h = hex4(u, up);
              bool sur = u >= 0xd800 && u <= 0xdfff;
              static const char* pre[] = { "", "x", "0123456789abcdefghijklmnopqrstu" };
              for (auto p : pre)
                  for (auto q : pre)
                      if (sur) expect_reject(p + h + q, key);
                      else expect_string(p + h + q, p + utf8(u) + q, key);
          },
          [](uint64_t i) { return hex4(i / 4, i & 1) + (i & 2 ? " key" : " value"); });

    // every spelling of every unit: each digit in either case
    e.add("spellings", 22 * 22 * 22 * 22,
          [](uint64_t i) {
              mc::Dec d(i);
              S h = "\\u";
              unsigned u = 0;
              for (int k = 0; k < 4; ++k) {
                  const auto x = d(22);
                  h += "0123456789abcdefABCDEF"[x];
                  u = 16 * u + unsigned(x < 16 ? x : x - 6);
              }
              const bool key = u & 1;
              if (u >= 0xd800 && u <= 0xdbff) {
                  expect_string(h + "\\uDc0f", utf8(0x10000 + (u - 0xd800) * 1024ul + 0xf), key);
                  expect_reject(h, key);
              }
              else if (u >= 0xdc00 && u <= 0xdfff) {
                  expect_string("\\udB0a" + h, utf8(0x10000 + 0x30a * 1024ul + (u - 0xdc00)), key);
                  expect_reject(h, key);
              }
              else expect_string(h, utf8(u), key);
          },
          [](uint64_t i) {
              mc::Dec d(i);
              S h = "\\u";
              for (int k = 0; k < 4; ++k) h += "0123456789abcdefABCDEF"[d(22)];
              return h;
          });

    // every byte in place of every digit
    e.add("digits", 256 * 4 * 4,
          [](uint64_t i) {
              mc::Dec d(i);
              const char c = char(d(256));
              const auto at = d(4);
              static const char* const base[] = { "\\u0041", "\\uFFFD", "\\ud83d", "\\uDE00" };
              const auto b = d(4);
              S h = base[b];
              h[2 + at] = c;
              const S pre = b == 3 ? "\\ud83d" : "", post = b == 2 ? "\\ude00" : "";
              for (int key = 0; key < 2; ++key) {
                  check(pre + h + post, key);
                  check("0123456789abcdef" + pre + h + post + "0123456789abcdef", key);
              }
          });

    e.add("pairs", 1024 * 1024,
          [](uint64_t i) {
              unsigned hi = 0xd800 + i / 1024, lo = 0xdc00 + i % 1024;
              S h = hex4(hi, i & 1) + hex4(lo, i & 2);
              unsigned long cp = 0x10000 + (hi - 0xd800) * 1024ul + (lo - 0xdc00);
              expect_string(h, utf8(cp), false);
              expect_string("0123456789abcde" + h + "x", "0123456789abcde" + utf8(cp) + "x", true);
          },
          [](uint64_t i) { return hex4(0xd800 + i / 1024, 0) + hex4(0xdc00 + i % 1024, 0); });

    // every high surrogate followed by every kind of non-low, and the reverse
    e.add("half-pairs", 2048 * 17,
          [](uint64_t i) {
              unsigned s = 0xd800 + i / 17, o = kUnits[i % 17];
              for (int key = 0; key < 2; ++key) {
                  check(hex4(s, 0) + hex4(o, 0), key);
                  check(hex4(o, 1) + hex4(s, 1), key);
              }
          },
          [](uint64_t i) { return hex4(0xd800 + i / 17, 0) + " with " + hex4(kUnits[i % 17], 0); });

    // all sequences of units with raw text in between
    e.add("unit-sequences", mc::ipow(17, 3) * 64,
          [](uint64_t i) {
              mc::Dec d(i);
              S b;
              for (int k = 0; k < 3; ++k) {
                  b += hex4(kUnits[d(17)], k & 1);
                  if (k < 2) b += kRaw[d(8)];
              }
              check(b, i & 1);
          },
          [](uint64_t i) {
              mc::Dec d(i);
              S b;
              for (int k = 0; k < 3; ++k) {
                  b += hex4(kUnits[d(17)], k & 1);
                  if (k < 2) b += kRaw[d(8)];
              }
              return mc::show(b);
          });
    if (th)
        e.add("unit-sequences-4", mc::ipow(17, 4) * 512, [](uint64_t i) {
            mc::Dec d(i);
            S b;
            for (int k = 0; k < 4; ++k) {
                b += hex4(kUnits[d(17)], k & 1);
                if (k < 3) b += kRaw[d(8)];
            }
            check(b, i & 1);
        });

    // offset x gap x tail, around every block width
    static const unsigned O = th ? 70 : 36, G = th ? 140 : 70;
    e.add("gaps", uint64_t(O) * G * 12 * 2,
          [](uint64_t i) {
              mc::Dec d(i);
              bool key = d(2);
              unsigned o = d(O), g = d(G), w = d(12);
              static const char* first[] = { "\\ud83d", "\\ude00", "\\u0041", "\\ud83d\\ude00" };
              static const char* second[] = { "\\ude00", "\\ud83d", "\\n" };
              for (unsigned tail : { 0u, 1u, 15u, 16u, 31u, 40u }) check(S(o, 'p') + first[w % 4] + S(g, 'm') + second[w / 4] + S(tail, 'q'), key);
          },
          [](uint64_t i) { return "offset/gap case " + std::to_string(i); });

    // one escape, or two with a gap, at every distance from the start, from each other and from the end
    dm::add_sizes(e, "distances", dm::ladder(th ? 2200 : 560, th ? 1u << 18 : 1u << 15), [](size_t n) {
        static const char* E[] = { "\\n", "\\\\", "\\\"", "\\/", "\\u0041", "\\u00e9", "\\u20ac", "\\ud83d\\ude00", "\\ud83d", "\\ude00", "\\u00", "\\x", "\\" };
        for (bool key : { false, true })
            for (auto a : E) {
                for (size_t t : { 0, 1, 40 }) {
                    check(S(n, 'p') + a + S(t, 'q'), key);
                    check(S(t, 'p') + a + S(n, 'q'), key);
                }
                for (auto b : { "\\n", "\\\\", "\\u20ac", "\\ude00", "\\ud83d" }) check(a + S(n, 'm') + b, key);
            }
        for (const char* u : { "\\u0041", "\\u20ac", "\\ud83d\\ude00", "\\ud83d", "\\\\", "\\n" }) {
            S b;
            for (size_t i = 0; i < std::min<size_t>(n, 20000); ++i) b += u;
            for (const char* tail : { "", "\\ude00", "x", "\\" }) check(b + tail, n & 1);
        }
    });

    e.add("after-backslash", 256 * 72 * 2,
          [](uint64_t i) {
              mc::Dec d(i);
              bool key = d(2);
              char c = char(d(256));
              unsigned o = d(72);
              for (unsigned tail : { 0u, 3u, 16u, 33u }) {
                  check(S(o, 'p') + "\\" + c + S(tail, 'q'), key);
                  check(S(o, 'p') + "\\ud800\\" + c + "dc00" + S(tail, 'q'), key);
              }
          },
          [](uint64_t i) { return "backslash + byte " + std::to_string((i / 2) % 256) + " at offset " + std::to_string(i / 512); });

    e.add("hex-digits", 4 * 256 * 256,
          [](uint64_t i) {
              mc::Dec d(i);
              unsigned p = d(4);
              char a = char(d(256)), b = char(d(256));
              S h = "\\u00e9";
              h[2 + p] = a;
              h[2 + (p + 1) % 4] = b;
              check(h, i & 1);
              check(h + "0123456789abcdef", i & 1);
          },
          [](uint64_t i) { return "hex digit bytes case " + std::to_string(i); });
    e.add("hex-digits-low", 4 * 256,
          [](uint64_t i) {
              S h = "\\ud83d\\ude00";
              h[8 + i % 4] = char(i / 4);
              check(h, false);
              check(h, true);
              h = "\\ud83d\\ude00";
              h[2 + i % 4] = char(i / 4);
              check(h, false);
          },
          [](uint64_t i) { return "low half digit case " + std::to_string(i); });

    for (auto& s : { sp::words("string-chars", sp::chars("\\u\"0dD8cCaAfn/x"), th ? 6 : 5, "[\"", "\"]"),
                     sp::words("escape-words", { "\\ud83d", "\\ude00", "\\u0041", "\\n", "\\\\", "\\", "u", "\"", "d83d", "x", "\xf0\x9f\x98\x80", "0123456789abcdef" }, th ? 6 : 5, "[\"", "\"]"),
                     sp::words("escape-words-key", { "\\uD83D", "\\uDE00", "\\u0000", "\\t", "\\/", "\\", "u", "x", "0123456789abcdef0" }, th ? 6 : 5, "{\"", "\":1}"),
                     sp::words("escape-truncated", { "\\ud83d", "\\ude00", "\\u00", "\\", "x", "\"" }, 6, "[\"", "") })
        e.add(
            s.name, s.count,
            [s](uint64_t i) {
                auto t = s.text(i);
                ref::check_parse(P(t), ref::parse(t), t);
                mc::state(t);
            },
            [s](uint64_t i) { return mc::show(s.text(i)); });

    // long strings with k escapes spread at a stride: nothing is lost between them
    e.add("strides", 60 * 8 * 6,
          [](uint64_t i) {
              mc::Dec d(i);
              unsigned stride = d(60) + 1, esc = d(8), n = 1 + d(6) * 9;
              static const char* E[] = { "\\n", "\\\"", "\\\\", "\\/", "\\u0041", "\\u00e9", "\\u20ac", "\\ud83d\\ude00" };
              static const char* D[] = { "\n", "\"", "\\", "/", "A", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80" };
              S b, w;
              for (unsigned k = 0; k < n; ++k) {
                  for (unsigned j = 0; j < stride; ++j) {
                      b += char('a' + (k + j) % 26);
                      w += char('a' + (k + j) % 26);
                  }
                  b += E[esc];
                  w += D[esc];
              }
              expect_string(b, w, false);
              expect_string(b, w, true);
          },
          [](uint64_t i) { return "stride case " + std::to_string(i); });
}
MC_MAIN(setup)
