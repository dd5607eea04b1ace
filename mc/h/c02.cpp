// C02: the parsed tree has exactly the structure and contents of the text.
#include "dims.hpp"
#include "spaces.hpp"
#include "trees.hpp"
using ref::Node;

static const std::vector<std::string> kWs = { " ", "\t", "\n", "\r", "  ", "\r\n", " \t\n\r ", "                                 " };

static void check(const std::string& text, const Node& want)
{
    auto v = json::parse(text);
    mc::step();
    mc::validated();
    mc::state(text);
    if (!v) mc::fail("rejected " + mc::show(text));
    ref::expect(*v, want, "parse");
    mc::outcome(ref::dump(want));
    auto c = json::parsec(text);
    if (!c) mc::fail("rejected by the comment-tolerant parser " + mc::show(text));
    ref::expect_same(*c, want, "parsec");
}

static std::vector<std::string> numbers(unsigned max)
{ // every well-formed number spelling up to a length
    std::vector<std::string> r;
    auto sp = sp::words("n", sp::chars("0179-+.eE"), max);
    for (uint64_t i = 0; i < sp.count; ++i) {
        auto t = sp.text(i);
        auto p = ref::parse("[" + t + "]");
        if (p && p->a.size() == 1 && p->a[0].k == ref::Num) r.push_back(t);
    }
    return r;
}

static void setup(mc::Engine& e)
{
    const bool th = mc::thorough();
    static auto big = tr::flat(tr::trees(th ? 6 : 5, tr::small_leaves(), { "", "a", "b" }), true);
    static auto mid = tr::flat(tr::trees(th ? 5 : 4, tr::small_leaves(), { "", "a", "b\n" }), true);
    static auto low = tr::flat(tr::trees(th ? 4 : 3, tr::small_leaves(), { "k", "l" }), true);
    static auto nums = numbers(th ? 7 : 6);

    e.add("trees", big.size(), [](uint64_t i) { check(ref::dump(big[i]), big[i]); }, [](uint64_t i) { return ref::dump(big[i]); });

    e.add("whitespace-everywhere", mid.size() * kWs.size(),
          [](uint64_t i) {
              auto& n = mid[i / kWs.size()];
              auto& w = kWs[i % kWs.size()];
              std::vector<std::string> t;
              tr::toks(n, t);
              std::string s = w;
              for (auto& x : t) s += x + w;
              check(s, n);
          },
          [](uint64_t i) { return ref::dump(mid[i / kWs.size()]) + " with " + mc::show(kWs[i % kWs.size()]) + " everywhere"; });

    e.add("whitespace-at-one-gap", mid.size() * kWs.size(),
          [](uint64_t i) {
              auto& n = mid[i / kWs.size()];
              auto& w = kWs[i % kWs.size()];
              std::vector<std::string> t;
              tr::toks(n, t);
              for (size_t g = 0; g <= t.size(); ++g) {
                  std::string s;
                  for (size_t k = 0; k < t.size(); ++k) s += (k == g ? w : "") + t[k];
                  check(s + (g == t.size() ? w : ""), n);
              }
          },
          [](uint64_t i) { return ref::dump(mid[i / kWs.size()]) + " with " + mc::show(kWs[i % kWs.size()]) + " at one gap"; });

    // every assignment of nothing / one of two whitespace runs to every gap
    e.add("whitespace-all-combinations", low.size(),
          [](uint64_t i) {
              auto& n = low[i];
              std::vector<std::string> t;
              tr::toks(n, t);
              uint64_t c = mc::ipow(3, unsigned(std::min<size_t>(t.size() + 1, 9)));
              for (uint64_t x = 0; x < c; ++x) {
                  mc::Dec d(x);
                  std::string s;
                  for (auto& k : t) s += std::array<const char*, 3> { "", " ", "\n\t" }[d(3)] + k;
                  check(s + std::array<const char*, 3> { "", " ", "\n\t" }[d(3)], n);
              }
          },
          [](uint64_t i) { return ref::dump(low[i]); });

    e.add("numbers", nums.size() * 6,
          [](uint64_t i) {
              auto& s = nums[i / 6];
              Node n = ref::num(s), one = ref::num("7");
              switch (i % 6) {
              case 0: check("[" + s + "]", ref::arr({ n })); break;
              case 1: check("[" + s + ",7]", ref::arr({ n, one })); break;
              case 2: check("[7, " + s + " ]", ref::arr({ one, n })); break;
              case 3: check("{\"a\":" + s + "}", ref::obj({ { "a", n } })); break;
              case 4: check("{\"b\":" + s + ",\"a\":7}", ref::obj({ { "b", n }, { "a", one } })); break;
              case 5: check("[[" + s + "\n]]", ref::arr({ ref::arr({ n }) })); break;
              }
          },
          [](uint64_t i) { return nums[i / 6]; });

    // two and three numbers / strings next to each other keep their own text
    static const std::vector<Node> leaf = { ref::num("1"), ref::num("-0.5e-7"), ref::num("123456789012345678901234567890"), ref::str("x"), ref::str("0123456789abcdef"), ref::str("\n"),
                                            ref::boolean(true), ref::boolean(false), ref::null(), ref::arr(), ref::obj() };
    e.add("neighbours", mc::ipow(leaf.size(), 4) * 2,
          [](uint64_t i) {
              mc::Dec d(i);
              bool o = d(2);
              std::vector<Node> k;
              for (int j = 0; j < 4; ++j) k.push_back(leaf[d(leaf.size())]);
              Node n = o ? ref::obj({ { "a", k[0] }, { "b", k[1] }, { "c", ref::arr({ k[2] }) }, { "d", k[3] } }) : ref::arr({ k[0], k[1], ref::obj({ { "q", k[2] } }), k[3] });
              check(ref::dump(n), n);
          },
          [](uint64_t i) { return "#" + std::to_string(i); });

    // every short content of strings and keys, in every place and spelling
    static const std::vector<std::string> bits = { "a", "0", "\"", "\\", "/", "\n", "\t", std::string(1, '\0'), "\x1f", "\x7f", "\xc3\xa9", "\xf0\x9f\x98\x80", "\xff", " ", "u", "0123456789abcdef" };
    static const unsigned blen = th ? 4 : 3;
    static const auto content = [](uint64_t i) {
        unsigned len = 0;
        for (uint64_t c = 1; i >= c; c *= bits.size()) i -= c, ++len;
        std::string s;
        for (unsigned k = 0; k < len; ++k) s += bits[i % bits.size()], i /= bits.size();
        return s;
    };
    uint64_t contents = 0;
    for (unsigned k = 0; k <= blen; ++k) contents += mc::ipow(bits.size(), k);
    e.add("string-contents", contents,
          [](uint64_t i) {
              const std::string s = content(i);
              for (int how = 0; how < 3; ++how) { // as few escapes as possible, short ones, hexadecimal ones
                  std::string q = "\"";
                  for (char c : s) {
                      const unsigned char u = static_cast<unsigned char>(c);
                      char b[8];
                      snprintf(b, sizeof b, how == 1 ? "\\u%04x" : "\\u%04X", u);
                      const char* sh = u == '"' ? "\\\"" : u == '\\' ? "\\\\" : u == '/' && how == 1 ? "\\/" : u == '\n' ? "\\n" : u == '\t' ? "\\t" : nullptr;
                      if (u < 0x80 && how == 2) q += b;
                      else if (sh) q += sh;
                      else if (u < 0x20) q += b;
                      else q += c;
                  }
                  q += '"';
                  const Node n = ref::str(s);
                  check("[" + q + "]", ref::arr({ n }));
                  check("[[]," + q + "," + q + ",1]", ref::arr({ ref::arr(), n, n, ref::num("1") }));
                  check("{" + q + ":" + q + "}", ref::obj({ { s, n } }));
                  if (s != "m") check("{\"m\":" + q + "," + q + ":[" + q + "]}", ref::obj({ { "m", n }, { s, ref::arr({ n }) } }));
              }
          },
          [](uint64_t i) { return mc::show(content(i)); });

    // key order in the text does not matter; every permutation of five keys with distinct values
    static const std::vector<std::string> keys = { "", "a", "aa", "b", "z" };
    e.add("key-permutations", 120,
          [](uint64_t i) {
              std::vector<int> p = { 0, 1, 2, 3, 4 };
              for (uint64_t k = 0; k < i; ++k) std::next_permutation(p.begin(), p.end());
              std::string t = "{";
              Node n = ref::obj();
              for (int k = 0; k < 5; ++k) {
                  t += (k ? "," : "") + ("\"" + keys[p[k]] + "\":" + std::to_string(p[k]));
                  n.o[keys[p[k]]] = ref::num(std::to_string(p[k]));
              }
              check(t + "}", n);
          },
          [](uint64_t i) { return "permutation " + std::to_string(i); });

    // every size along each dimension, distinct contents at every place
    static const unsigned M = th ? 1200 : 300;
    e.add("sizes", M * 6,
          [](uint64_t i) {
              size_t n = i / 6;
              Node w = ref::arr();
              std::string t;
              switch (i % 6) {
              case 0:
                  t = "[";
                  for (size_t k = 0; k < n; ++k) {
                      t += (k ? "," : "") + std::to_string(k);
                      w.a.push_back(ref::num(std::to_string(k)));
                  }
                  t += "]";
                  break;
              case 1:
                  w = ref::obj();
                  t = "{";
                  for (size_t k = 0; k < n; ++k) {
                      size_t q = (k * 7919) % n; // not ascending
                      if (w.o.count(std::to_string(q))) continue;
                      t += (t.size() > 1 ? ",\"" : "\"") + std::to_string(q) + "\":[" + std::to_string(q) + "]";
                      w.o[std::to_string(q)] = ref::arr({ ref::num(std::to_string(q)) });
                  }
                  t += "}";
                  break;
              case 2:
                  for (size_t k = 0; k < n; ++k) w = ref::arr({ ref::num(std::to_string(k)), w, ref::str("e") });
                  t = ref::dump(w);
                  break;
              case 3:
                  w = ref::obj();
                  for (size_t k = 0; k < n; ++k) w = ref::obj({ { "a", ref::num(std::to_string(k)) }, { "m", w }, { "z", ref::null() } });
                  t = ref::dump(w);
                  break;
              case 4: {
                  std::string s, d;
                  for (size_t k = 0; k < n; ++k) s += char('!' + (k * 31) % 90);
                  w = ref::arr({ ref::str(s), ref::str("t") });
                  t = ref::dump(w);
                  break;
              }
              case 5: {
                  std::string d = "1";
                  for (size_t k = 0; k < n; ++k) d += char('0' + k % 10);
                  w = ref::arr({ ref::num(d), ref::num("-0." + d), ref::num("2E-" + d), ref::num("3") });
                  t = ref::dump(w);
                  break;
              }
              }
              check(t, w);
          },
          [](uint64_t i) { return "size " + std::to_string(i / 6) + " dimension " + std::to_string(i % 6); });
    dm::add_dims(e, "every-size", dm::reach(th), [](const dm::Dim& d, size_t n) {
        if (!d.jsonc) check(dm::text_of(d, n), d.make(n));
    });
}
MC_MAIN(setup)
