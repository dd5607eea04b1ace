// C07: the compact text is valid JSON, minimal, complete, ordered, and parses back to an equal value.
#include "dims.hpp"
#include "spaces.hpp"
#include "trees.hpp"
#include "build.hpp"
#include <cmath>
using ref::Node;

static void check_value(const json::value& v, const Node& n)
{
    std::string want = ref::dump(n);
    mc::step(4);
    mc::validated();
    mc::state(want);
    std::string got = v.to_string();
    if (got != want) mc::fail("compact text " + mc::show(got) + ", expected " + mc::show(want));
    if (v.dumps() != want || v.dumps(std::nullopt) != want) mc::fail("dumps() differs from to_string(): " + mc::show(v.dumps()));
    if (n.k == ref::Arr && (v.as_array().to_string() != want || v.as_array().dumps() != want)) mc::fail("array text differs");
    if (n.k == ref::Obj && (v.as_object().to_string() != want || v.as_object().dumps() != want)) mc::fail("object text differs");
    auto r = json::parse(got);
    auto m = ref::parse(got);
    if (!m || *m != n) mc::fail("the text is not valid JSON for this tree: " + mc::show(got));
    if (!r) mc::fail("own output rejected: " + mc::show(got));
    if (!(*r == v) || !(v == *r) || *r != v) mc::fail("reparsed value differs: " + mc::show(got));
    auto d = ref::diff(*r, n);
    if (!d.empty()) mc::fail(d + " after reparsing " + mc::show(got));
    if (r->to_string() != got) mc::fail("text changes on the second round: " + mc::show(r->to_string()));
    auto c = json::parsec(got);
    if (!c || *c != v) mc::fail("comment-tolerant parser reads own output differently: " + mc::show(got));
    mc::outcome(got);
}

static void setup(mc::Engine& e)
{
    const bool th = mc::thorough();
    static auto big = tr::flat(tr::trees(th ? 6 : 5, tr::small_leaves(), { "", "a", "b" }), true);
    static auto mid = tr::flat(tr::trees(th ? 5 : 4, tr::more_leaves(), { "", "a", "\"\n\x01" }), true);
    static auto low = tr::flat(tr::trees(th ? 5 : 4, tr::small_leaves(), { "", "a", std::string("a\0", 2), "b" }), true);

    e.add("trees", big.size(), [](uint64_t i) { check_value(ref::build(big[i]), big[i]); }, [](uint64_t i) { return ref::dump(big[i]); });
    e.add("trees-more-leaves", mid.size(), [](uint64_t i) { check_value(ref::build(mid[i]), mid[i]); }, [](uint64_t i) { return ref::dump(mid[i]); });
    e.add(
        "routes", low.size() * bd::kRoutes, [](uint64_t i) { check_value(bd::by(i % bd::kRoutes, low[i / bd::kRoutes]), low[i / bd::kRoutes]); },
        [](uint64_t i) { return "route " + std::to_string(i % bd::kRoutes) + " " + ref::dump(low[i / bd::kRoutes]); });

    // parsed from text
    for (auto& s : sp::core(false)) {
        if (!th && s.name != "mixed-chars-array" && s.name != "string-chars" && s.name != "number-chars" && s.name != "edits" && s.name != "duplicate-keys" && s.name != "sizes"
            && s.name != "escape-at" && s.name != "string-bytes" && s.name != "key-bytes" && s.name != "tokens-in-object")
            continue;
        e.add(
            "parsed-" + s.name, s.count,
            [s](uint64_t i) {
                auto t = s.text(i);
                auto v = json::parse(t);
                auto n = ref::parse(t);
                if (!v || !n) return;
                check_value(*v, *n);
            },
            [s](uint64_t i) { return mc::show(s.text(i)); });
    }

    // every pair of keys of at most one byte and chosen longer ones: order and presence
    static std::vector<std::string> keys;
    keys.push_back("");
    for (int b = 0; b < 256; ++b) keys.push_back(std::string(1, char(b)));
    for (auto k : { "ab", "a\x7f", "a\x80", "a\xff", "\xc3\xa9", "0123456789abcdef", "0123456789abcdeg", "0123456789abcdef0" }) keys.push_back(k);
    keys.push_back(std::string("a\0", 2));
    keys.push_back(std::string("a\0b", 3));
    keys.push_back(std::string("\0\0", 2));
    e.add("key-pairs", keys.size() * keys.size(),
          [](uint64_t i) {
              auto &a = keys[i / keys.size()], &b = keys[i % keys.size()];
              Node n = ref::obj();
              n.o[a] = ref::num("1");
              n.o[b] = ref::num("2");
              json::object o;
              o.emplace(a, 1);
              o.emplace(b, 2);
              check_value(o, n);
          },
          [](uint64_t i) { return mc::show(keys[i / keys.size()]) + "," + mc::show(keys[i % keys.size()]); });

    // numbers made from arithmetic types next to each other
    static const std::vector<std::pair<json::value, std::string>> nums = { { json::value(0), "0" }, { json::value(-1), "-1" }, { json::value(4294967295u), "4294967295" },
                                                                           { json::value(-9223372036854775807ll - 1), "-9223372036854775808" },
                                                                           { json::value(18446744073709551615ull), "18446744073709551615" } };
    e.add("numbers", mc::ipow(nums.size(), 4),
          [](uint64_t i) {
              mc::Dec d(i);
              json::array a;
              Node n = ref::arr();
              for (int k = 0; k < 4; ++k) {
                  auto& x = nums[d(nums.size())];
                  a.push_back(x.first);
                  n.a.push_back(ref::num(x.second));
              }
              check_value(a, n);
          },
          [](uint64_t i) { return "#" + std::to_string(i); });
    e.add("floats", 2000,
          [](uint64_t i) {
              static const double m[] = { 0.0, -0.0, 1.0, 1.5, -2.25, 1e15, 1e-7, 123456.789, 1e300, 5e-324 };
              double x = m[i % 10];
              int s = int(i / 10) % 200 - 100;
              x = std::abs(x) < 1e100 ? x * std::pow(10.0, s / 10) : x;
              for (auto v : { json::value(json::array { x }), json::value(json::array { float(std::abs(x) < 1e30 ? x : 1) }), json::value(json::array { (long double)x }) }) {
                  auto t = v.to_string();
                  auto n = ref::parse(t);
                  if (!n) mc::fail("not valid JSON: " + mc::show(t));
                  check_value(v, *n);
              }
          },
          [](uint64_t i) { return "#" + std::to_string(i); });

    static const unsigned W = th ? 4100 : 600;
    e.add("wide-and-deep", W * 6,
          [](uint64_t i) {
              mc::Dec d(i);
              unsigned k = d(6), n = d(W);
              Node x = ref::arr();
              switch (k) {
              case 0: x.a.assign(n, ref::num("1")); break;
              case 1: x.a.assign(n, ref::str("ab")); break;
              case 2:
                  x = ref::obj();
                  for (unsigned j = 0; j < n; ++j) x.o["k" + std::to_string(j * 7919 % n)] = ref::null();
                  break;
              case 3: {
                  unsigned depth = n % 300;
                  x = ref::num("1");
                  for (unsigned j = 0; j <= depth; ++j) x = j % 2 ? ref::obj({ { "a", x }, { "b", ref::arr() } }) : ref::arr({ ref::null(), x });
                  break;
              }
              case 4: x.a = { ref::str(std::string(n, '\x1f') + "\""), ref::num(std::string(n + 1, '9')) }; break;
              case 5: x = ref::obj({ { std::string(n, '\\'), ref::str(std::string(n, '\n')) } }); break;
              }
              check_value(bd::by(i % 7 % 2 ? 0 : 4, x), x);
          },
          [](uint64_t i) { return "kind " + std::to_string(i % 6) + " size " + std::to_string(i / 6); }, 16);
    dm::add_dims(e, "every-size", dm::reach(th), [](const dm::Dim& d, size_t n) {
        if (d.text) return;
        Node x = d.make(n);
        check_value(ref::build(x), x);
        if (n <= 140) check_value(bd::by(n % bd::kRoutes, x), x);
    });
}
MC_MAIN(setup)
