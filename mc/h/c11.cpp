// C11: json::array behaves like a sequence of values; two arrays A and B and every bounded history of their operations.
#include "bigedits.hpp"
#include "edits.hpp"
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <set>
#include <unordered_set>
using ref::Node;
using S = std::string;
using json::array;
using json::value;

struct W
{ // the world: real arrays and model arrays
    array a, b;
    std::vector<Node> ma, mb;
};
struct Op
{
    S name;
    std::function<void(W&)> run; // performs the operation on both sides, fails on a wrong return value
};
static const std::vector<Node>& elems()
{
    static const std::vector<Node> e = { ref::num("1"), ref::str("x"), ref::null(), ref::arr({ ref::num("2") }), ref::obj({ { "k", ref::boolean(true) } }) };
    return e;
}
static void same(const array& a, const std::vector<Node>& m, const char* what)
{
    auto bad = [&](const S& w) { mc::fail(S(what) + ": " + w + "; array is " + a.to_string() + ", model " + ref::dump(ref::arr(m))); };
    if (a.size() != m.size()) bad("size " + std::to_string(a.size()));
    if (a.empty() != m.empty()) bad("empty()");
    for (size_t i = 0; i < m.size(); ++i) {
        auto d = ref::diff(a[i], m[i]);
        if (!d.empty()) bad("element " + std::to_string(i) + ": " + d);
    }
}
static void same_full(array& a, const std::vector<Node>& m, const char* what)
{
    same(a, m, what);
    auto bad = [&](const S& w) { mc::fail(S(what) + ": " + w + "; model " + ref::dump(ref::arr(m))); };
    const array& c = a;
    size_t n = m.size();
    for (size_t i : { size_t(0), n ? n - 1 : 0, n, n + 1, size_t(-1), size_t(1) << 63 }) {
        bool in = i < n;
        if (c.contains(i) != in || c.exists(i) != in) bad("contains/exists(" + std::to_string(i) + ")");
        if (c.find_value(i) != (in ? &c[i] : nullptr)) bad("find_value");
        auto f = c.find(i);
        if (bool(f) != in || (in && *f != c[i])) bad("find");
        bool thrown = false;
        try {
            if (&c.at(i) != &c[i]) bad("at() refers elsewhere");
        }
        catch (const std::exception&) {
            thrown = true;
        }
        if (thrown == in) bad("at() range check");
        if (c.get(i, value("dflt")) != (in ? c[i] : value("dflt"))) bad("get with default");
    }
    size_t k = 0;
    for (auto& e : a)
        if (&e != &a[k++]) bad("begin/end");
    if (k != n) bad("iteration length");
    k = 0;
    for (auto it = c.cbegin(); it != c.cend(); ++it)
        if (&*it != &c[k++]) bad("cbegin/cend");
    if (k != n || size_t(c.end() - c.begin()) != n || size_t(c.cend() - c.cbegin()) != n) bad("const iteration length");
    for (auto it = a.rbegin(); it != a.rend(); ++it)
        if (&*it != &a[--k]) bad("rbegin/rend");
    if (k) bad("reverse iteration length");
    k = n;
    for (auto it = c.crbegin(); it != c.crend(); ++it)
        if (&*it != &c[--k]) bad("crbegin/crend");
    k = n;
    for (auto it = c.rbegin(); it != c.rend(); ++it)
        if (&*it != &c[--k]) bad("const rbegin/rend");
    auto nn = ref::arr(m);
    if (c.to_string() != ref::dump(nn) || c.dumps() != ref::dump(nn) || c.format() != ref::format(nn) || c.dumps(2) != ref::format(nn, 2)) bad("text");
    if (!(c == c) || c != c) bad("not equal to itself");
    array r = c;
    if (!(r == c) || r != c || value(r) != value(c)) bad("copy differs");
    auto v = c.as<std::vector<value>>();
    if (array(v) != c) bad("vector round trip");
    bool alln = true;
    for (auto& e : m) alln &= e.k == ref::Num;
    if (c.all<int>() != alln) bad("all<int>()");
}
static void cmp(const W& w)
{
    bool eq = w.ma == w.mb;
    if ((w.a == w.b) != eq || (w.b == w.a) != eq || (w.a != w.b) == eq) mc::fail("comparison of " + w.a.to_string() + " and " + w.b.to_string());
}
static std::vector<Node> cat(std::vector<Node> x, const std::vector<Node>& y)
{
    x.insert(x.end(), y.begin(), y.end());
    return x;
}
// contents of a moved-from array are open; it must still be a usable array
static void resync(const array& a, std::vector<Node>& m)
{
    m.clear();
    for (auto& e : a) m.push_back(ref::readout(e));
}

static std::vector<Op> ops()
{
    std::vector<Op> r;
    auto add = [&](S n, std::function<void(W&)> f) { r.push_back({ std::move(n), std::move(f) }); };
    for (auto& e : elems()) {
        add("A.push_back(" + ref::dump(e) + ")", [e](W& w) { auto v = ref::build(e); auto& x = w.a.push_back(v); w.ma.push_back(e); if (&x != &w.a[w.a.size() - 1]) mc::fail("push_back return"); ref::expect_same(v, e, "pushed value"); });
        add("A.emplace_back(move " + ref::dump(e) + ")", [e](W& w) { w.a.emplace_back(ref::build(e)); w.ma.push_back(e); });
    }
    add("A.emplace_back(42)", [](W& w) { if (w.a.emplace_back(42).as_integer() != 42) mc::fail("emplace_back return"); w.ma.push_back(ref::num("42")); });
    add("B.emplace_back(\"s\")", [](W& w) { w.b.emplace_back("s"); w.mb.push_back(ref::str("s")); });
    add("B.push_back(true)", [](W& w) { w.b.push_back(true); w.mb.push_back(ref::boolean(true)); });
    for (size_t i : { size_t(0), size_t(1), size_t(2), size_t(-1) })
        add("A.erase(" + std::to_string(i) + ")", [i](W& w) {
            bool in = i < w.ma.size();
            if (w.a.erase(i) != in) mc::fail("erase() return");
            if (in) w.ma.erase(w.ma.begin() + long(i));
        });
    add("A.erase(begin)", [](W& w) { bool in = !w.ma.empty(); if (w.a.erase(w.a.begin()) != in) mc::fail("erase(iterator) return"); if (in) w.ma.erase(w.ma.begin()); });
    add("A.erase(last)", [](W& w) { if (w.ma.empty()) return; if (!w.a.erase(w.a.end() - 1)) mc::fail("erase(iterator) return"); w.ma.pop_back(); });
    add("A.erase(end)", [](W& w) { if (w.a.erase(w.a.end())) mc::fail("erase(end) return"); });
    add("A.clear()", [](W& w) { w.a.clear(); w.ma.clear(); });
    add("A[0] = 9", [](W& w) { if (w.ma.empty()) return; w.a[0] = 9; w.ma[0] = ref::num("9"); });
    add("A[last] = []", [](W& w) { if (w.ma.empty()) return; w.a[w.ma.size() - 1] = array(); w.ma.back() = ref::arr(); });
    add("for e in A: e = 0", [](W& w) { for (auto& e : w.a) e = 0; for (auto& e : w.ma) e = ref::num("0"); });
    add("*A.rbegin() = \"r\"", [](W& w) { if (w.ma.empty()) return; *w.a.rbegin() = "r"; w.ma.back() = ref::str("r"); });
    add("A = A + B", [](W& w) { w.a = w.a + w.b; w.ma = cat(w.ma, w.mb); });
    add("A = A + move(B)", [](W& w) { w.a = w.a + std::move(w.b); w.ma = cat(w.ma, w.mb); resync(w.b, w.mb); });
    add("A = move(A) + B", [](W& w) { w.a = std::move(w.a) + w.b; w.ma = cat(w.ma, w.mb); });
    add("A = move(A) + move(B)", [](W& w) { w.a = std::move(w.a) + std::move(w.b); w.ma = cat(w.ma, w.mb); resync(w.b, w.mb); });
    add("A = B + A", [](W& w) { w.a = w.b + w.a; w.ma = cat(w.mb, w.ma); });
    add("C = A + B, unchanged", [](W& w) { array c = w.a + w.b; same(c, cat(w.ma, w.mb), "A + B"); });
    add("C = copy(A) + copy(B)", [](W& w) { array c = array(w.a) + array(w.b); same(c, cat(w.ma, w.mb), "copy + copy"); });
    add("A += B", [](W& w) { if (&(w.a += w.b) != &w.a) mc::fail("+= return"); w.ma = cat(w.ma, w.mb); });
    add("A += move(B)", [](W& w) { if (&(w.a += std::move(w.b)) != &w.a) mc::fail("+= return"); w.ma = cat(w.ma, w.mb); resync(w.b, w.mb); });
    add("A += A", [](W& w) { w.a += w.a; w.ma = cat(w.ma, w.ma); });
    add("A += [1,[]]", [](W& w) { w.a += array { 1, array() }; w.ma = cat(w.ma, { ref::num("1"), ref::arr() }); });
    add("A = B", [](W& w) { if (&(w.a = w.b) != &w.a) mc::fail("= return"); w.ma = w.mb; });
    add("A = A", [](W& w) { array& x = w.a; w.a = x; });
    add("A = move(B)", [](W& w) { if (&(w.a = std::move(w.b)) != &w.a) mc::fail("= return"); w.ma = w.mb; resync(w.b, w.mb); });
    add("B = A", [](W& w) { w.b = w.a; w.mb = w.ma; });
    add("swap(A, B)", [](W& w) { std::swap(w.a, w.b); std::swap(w.ma, w.mb); });
    add("A = array(move(A))", [](W& w) { array t(std::move(w.a)); w.a = std::move(t); });
    add("A = {1,\"x\",null}", [](W& w) { w.a = { 1, "x", nullptr }; w.ma = { ref::num("1"), ref::str("x"), ref::null() }; });
    add("A = array(3)", [](W& w) { w.a = array(size_t(3)); w.ma.assign(3, ref::null()); });
    add("A = vector<int>", [](W& w) { std::vector<int> s { 4, 5 }; w.a = array(s); w.ma = { ref::num("4"), ref::num("5") }; });
    add("A = list<string>&&", [](W& w) { w.a = array(std::list<S> { "p", "q" }); w.ma = { ref::str("p"), ref::str("q") }; });
    add("A = set<string>", [](W& w) { const std::set<S> s { "z", "a" }; w.a = array(s); w.ma = { ref::str("a"), ref::str("z") }; });
    add("A = deque<value>", [](W& w) { std::deque<value> s; for (auto& e : w.mb) s.push_back(ref::build(e)); w.a = array(s); w.ma = w.mb; });
    add("A = std::array", [](W& w) { w.a = array(std::array<int, 2> { 6, 7 }); w.ma = { ref::num("6"), ref::num("7") }; });
    add("A = tuple", [](W& w) { w.a = array(std::make_tuple(1, S("t"), nullptr)); w.ma = { ref::num("1"), ref::str("t"), ref::null() }; });
    add("A = pair", [](W& w) { std::pair<int, S> p { 1, "t" }; w.a = array(p); w.ma = { ref::num("1"), ref::str("t") }; });
    add("B = array(A.begin..)", [](W& w) { w.b = array(); for (const auto& e : w.a) w.b.push_back(e); w.mb = w.ma; });
    add("A = value(A).as_array()", [](W& w) { value v(w.a); w.a = v.as_array(); });
    add("A.push_back(A[0])", [](W& w) { if (w.ma.empty()) return; w.a.push_back(w.a[0]); w.ma.push_back(Node(w.ma[0])); });
    add("A.push_back(B)", [](W& w) { if (w.ma.size() > 6) return; w.a.push_back(w.b); w.ma.push_back(ref::arr(w.mb)); });
    add("A[0] = A[last]", [](W& w) { if (w.ma.empty()) return; w.a[0] = w.a[w.ma.size() - 1]; w.ma[0] = Node(w.ma.back()); });
    return r;
}

static void setup(mc::Engine& e)
{
    const bool th = mc::thorough();
    static const auto O = ops();
    auto hist = [&e](S name, unsigned depth) {
        e.add(
            name, mc::ipow(O.size(), depth) * 2,
            [depth](uint64_t i) {
                mc::Dec d(i);
                W w;
                if (d(2)) {
                    w.a = { 1, array { 2 }, "x" };
                    w.ma = { ref::num("1"), ref::arr({ ref::num("2") }), ref::str("x") };
                    w.b = { nullptr };
                    w.mb = { ref::null() };
                }
                for (unsigned k = 0; k < depth; ++k) {
                    auto& o = O[d(O.size())];
                    o.run(w);
                    mc::step();
                    same(w.a, w.ma, ("A after " + o.name).c_str());
                    same(w.b, w.mb, ("B after " + o.name).c_str());
                }
                cmp(w);
                same_full(w.a, w.ma, "A");
                if (depth < 4) same_full(w.b, w.mb, "B");
                mc::validated();
                auto s = ref::dump(ref::arr(w.ma)) + ref::dump(ref::arr(w.mb));
                mc::state(s);
                mc::outcome(s);
            },
            [depth](uint64_t i) {
                mc::Dec d(i);
                S s = d(2) ? "A=[1,[2],\"x\"] B=[null]" : "A=[] B=[]";
                for (unsigned k = 0; k < depth; ++k) s += "; " + O[d(O.size())].name;
                return s;
            });
    };
    hist("histories-1", 1);
    hist("histories-2", 2);
    hist("histories-3", 3);
    if (th) hist("histories-4", 4);

    // erase at every position of every length; concatenation of every pair of lengths
    static const unsigned N = th ? 140 : 40;
    e.add("erase-at", N * N,
          [](uint64_t i) {
              size_t n = i / N, p = i % N;
              array a;
              std::vector<Node> m;
              for (size_t k = 0; k < n; ++k) {
                  a.push_back(int(k));
                  m.push_back(ref::num(std::to_string(k)));
              }
              array b = a;
              bool in = p < n;
              if (a.erase(p) != in) mc::fail("erase() return");
              if (in && !b.erase(b.begin() + long(p))) mc::fail("erase(iterator) return");
              if (in) m.erase(m.begin() + long(p));
              same_full(a, m, "erase(pos)");
              same(b, m, "erase(iterator)");
              mc::step(2);
              mc::statei(i, 0);
          },
          [](uint64_t i) { return "size " + std::to_string(i / N) + " position " + std::to_string(i % N); });
    e.add("concat-sizes", N * N,
          [](uint64_t i) {
              size_t n = i / N, p = i % N;
              auto mk = [](size_t c, const char* pre, std::vector<Node>& m) {
                  array a;
                  for (size_t k = 0; k < c; ++k) {
                      a.push_back(pre + std::to_string(k));
                      m.push_back(ref::str(pre + std::to_string(k)));
                  }
                  return a;
              };
              std::vector<Node> mx, my;
              array x = mk(n, "x", mx), y = mk(p, "y", my);
              auto both = cat(mx, my);
              same(x + y, both, "x + y");
              same(array(x) + y, both, "copy + y");
              same(x + array(y), both, "x + copy");
              same(array(x) + array(y), both, "copy + copy");
              same(value(x).as_array() + y, both, "via value");
              same((value(x) + y).as_array(), both, "value + array");
              array z = x;
              z += y;
              same(z, both, "x += y");
              z = x;
              z += array(y);
              same(z, both, "x += copy");
              same(x, mx, "left operand");
              same(y, my, "right operand");
              mc::step(8);
              mc::statei(i, 1);
          },
          [](uint64_t i) { return "sizes " + std::to_string(i / N) + "+" + std::to_string(i % N); });
    // construction: every size and every source container
    e.add("construction", N * 10,
          [](uint64_t i) {
              size_t n = i / 10;
              std::vector<Node> m;
              std::vector<S> src;
              for (size_t k = 0; k < n; ++k) src.push_back(std::to_string(1000 + k));
              for (auto& s : src) m.push_back(ref::str(s));
              array a;
              switch (i % 10) {
              case 0: a = array(src); break;
              case 1: a = array(std::list<S>(src.begin(), src.end())); break;
              case 2: a = array(std::set<S>(src.begin(), src.end())); break;
              case 3: a = array(std::deque<S>(src.begin(), src.end())); break;
              case 4: {
                  const std::multiset<S> x(src.begin(), src.end());
                  a = array(x);
                  break;
              }
              case 5: a = array(std::forward_list<S>(src.begin(), src.end())); break;
              case 6: a = array(std::vector<std::string_view>(src.begin(), src.end())); break;
              case 7:
                  a = array(n);
                  m.assign(n, ref::null());
                  break;
              case 8: {
                  std::unordered_set<S> x(src.begin(), src.end());
                  m.clear();
                  for (auto& s : x) m.push_back(ref::str(s));
                  a = array(x);
                  break;
              }
              case 9: {
                  std::vector<std::vector<int>> x(n, std::vector<int> { 1, 2 });
                  m.assign(n, ref::arr({ ref::num("1"), ref::num("2") }));
                  a = array(std::move(x));
                  break;
              }
              }
              same_full(a, m, "constructed");
              mc::step();
              mc::statei(i, 2);
          },
          [](uint64_t i) { return "source " + std::to_string(i % 10) + " size " + std::to_string(i / 10); });
    // every operation on arrays of every size
    dm::add_sizes(e, "every-operation-at-every-size", dm::ladder(th ? 300 : 140, th ? 1u << 14 : 1u << 12), [](size_t n) {
        auto fill = [](size_t c, int from, array& a, std::vector<Node>& m) {
            for (size_t k = 0; k < c; ++k) {
                int x = from + int(k);
                if (k % 7 == 3) {
                    a.push_back("s" + std::to_string(x));
                    m.push_back(ref::str("s" + std::to_string(x)));
                }
                else {
                    a.push_back(x);
                    m.push_back(ref::num(std::to_string(x)));
                }
            }
        };
        for (int shape = 0; shape < 3; ++shape) {
            W base;
            fill(shape == 1 ? n / 2 % 5 : n, 0, base.a, base.ma);
            fill(shape == 0 ? n / 3 % 4 : n, 100000, base.b, base.mb);
            for (auto& o : O) {
                W w = base;
                o.run(w);
                mc::step();
                same(w.a, w.ma, ("A after " + o.name).c_str());
                same(w.b, w.mb, ("B after " + o.name).c_str());
                if (n < 300) cmp(w);
            }
            cmp(base);
            if (n < 5000) same_full(base.a, base.ma, "A");
            mc::validated();
        }
    });
    dm::add_sizes(e, "every-size", dm::ladder(th ? 2200 : 530, th ? 1u << 20 : 1u << 17), dm::array_edits);
    e.notes.push_back("operations: " + std::to_string(O.size()));
}
MC_MAIN(setup)
