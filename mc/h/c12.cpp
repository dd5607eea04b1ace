// C12: json::object behaves like a sorted map; two objects A and B and every bounded history of their operations.
#include "bigedits.hpp"
#include "edits.hpp"
#include <map>
#include <unordered_map>
using ref::Node;
using S = std::string;
using json::array;
using json::object;
using json::value;
using M = std::map<S, Node>;

struct W
{
    object a, b;
    M ma, mb;
};
struct Op
{
    S name;
    std::function<void(W&)> run;
};
static S g_prefix; // put before every enumerated key
static std::vector<S> keys()
{
    std::vector<S> k = { "a", "", S("a\0", 2), "\xff" };
    for (auto& x : k) x = g_prefix + x;
    return k;
}
static void same(const object& a, const M& m, const char* what)
{
    auto bad = [&](const S& w) { mc::fail(S(what) + ": " + w + "; object is " + a.to_string() + ", model " + ref::dump(ref::obj(m))); };
    if (a.size() != m.size()) bad("size " + std::to_string(a.size()));
    if (a.empty() != m.empty()) bad("empty()");
    auto it = m.begin();
    for (const auto& [k, e] : a) {
        if (it == m.end() || k != it->first) bad("keys or their order");
        auto d = ref::diff(e, it->second);
        if (!d.empty()) bad("member " + mc::show(k) + ": " + d);
        ++it;
    }
    if (it != m.end()) bad("missing members");
}
static void same_full(object& a, const M& m, const char* what)
{
    same(a, m, what);
    auto bad = [&](const S& w) { mc::fail(S(what) + ": " + w + "; model " + ref::dump(ref::obj(m))); };
    const object& c = a;
    std::vector<S> ks = keys();
    for (auto k : { "b", "A", "aa", "zzz" }) ks.push_back(k);
    if (!g_prefix.empty())
        for (auto k : { "", "a", "b" }) ks.push_back(k), ks.push_back(g_prefix + "b" + k), ks.push_back(g_prefix.substr(1) + k);
    ks.push_back(S("\0", 1));
    for (auto& k : ks) {
        auto it = m.find(k);
        bool in = it != m.end();
        if (c.contains(k) != in || c.exists(k) != in) bad("contains/exists(" + mc::show(k) + ")");
        auto p = c.find_value(k);
        if ((p != nullptr) != in) bad("find_value(" + mc::show(k) + ")");
        if (in && !ref::diff(*p, it->second).empty()) bad("find_value content");
        auto f = c.find(k);
        if (bool(f) != in || (in && *f != *p)) bad("find(" + mc::show(k) + ")");
        bool thrown = false;
        try {
            if (&c.at(k) != p) bad("at() refers elsewhere");
        }
        catch (const std::exception&) {
            thrown = true;
        }
        if (thrown == in) bad("at(" + mc::show(k) + ") presence check");
        if (c.get(k, value("dflt")) != (in ? *p : value("dflt"))) bad("get with default");
    }
    size_t n = 0;
    for (auto it = c.cbegin(); it != c.cend(); ++it) ++n;
    if (n != m.size()) bad("cbegin/cend");
    n = 0;
    for (auto it = a.begin(); it != a.end(); ++it, ++n)
        if (&it->second != c.find_value(it->first)) bad("begin/end");
    if (n != m.size()) bad("iteration length");
    auto nn = ref::obj(m);
    if (c.to_string() != ref::dump(nn) || c.dumps() != ref::dump(nn) || c.format() != ref::format(nn) || c.dumps(2) != ref::format(nn, 2)) bad("text");
    if (!(c == c) || c != c) bad("not equal to itself");
    object r = c;
    if (!(r == c) || r != c || value(r) != value(c)) bad("copy differs");
    auto v = c.as<std::map<S, value>>();
    if (object(v) != c) bad("map round trip");
    auto u = c.as<std::unordered_map<S, value>>();
    if (object(u) != c) bad("unordered_map round trip");
    bool alln = true;
    for (auto& [k, e] : m) alln &= e.k == ref::Num;
    if (c.all<int>() != alln) bad("all<int>()");
}
static void cmp(const W& w)
{
    bool eq = w.ma == w.mb;
    if ((w.a == w.b) != eq || (w.b == w.a) != eq || (w.a != w.b) == eq) mc::fail("comparison of " + w.a.to_string() + " and " + w.b.to_string());
}
static M merge(M x, const M& y)
{
    for (auto& [k, e] : y) x[k] = e;
    return x;
}
static void resync(const object& a, M& m)
{
    m.clear();
    for (auto& [k, e] : a) m[k] = ref::readout(e);
}
static std::vector<Op> ops()
{
    std::vector<Op> r;
    auto add = [&](S n, std::function<void(W&)> f) { r.push_back({ std::move(n), std::move(f) }); };
    for (auto& k : keys()) {
        auto q = mc::show(k);
        add("A[" + q + "]", [k](W& w) { auto& e = w.a[k]; if (&e != w.a.find_value(k)) mc::fail("[] refers elsewhere"); w.ma[k]; });
        add("A[move " + q + "]", [k](W& w) { S key = k; auto& e = w.a[std::move(key)]; if (&e != w.a.find_value(k)) mc::fail("[] refers elsewhere"); w.ma[k]; });
        add("A[move " + q + "] = 1", [k](W& w) { w.a[S(k)] = 1; w.ma[k] = ref::num("1"); });
        add("A.emplace(" + q + ", \"e\")", [k](W& w) {
            bool fresh = !w.ma.count(k);
            auto x = w.a.emplace(k, "e");
            if (x.second != fresh || x.first->first != k || &x.first->second != w.a.find_value(k)) mc::fail("emplace() return");
            w.ma[k] = ref::str("e");
        });
        add("A.insert(" + q + ", [2])", [k](W& w) {
            bool fresh = !w.ma.count(k);
            const value v = array { 2 };
            auto x = w.a.insert(k, v);
            if (x.second != fresh || x.first->first != k) mc::fail("insert() return");
            w.ma[k] = ref::arr({ ref::num("2") });
        });
        // every value category of the key and of the mapped value
        add("A.emplace(move " + q + ", move 3)", [k](W& w) {
            bool fresh = !w.ma.count(k);
            value v(3);
            auto x = w.a.emplace(S(k), std::move(v));
            if (x.second != fresh || x.first->first != k || &x.first->second != w.a.find_value(k)) mc::fail("emplace() return");
            w.ma[k] = ref::num("3");
        });
        add("A.insert(move " + q + ", null)", [k](W& w) {
            bool fresh = !w.ma.count(k);
            S key = k;
            auto x = w.a.insert(std::move(key), nullptr);
            if (x.second != fresh || x.first->first != k) mc::fail("insert() return");
            w.ma[k] = ref::null();
        });
        add("A.emplace(named " + q + ", B)", [k](W& w) {
            if (w.mb.size() > 8 || w.ma.size() > 8) return;
            bool fresh = !w.ma.count(k);
            S key = k;
            auto x = w.a.emplace(key, w.b);
            if (x.second != fresh || x.first->first != k || key != k) mc::fail("emplace() return");
            w.ma[k] = ref::obj(w.mb);
        });
        if (k.find('\0', g_prefix.size()) == S::npos) {
            add("A.emplace(literal " + q + ", true)", [k](W& w) {
                bool fresh = !w.ma.count(k);
                if (k.find('\0') != S::npos) return;
                const char* key = k.c_str();
                auto x = w.a.emplace(key, true);
                if (x.second != fresh || x.first->first != k) mc::fail("emplace() return");
                w.ma[k] = ref::boolean(true);
            });
            add("A[literal " + q + "] = [\"l\"]", [k](W& w) { if (k.find('\0') != S::npos) return; w.a[k.c_str()] = array { "l" }; w.ma[k] = ref::arr({ ref::str("l") }); });
        }
        add("A.erase(" + q + ")", [k](W& w) { bool had = w.ma.erase(k); if (w.a.erase(k) != had) mc::fail("erase(key) return"); });
        add("B[" + q + "] = \"b\"", [k](W& w) { w.b[k] = "b"; w.mb[k] = ref::str("b"); });
    }
    add("A.erase(\"absent\")", [](W& w) { if (w.a.erase("absent")) mc::fail("erase(absent) return"); });
    add("A.erase(begin)", [](W& w) { bool in = !w.ma.empty(); if (w.a.erase(w.a.begin()) != in) mc::fail("erase(begin) return"); if (in) w.ma.erase(w.ma.begin()); });
    add("A.erase(last)", [](W& w) { if (w.ma.empty()) return; if (!w.a.erase(std::prev(w.a.end()))) mc::fail("erase(last) return"); w.ma.erase(std::prev(w.ma.end())); });
    add("A.erase(end)", [](W& w) { if (w.a.erase(w.a.end())) mc::fail("erase(end) return"); });
    add("A.clear()", [](W& w) { w.a.clear(); w.ma.clear(); });
    add("for e in A: e = {}", [](W& w) { for (auto& [k, e] : w.a) e = object(); for (auto& [k, e] : w.ma) e = ref::obj(); });
    add("A = A | B", [](W& w) { w.a = w.a | w.b; w.ma = merge(w.ma, w.mb); });
    add("A = A | move(B)", [](W& w) { w.a = w.a | std::move(w.b); w.ma = merge(w.ma, w.mb); resync(w.b, w.mb); });
    add("A = move(A) | B", [](W& w) { w.a = std::move(w.a) | w.b; w.ma = merge(w.ma, w.mb); });
    add("A = move(A) | move(B)", [](W& w) { w.a = std::move(w.a) | std::move(w.b); w.ma = merge(w.ma, w.mb); resync(w.b, w.mb); });
    add("A = B | A", [](W& w) { w.a = w.b | w.a; w.ma = merge(w.mb, w.ma); });
    add("C = A | B, unchanged", [](W& w) { object c = w.a | w.b; same(c, merge(w.ma, w.mb), "A | B"); });
    add("C = copy(A) | copy(B)", [](W& w) { object c = object(w.a) | object(w.b); same(c, merge(w.ma, w.mb), "copy | copy"); });
    add("A |= B", [](W& w) { if (&(w.a |= w.b) != &w.a) mc::fail("|= return"); w.ma = merge(w.ma, w.mb); });
    add("A |= move(B)", [](W& w) { if (&(w.a |= std::move(w.b)) != &w.a) mc::fail("|= return"); w.ma = merge(w.ma, w.mb); resync(w.b, w.mb); });
    add("A |= A", [](W& w) { w.a |= w.a; });
    add("A |= {a,z}", [](W& w) { w.a |= object { { "a", nullptr }, { "z", 1 } }; w.ma["a"] = ref::null(); w.ma["z"] = ref::num("1"); });
    add("A = B", [](W& w) { if (&(w.a = w.b) != &w.a) mc::fail("= return"); w.ma = w.mb; });
    add("A = A", [](W& w) { object& x = w.a; w.a = x; });
    add("A = move(B)", [](W& w) { if (&(w.a = std::move(w.b)) != &w.a) mc::fail("= return"); w.ma = w.mb; resync(w.b, w.mb); });
    add("B = A", [](W& w) { w.b = w.a; w.mb = w.ma; });
    add("swap(A, B)", [](W& w) { std::swap(w.a, w.b); std::swap(w.ma, w.mb); });
    add("A = object(move(A))", [](W& w) { object t(std::move(w.a)); w.a = std::move(t); });
    add("A = {k:1,a:[]}", [](W& w) { w.a = object { { "k", 1 }, { "a", array() } }; w.ma = { { "k", ref::num("1") }, { "a", ref::arr() } }; });
    add("A = map", [](W& w) { std::map<S, int> s { { "b", 1 }, { "", 2 } }; w.a = object(s); w.ma = { { "b", ref::num("1") }, { "", ref::num("2") } }; });
    add("A = unordered_map&&", [](W& w) { w.a = object(std::unordered_map<S, S> { { "b", "x" }, { "c", "" } }); w.ma = { { "b", ref::str("x") }, { "c", ref::str("") } }; });
    add("A = value(A).as_object()", [](W& w) { value v(w.a); w.a = v.as_object(); });
    add("B from iteration of A", [](W& w) { w.b = object(); for (const auto& [k, e] : w.a) w.b.emplace(k, e); w.mb = w.ma; });
    add("A[\"self\"] = B", [](W& w) { if (w.ma.size() > 8) return; w.a["self"] = w.b; w.ma["self"] = ref::obj(w.mb); });
    add("A[\"a\"] = A.begin()", [](W& w) { if (w.ma.empty()) return; w.a["a"] = value(w.a.begin()->second); w.ma["a"] = Node(w.ma.begin()->second); });
    return r;
}

static void setup(mc::Engine& e)
{
    const bool th = mc::thorough();
    static const auto O = ops();
    auto hist = [&e](S name, unsigned depth) {
        e.add(
            name, mc::ipow(O.size(), depth) * 2,
            [depth](uint64_t i) {
                mc::Dec d(i);
                W w;
                if (d(2)) {
                    w.a = object { { "a", 1 }, { "b", array { 2 } }, { "", "x" } };
                    w.ma = { { "a", ref::num("1") }, { "b", ref::arr({ ref::num("2") }) }, { "", ref::str("x") } };
                    w.b = object { { "a", "B" }, { "c", nullptr } };
                    w.mb = { { "a", ref::str("B") }, { "c", ref::null() } };
                }
                for (unsigned k = 0; k < depth; ++k) {
                    auto& o = O[d(O.size())];
                    o.run(w);
                    mc::step();
                    same(w.a, w.ma, ("A after " + o.name).c_str());
                    same(w.b, w.mb, ("B after " + o.name).c_str());
                }
                cmp(w);
                same_full(w.a, w.ma, "A");
                if (depth < 4) same_full(w.b, w.mb, "B");
                mc::validated();
                auto s = ref::dump(ref::obj(w.ma)) + ref::dump(ref::obj(w.mb));
                mc::state(s);
                mc::outcome(s);
            },
            [depth](uint64_t i) {
                mc::Dec d(i);
                S s = d(2) ? "A={a,b,\"\"} B={a,c}" : "A={} B={}";
                for (unsigned k = 0; k < depth; ++k) s += "; " + O[d(O.size())].name;
                return s;
            });
    };
    // the same with keys of every length and of every byte
    static std::vector<S> prefixes;
    for (size_t n = 1; n <= (th ? 300u : 70u); ++n) prefixes.push_back(S(n, 'p'));
    for (size_t n : { 127, 128, 129, 255, 256, 257, 1023, 1024, 4095, 4096, 4097 }) prefixes.push_back(S(n, 'p'));
    const size_t lengths = prefixes.size();
    for (int b = 0; b < 256; ++b) prefixes.push_back(S(1, char(b)));
    auto prefixed = [&e](S name, size_t from, size_t count, unsigned depth) {
        static std::map<S, std::vector<Op>> of;
        e.add(
            name, count * mc::ipow(O.size(), depth),
            [from, depth](uint64_t i) {
                mc::Dec d(i);
                std::vector<size_t> h;
                for (unsigned k = 0; k < depth; ++k) h.push_back(d(O.size()));
                const S p = prefixes[from + d(prefixes.size())];
                g_prefix = p;
                auto& P = of[p];
                if (P.empty()) P = ops();
                W w;
                int j = 0;
                for (auto& k : keys()) {
                    if (j % 2 == 0) w.a[k] = j, w.ma[k] = ref::num(std::to_string(j));
                    if (j > 0) w.b.emplace(k, "B"), w.mb[k] = ref::str("B");
                    ++j;
                }
                w.a["b"] = array(), w.ma["b"] = ref::arr();
                try {
                    for (size_t x : h) {
                        P[x].run(w);
                        mc::step();
                        same(w.a, w.ma, ("A after " + P[x].name).c_str());
                        same(w.b, w.mb, ("B after " + P[x].name).c_str());
                    }
                    cmp(w);
                    same_full(w.a, w.ma, "A");
                }
                catch (...) {
                    g_prefix.clear();
                    throw;
                }
                g_prefix.clear();
                mc::validated();
                mc::state(ref::dump(ref::obj(w.ma)));
            },
            [from, depth](uint64_t i) {
                mc::Dec d(i);
                S s;
                for (unsigned k = 0; k < depth; ++k) s += "; " + O[d(O.size())].name;
                const S p = prefixes[from + d(prefixes.size())];
                return "keys beginning with " + std::to_string(p.size()) + " x " + mc::show(p.substr(0, 1)) + s;
            });
    };
    prefixed("key-lengths", 0, lengths, th ? 2 : 1);
    prefixed("key-bytes", lengths, 256, 1);
    if (!th) {
        static const std::vector<size_t> some = { 14, 15, 30, 63 }; // one character more than 14, 15, ...
        for (size_t n : some) prefixed("key-length-" + std::to_string(n + 1) + "-histories-2", n, 1, 2);
    }
    hist("histories-1", 1);
    hist("histories-2", 2);
    hist("histories-3", 3);
    if (th) hist("histories-4", 4);

    // every pair of key subsets: merge semantics, comparison, insertion-order independence
    static const std::vector<S> K = { "", "a", S("a\0", 2), "aa", "b", "\x80" };
    e.add("merge-subsets", 64 * 64,
          [](uint64_t i) {
              unsigned x = i / 64, y = i % 64;
              object a, b;
              M ma, mb;
              for (size_t k = 0; k < K.size(); ++k) {
                  if (x >> k & 1) {
                      a[K[k]] = int(k);
                      ma[K[k]] = ref::num(std::to_string(k));
                  }
                  if (y >> (5 - k) & 1) {
                      b.emplace(K[5 - k], (k & 1) ? value(int(5 - k)) : value("r"));
                      mb[K[5 - k]] = (k & 1) ? ref::num(std::to_string(5 - k)) : ref::str("r");
                  }
              }
              auto both = merge(ma, mb);
              same(a | b, both, "a | b");
              same(object(a) | b, both, "copy | b");
              same(a | object(b), both, "a | copy");
              same(object(a) | object(b), both, "copy | copy");
              same((value(a) | b).as_object(), both, "value | object");
              same((value(a) | object(b)).as_object(), both, "value | copy");
              const value va(a);
              same((va | b).as_object(), both, "const value | object");
              object c = a;
              c |= b;
              same(c, both, "a |= b");
              c = a;
              c |= object(b);
              same_full(c, both, "a |= copy");
              same(a, ma, "left operand");
              same(b, mb, "right operand");
              if ((a == b) != (ma == mb) || (value(a) == value(b)) != (ma == mb)) mc::fail("comparison");
              mc::step(9);
              mc::statei(i, 7);
          },
          [](uint64_t i) { return "subsets " + std::to_string(i / 64) + "," + std::to_string(i % 64); });
    // insertion in every order
    e.add("insertion-orders", 720 * 3,
          [](uint64_t i) {
              std::vector<int> p = { 0, 1, 2, 3, 4, 5 };
              for (uint64_t k = 0; k < i / 3; ++k) std::next_permutation(p.begin(), p.end());
              object a;
              M m;
              for (int k : p) {
                  if (i % 3 == 0) a[K[k]] = k;
                  else if (i % 3 == 1) a.emplace(K[k], k);
                  else a |= object { { K[k], k } };
                  m[K[k]] = ref::num(std::to_string(k));
              }
              same_full(a, m, "inserted");
              object b;
              for (int k = 0; k < 6; ++k) b[K[k]] = k;
              if (a != b || !(b == a)) mc::fail("insertion order matters for equality");
              for (int k : p) {
                  if (!a.erase(K[k])) mc::fail("erase");
                  m.erase(K[k]);
                  same(a, m, "erased");
              }
              mc::step(12);
              mc::statei(i, 8);
          },
          [](uint64_t i) { return "permutation " + std::to_string(i / 3); });
    static const unsigned N = th ? 2100 : 300;
    e.add("sizes", N,
          [](uint64_t i) {
              object a;
              M m;
              for (size_t k = 0; k < i; ++k) {
                  auto key = std::to_string(k * 7919 % 100003);
                  a[key] = int(k);
                  m[key] = ref::num(std::to_string(k));
              }
              same_full(a, m, "built");
              object c = a | a;
              same(c, m, "merged with itself");
              while (!m.empty()) {
                  auto k = std::next(m.begin(), long(m.size() / 2))->first;
                  m.erase(k);
                  if (!a.erase(k) || a.erase(k)) mc::fail("erase return");
              }
              same(a, m, "emptied");
              mc::statei(i, 9);
          },
          [](uint64_t i) { return "size " + std::to_string(i); });
    // every operation on objects of every size, the other one disjoint, overlapping or equal in keys
    dm::add_sizes(e, "every-operation-at-every-size", dm::ladder(th ? 300 : 140, th ? 1u << 13 : 1u << 11), [](size_t n) {
        auto fill = [](size_t from, size_t c, const char* what, object& a, M& m) {
            for (size_t k = from; k < from + c; ++k) {
                S key = dm::key(k * 7919 % 100003), v = what + std::to_string(k);
                a[key] = v;
                m[key] = ref::str(v);
            }
        };
        for (int shape = 0; shape < 6; ++shape) {
            W base;
            size_t na = shape % 3 == 1 ? n / 2 % 5 : n, nb = shape % 3 == 0 ? n / 3 % 4 : n;
            fill(0, na, "a", base.a, base.ma);
            fill(shape < 3 ? na / 2 : 0, nb, "b", base.b, base.mb);
            if (shape >= 3) {
                base.a["a"] = 1;
                base.ma["a"] = ref::num("1");
                base.b["a"] = nullptr;
                base.mb["a"] = ref::null();
            }
            for (auto& o : O) {
                W w = base;
                o.run(w);
                mc::step();
                same(w.a, w.ma, ("A after " + o.name).c_str());
                same(w.b, w.mb, ("B after " + o.name).c_str());
                if (n < 300) cmp(w);
            }
            cmp(base);
            if (n < 5000) same_full(base.a, base.ma, "A");
            auto both = merge(base.ma, base.mb);
            same(base.a | base.b, both, "a | b");
            same(object(base.a) | base.b, both, "copy | b");
            same(base.a | object(base.b), both, "a | copy");
            same(object(base.a) | object(base.b), both, "copy | copy");
            same((value(base.a) | base.b).as_object(), both, "value | object");
            same((value(base.a) | object(base.b)).as_object(), both, "value | copy");
            mc::validated();
        }
    });
    dm::add_sizes(e, "every-size", dm::ladder(th ? 2200 : 530, th ? 1u << 16 : 1u << 13), dm::object_edits);
    e.notes.push_back("operations: " + std::to_string(O.size()));
}
MC_MAIN(setup)
