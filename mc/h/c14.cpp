// C14: edits whose argument is a part of the edited value, the value itself or (for copies) an ancestor of it.
#include "dims.hpp"
#include "edits.hpp"
#include "trees.hpp"
#ifndef MC_ASAN
#include "alloc.hpp"
#endif
using ref::Node;
using S = std::string;
using json::array;
using json::object;
using json::value;

static const Node kAny = ref::str("\x7f" "ANY"); // content left open (moved from)

static S diffw(const value& v, const Node& n, const S& at = "$")
{
    if (n == kAny) {
        Node r = ref::readout(v);
        return ref::diff(v, r, at);
    }
    if (n.k == ref::Arr) {
        if (!v.is_array() || v.as_array().size() != n.a.size()) return at + ": not an array of " + std::to_string(n.a.size()) + " but " + v.to_string();
        for (size_t i = 0; i < n.a.size(); ++i) {
            auto d = diffw(v.as_array()[i], n.a[i], at + "[" + std::to_string(i) + "]");
            if (!d.empty()) return d;
        }
        return "";
    }
    if (n.k == ref::Obj) {
        if (!v.is_object() || v.as_object().size() != n.o.size()) return at + ": not an object of " + std::to_string(n.o.size()) + " but " + v.to_string();
        for (auto& [k, e] : n.o) {
            auto p = v.find_value(k);
            if (!p) return at + ": no member " + k;
            auto d = diffw(*p, e, at + "." + k);
            if (!d.empty()) return d;
        }
        return "";
    }
    return ref::diff(v, n, at);
}

struct Op
{
    S name;
    bool moves; // leaves the source open; a source that contains the destination is then not a valid request
    bool self;  // meaningful when source and destination are the same place
    std::function<bool(const Node& d, const Node& s)> ok;
    std::function<void(value& d, value& s)> impl;
    std::function<void(Node& d, const Node& s)> model;
};
static bool yes(const Node&, const Node&) { return true; }
static bool arrish(const Node& d, const Node&) { return d.emptyish() || d.k == ref::Arr; }
static bool objish(const Node& d, const Node&) { return d.emptyish() || d.k == ref::Obj; }
static bool bothArr(const Node& d, const Node& s) { return d.k == ref::Arr && s.k == ref::Arr; }
static bool bothObj(const Node& d, const Node& s) { return d.k == ref::Obj && s.k == ref::Obj; }
static bool srcArr(const Node&, const Node& s) { return s.k == ref::Arr; }
static bool srcObj(const Node&, const Node& s) { return s.k == ref::Obj; }
static bool isArr(const Node& d, const Node&) { return d.k == ref::Arr; }
static bool isObj(const Node& d, const Node&) { return d.k == ref::Obj; }
static void cat(Node& d, const Node& s)
{
    if (d.k != ref::Arr) d = ref::arr();
    d.a.insert(d.a.end(), s.a.begin(), s.a.end());
}
static void mrg(Node& d, const Node& s)
{
    if (d.k != ref::Obj) d = ref::obj();
    for (auto& [k, e] : s.o) d.o[k] = e;
}
static void app(Node& d, const Node& s)
{
    if (d.k != ref::Arr) d = ref::arr();
    d.a.push_back(s);
}
static std::vector<Op> ops()
{
    std::vector<Op> r;
    auto add = [&](S n, bool moves, bool self, auto ok, auto i, auto m) { r.push_back({ std::move(n), moves, self, ok, i, m }); };
    auto copy = [](Node& d, const Node& s) { d = s; };
    add("d = s", false, true, yes, [](value& d, value& s) { d = s; }, copy);
    add("d = const s", false, true, yes, [](value& d, value& s) { d = std::as_const(s); }, copy);
    add("d = value(s)", false, true, yes, [](value& d, value& s) { d = value(s); }, copy);
    add("d = move(s)", true, true, yes, [](value& d, value& s) { d = std::move(s); }, copy);
    add("d.emplace(s)", false, true, arrish, [](value& d, value& s) { d.emplace(s); }, app);
    add("d.emplace(move(s))", true, false, arrish, [](value& d, value& s) { d.emplace(std::move(s)); }, app);
    add("d.as_array().push_back(s)", false, true, isArr, [](value& d, value& s) { d.as_array().push_back(s); }, app);
    add("d.as_array().emplace_back(move(s))", true, false, isArr, [](value& d, value& s) { d.as_array().emplace_back(std::move(s)); }, app);
    for (S k : { S("a"), S("new") }) {
        auto put = [k](Node& d, const Node& s) {
            if (d.k != ref::Obj) d = ref::obj();
            d.o[k] = s;
        };
        add("d.emplace(" + k + ", s)", false, true, objish, [k](value& d, value& s) { d.emplace(k, s); }, put);
        add("d.as_object().insert(" + k + ", s)", false, true, isObj, [k](value& d, value& s) { d.as_object().insert(k, s); }, put);
        add("d.emplace(" + k + ", move(s))", true, false, objish, [k](value& d, value& s) { d.emplace(k, std::move(s)); }, put);
        add("d |= {" + k + ": s}", false, true, isObj, [k](value& d, value& s) { d |= object { { k, s } }; }, put);
        add("d = {" + k + ": s} over d", false, true, isObj, [k](value& d, value& s) { d = d | object { { k, s } }; }, put);
    }
    add("d += s.as_array()", false, true, bothArr, [](value& d, value& s) { d += s.as_array(); }, cat);
    add("d.as_array() += s.as_array()", false, true, bothArr, [](value& d, value& s) { d.as_array() += s.as_array(); }, cat);
    add("d += move(s.as_array())", true, false, bothArr, [](value& d, value& s) { d += std::move(s.as_array()); }, cat);
    add("d = d + s.as_array()", false, true, bothArr, [](value& d, value& s) { d = d + s.as_array(); }, cat);
    add("d.as_array() = d.as_array() + s.as_array()", false, true, bothArr, [](value& d, value& s) { d.as_array() = d.as_array() + s.as_array(); }, cat);
    add("d = move(d) + s.as_array()", false, false, bothArr, [](value& d, value& s) { d = std::move(d) + s.as_array(); }, cat);
    add("d |= s.as_object()", false, true, bothObj, [](value& d, value& s) { d |= s.as_object(); }, mrg);
    add("d.as_object() |= s.as_object()", false, true, bothObj, [](value& d, value& s) { d.as_object() |= s.as_object(); }, mrg);
    add("d |= move(s.as_object())", true, true, bothObj, [](value& d, value& s) { d |= std::move(s.as_object()); }, mrg);
    add("d = d | s.as_object()", false, true, bothObj, [](value& d, value& s) { d = d | s.as_object(); }, mrg);
    add("d.as_object() = d.as_object() | s.as_object()", false, true, bothObj, [](value& d, value& s) { d.as_object() = d.as_object() | s.as_object(); }, mrg);
    add("d = move(d) | s.as_object()", false, false, bothObj, [](value& d, value& s) { d = std::move(d) | s.as_object(); }, mrg);
    add("d = s.as_array()", false, true, srcArr, [](value& d, value& s) { d = s.as_array(); }, copy);
    add("d = move(s.as_array())", true, true, srcArr, [](value& d, value& s) { d = std::move(s.as_array()); }, copy);
    add("d.as_array() = s.as_array()", false, true, bothArr, [](value& d, value& s) { d.as_array() = s.as_array(); }, copy);
    add("d.as_array() = move(s.as_array())", true, true, bothArr, [](value& d, value& s) { d.as_array() = std::move(s.as_array()); }, copy);
    add("d = s.as_object()", false, true, srcObj, [](value& d, value& s) { d = s.as_object(); }, copy);
    add("d = move(s.as_object())", true, true, srcObj, [](value& d, value& s) { d = std::move(s.as_object()); }, copy);
    add("d.as_object() = s.as_object()", false, true, bothObj, [](value& d, value& s) { d.as_object() = s.as_object(); }, copy);
    add("d.as_object() = move(s.as_object())", true, true, bothObj, [](value& d, value& s) { d.as_object() = std::move(s.as_object()); }, copy);
    add("d = [s, d, s]", false, true, yes, [](value& d, value& s) { d = array { s, d, s }; }, [](Node& d, const Node& s) { d = ref::arr({ s, d, s }); });
    add("d = {a: s, b: d}", false, true, yes, [](value& d, value& s) { d = object { { "a", s }, { "b", d } }; }, [](Node& d, const Node& s) { Node n = ref::obj({ { "a", s }, { "b", d } }); d = n; });
    add("d = vector{d, s}", false, true, yes, [](value& d, value& s) { d = value(std::vector<value> { d, s }); }, [](Node& d, const Node& s) { Node n = ref::arr({ d, s }); d = n; });
    add("d = d.get(a, s)", false, true, isObj, [](value& d, value& s) { d = d.get("a", s); }, [](Node& d, const Node& s) { auto it = d.o.find("a"); Node n = it == d.o.end() ? s : it->second; d = n; });
    add("d = *d.find(0)", false, true, isArr, [](value& d, value&) { if (auto f = d.find(size_t(0))) d = *f; }, [](Node& d, const Node&) { if (!d.a.empty()) { Node n = d.a[0]; d = n; } });
    add("d = d.as_array()[last]", false, true, isArr, [](value& d, value&) { if (!d.empty()) d = d.as_array()[d.as_array().size() - 1]; }, [](Node& d, const Node&) { if (!d.a.empty()) { Node n = d.a.back(); d = n; } });
    add("d.erase(first key, by reference)", false, true, isObj, [](value& d, value&) { auto& o = d.as_object(); if (!o.empty()) o.erase(o.begin()->first); }, [](Node& d, const Node&) { if (!d.o.empty()) d.o.erase(d.o.begin()); });
    add("d[first key, by reference] = s", false, true, [](const Node& d, const Node&) { return d.k == ref::Obj && !d.o.empty(); }, [](value& d, value& s) { auto& o = d.as_object(); o.emplace(o.begin()->first, s); }, [](Node& d, const Node& s) { d.o.begin()->second = s; });
    add("rebuild from own iterators", false, true, isArr, [](value& d, value& s) { std::vector<value> v(d.as_array().begin(), d.as_array().end()); v.push_back(s); d.as_array() = array(v); }, app);
    return r;
}

static const std::vector<Op>& O()
{
    static const auto o = ops();
    return o;
}

// Is place s an ancestor of (or the same as) place d?  Preorder index + subtree size.
static Node* nth(Node& n, size_t& i)
{
    if (i == 0) return &n;
    --i;
    for (auto& e : n.a)
        if (auto p = nth(e, i)) return p;
    for (auto& [k, e] : n.o)
        if (auto p = nth(e, i)) return p;
    return nullptr;
}

static bool run(const Node& tree, size_t dp, size_t sp, const Op& o)
{
    Node n = tree;
    size_t i = dp, j = sp;
    Node *dn = nth(n, i), *sn = nth(n, j);
    if (!dn || !sn) return false;
    size_t ssz = ed::places(*sn);
    bool contains = sp <= dp && dp < sp + ssz; // source contains (or is) destination
    if (dp == sp && !o.self) return false;
    if (o.moves && contains && dp != sp) return false;
    if (!o.ok(*dn, *sn)) return false;
    value v = ref::build(tree);
    Node scratch = tree;
    value* dv = ed::at(v, scratch, dp).first;
    scratch = tree;
    value* sv = ed::at(v, scratch, sp).first;
    value bystander = v;
    Node arg = *sn;
    if (o.moves && dp != sp) *sn = kAny;
    o.model(*dn, arg);
    mc::step();
    o.impl(*dv, *sv);
    auto d = diffw(v, n);
    if (!d.empty()) mc::fail(o.name + ": " + d + "; tree is now " + v.to_string());
    d = ref::diff(bystander, tree);
    if (!d.empty()) mc::fail(o.name + " changed another value: " + d);
    mc::validated();
    Node now = ref::readout(v);
    ref::expect_same(v, now, "final tree");
    mc::state(ref::dump(now), dp * 16 + sp);
    mc::outcome(ref::dump(now));
    v.clear();
    return true;
}
// Twice: the second run must leave exactly as many live blocks as it found (nothing leaked, nothing freed twice).
static void twice(const std::function<bool()>& f, const S& name)
{
    if (!f()) return;
#ifndef MC_ASAN
    long before = al::live;
    f();
    if (al::live != before) before = al::live, f(); // a cache may be filled once; a leak is there each time
    if (al::live != before) mc::fail(name + ": " + std::to_string(al::live - before) + " blocks lost");
#endif
}

static void setup(mc::Engine& e)
{
    const bool th = mc::thorough();
    static const S longs(40, 'L');
    static auto all = tr::flat(tr::trees(th ? 6 : 5, { ref::str(longs) }, { "a", "b" }));
    static auto low = tr::flat(tr::trees(th ? 5 : 4, { ref::null(), ref::num("1"), ref::str("") , ref::str(longs) }, { "a", "b" }));
    static constexpr unsigned PL = 6;
    auto space = [&e](S name, const std::vector<Node>& T, unsigned pl) {
        e.add(
            name, T.size() * pl * pl * O().size(),
            [&T, pl](uint64_t i) {
                mc::Dec d(i);
                auto& o = O()[d(O().size())];
                size_t dp = d(pl), sp = d(pl);
                auto& t = T[d(T.size())];
                twice([&] { return run(t, dp, sp, o); }, o.name);
            },
            [&T, pl](uint64_t i) {
                mc::Dec d(i);
                auto& o = O()[d(O().size())];
                size_t dp = d(pl), sp = d(pl);
                return o.name + " with d=place " + std::to_string(dp) + " s=place " + std::to_string(sp) + " of " + ref::dump(T[d(T.size())]);
            });
    };
    space("all-pairs", all, PL);
    space("all-pairs-leaves", low, 5);
    // every array length (vector capacity boundaries), every source position
    static const unsigned N = th ? 260 : 70;
    e.add("lengths", N * N * 5,
          [](uint64_t i) {
              mc::Dec d(i);
              unsigned form = d(5), n = d(N) + 1, p = d(N);
              if (p >= n) return;
              twice(
                  [&] {
                      array a;
                      Node m = ref::arr();
                      for (unsigned k = 0; k < n; ++k) {
                          a.push_back(array { int(k), longs });
                          m.a.push_back(ref::arr({ ref::num(std::to_string(k)), ref::str(longs) }));
                      }
                      value w;
                      Node x = m.a[p];
                      switch (form) {
                      case 0:
                          a.push_back(a[p]);
                          m.a.push_back(x);
                          break;
                      case 1:
                          a.emplace_back(std::move(a[p]));
                          m.a[p] = kAny;
                          m.a.push_back(x);
                          break;
                      case 2:
                          a += a[p].as_array();
                          cat(m, x);
                          break;
                      case 3:
                          a += a;
                          cat(m, Node(m));
                          break;
                      case 4:
                          a[n - 1 - p] = a[p];
                          m.a[n - 1 - p] = x;
                          break;
                      }
                      mc::step();
                      w = std::move(a);
                      auto df = diffw(w, m);
                      if (!df.empty()) mc::fail(df);
                      w.clear();
                      a = array();
                      return true;
                  },
                  "array of " + std::to_string(n));
              mc::statei(i, 3);
              mc::validated();
          },
          [](uint64_t i) {
              mc::Dec d(i);
              unsigned form = d(5), n = d(N) + 1;
              return "form " + std::to_string(form) + " length " + std::to_string(n) + " position " + std::to_string(d(N));
          });
    // every size: a part of a large value, or the whole of it, becomes part of the same value or replaces it
#ifdef MC_ASAN
    auto L = dm::ladder(140, 1u << 10);
#else
    auto L = dm::ladder(th ? 1100 : 300, th ? 1u << 15 : 1u << 12);
#endif
    dm::add_sizes(e, "every-size", L, [](size_t n) {
        if (!n) return;
        for (int shape = 0; shape < 4; ++shape) {
            Node m = shape == 1 ? ref::obj() : ref::arr(), inner;
            if (shape == 0)
                for (size_t k = 0; k < n; ++k) m.a.push_back(ref::arr({ ref::num(std::to_string(k)), ref::str(longs) }));
            else if (shape == 1)
                for (size_t k = 0; k < n; ++k) m.o[dm::key(k)] = ref::obj({ { "a", ref::num(std::to_string(k)) }, { dm::key(k / 2), ref::str(longs) } });
            else if (shape == 2) { // one large part in a small whole
                inner = ref::arr();
                for (size_t k = 0; k < n; ++k) inner.a.push_back(ref::num(std::to_string(k)));
                m.a = { ref::null(), inner, ref::obj({ { "k", inner } }) };
            }
            else {
                inner = ref::str(S(n, 'i'));
                m.a = { inner, ref::arr({ inner }), ref::obj({ { S(n, 'k'), inner } }) };
            }
            for (size_t p : { size_t(0), size_t(1), n / 2, n - 1 }) {
                size_t size = m.k == ref::Arr ? m.a.size() : m.o.size();
                if (p >= size) continue;
                auto mpart = [&](Node& x) -> Node& { return x.k == ref::Arr ? x.a[p] : std::next(x.o.begin(), long(p))->second; };
                auto vpart = [&](value& v) -> value& { return v.is_array() ? v.as_array()[p] : std::next(v.as_object().begin(), long(p))->second; };
                for (int form = 0; form < 12; ++form)
                    twice(
                        [&] {
                            value v = ref::build(m);
                            const value keep = v;
                            Node x = m, part = mpart(x);
                            const bool arr = m.k == ref::Arr;
                            switch (form) {
                            case 0:
                                v = vpart(v);
                                x = part;
                                break;
                            case 1:
                                v = std::move(vpart(v));
                                x = part;
                                break;
                            case 2:
                                vpart(v) = v;
                                mpart(x) = m;
                                break;
                            case 3:
                                if (arr) v.emplace(v), x.a.push_back(m);
                                else v.emplace("new", v), x.o["new"] = m;
                                break;
                            case 4:
                                if (arr) v.emplace(vpart(v)), x.a.push_back(part);
                                else v.emplace("new", vpart(v)), x.o["new"] = part;
                                break;
                            case 5:
                                if (arr) v += v.as_array(), x.a.insert(x.a.end(), m.a.begin(), m.a.end());
                                else v |= v.as_object();
                                break;
                            case 6:
                                if (part.k != m.k) return false;
                                if (arr) v += vpart(v).as_array(), x.a.insert(x.a.end(), part.a.begin(), part.a.end());
                                else {
                                    v |= vpart(v).as_object();
                                    for (auto& [k, q] : part.o) x.o[k] = q;
                                }
                                break;
                            case 7:
                                if (part.k != m.k) return false;
                                if (arr) v.as_array() = vpart(v).as_array();
                                else v.as_object() = vpart(v).as_object();
                                x = part;
                                break;
                            case 8:
                                if (part.k != m.k) return false;
                                if (arr) v.as_array() = std::move(vpart(v).as_array());
                                else v.as_object() = std::move(vpart(v).as_object());
                                x = part;
                                break;
                            case 9:
                                if (arr) v.as_array().push_back(v.as_array()), x.a.push_back(m);
                                else v.as_object().insert("new", v.as_object()), x.o["new"] = m;
                                break;
                            case 10:
                                v = json::array { v, vpart(v) };
                                x = ref::arr({ m, part });
                                break;
                            case 11: {
                                value w = std::move(vpart(v));
                                vpart(v) = std::move(w);
                                break;
                            }
                            }
                            mc::step();
                            auto df = ref::diff(v, x);
                            if (!df.empty()) mc::fail("form " + std::to_string(form) + ": " + df);
                            df = ref::diff(keep, m);
                            if (!df.empty()) mc::fail("form " + std::to_string(form) + " changed another value: " + df);
                            v.clear();
                            return true;
                        },
                        "form " + std::to_string(form));
            }
            mc::validated();
        }
    });
    e.notes.push_back("operations: " + std::to_string(O().size()) + ", trees: " + std::to_string(all.size()) + " and " + std::to_string(low.size()));
}
MC_MAIN(setup)
