// C13: copies are deep and independent, moves deliver the exact value.
#include "build.hpp"
#include "dims.hpp"
#include "edits.hpp"
#include "trees.hpp"
#include <optional>
#include <tuple>
using ref::Node;
using S = std::string;
using json::array;
using json::object;
using json::value;

// Replaces every node of the value, innermost first, checking after each that `other` still equals `m`.
static void wreck(value& v, const value& other, const Node& m, const S& how)
{
    auto chk = [&](const char* w) {
        auto d = ref::diff(other, m);
        if (!d.empty()) mc::fail(how + ": changing one side (" + w + ") shows in the other: " + d);
    };
    if (v.is_array()) {
        for (size_t i = 0; i < v.as_array().size(); ++i) wreck(v.as_array()[i], other, m, how);
        if (!v.as_array().empty()) {
            v.as_array()[0] = "w";
            chk("element");
        }
        v.as_array().push_back(1);
        chk("append");
        v.as_array().erase(size_t(0));
        chk("erase");
        v.as_array().clear();
        chk("clear");
    }
    else if (v.is_object()) {
        for (auto& [k, e] : v.as_object()) wreck(e, other, m, how);
        v["zz"] = 1;
        chk("member");
        v.as_object().erase(v.as_object().begin()->first);
        chk("erase");
        v.as_object().clear();
        chk("clear");
    }
    v = "wrecked";
    chk("assign");
    mc::step(4);
}
// A source after it was moved from: every observer must work and it must be reusable.
static void usable(value& v)
{
    Node n = ref::readout(v);
    auto d = ref::observe(v, n);
    if (!d.empty()) mc::fail("moved-from value: " + d);
    value c = v;
    if (c != v) mc::fail("copy of a moved-from value differs");
    (void)v.value_info();
    (void)v.type_name();
    value w = std::move(v);
    v = w;
    v.clear();
    v = array { 1 };
    ref::expect_same(v, ref::arr({ ref::num("1") }), "reassigned moved-from value");
    mc::step(5);
}
static void usable(array& a)
{
    value v(a);
    Node n = ref::readout(v);
    if (a.size() != n.a.size() || a.to_string() != ref::dump(n)) mc::fail("moved-from array is inconsistent");
    array b = a;
    if (b != a) mc::fail("copy of a moved-from array differs");
    (void)a.format();
    a.push_back(1);
    a.clear();
    a = { 1, 2 };
    if (a.to_string() != "[1,2]") mc::fail("reassigned moved-from array");
    mc::step(4);
}
static void usable(object& o)
{
    value v(o);
    Node n = ref::readout(v);
    if (o.size() != n.o.size() || o.to_string() != ref::dump(n)) mc::fail("moved-from object is inconsistent");
    object b = o;
    if (b != o) mc::fail("copy of a moved-from object differs");
    (void)o.format();
    o["a"] = 1;
    o.clear();
    o = object { { "q", 2 } };
    if (o.to_string() != "{\"q\":2}") mc::fail("reassigned moved-from object");
    mc::step(4);
}

static constexpr int kCopies = 12;
static value by_value(value v) { return v; }
static value copy_by(int how, const value& s)
{
    switch (how) {
    case 0: return value(s);
    case 1: {
        value v;
        v = s;
        return v;
    }
    case 2: {
        value v = array { 1, object { { "old", "content" } } };
        v = s;
        return v;
    }
    case 3: return by_value(s);
    case 4: {
        std::vector<value> v(3, s);
        v.reserve(100);
        return v[2];
    }
    case 5: {
        array a { s, s };
        return a[1];
    }
    case 6: {
        object o { { "k", s } };
        return std::as_const(o).at("k");
    }
    case 7: {
        value v;
        v["k"] = s;
        return v.at("k");
    }
    case 8: {
        value v;
        v.emplace(s);
        array a = v.as_array();
        array b = a;
        return b[0];
    }
    case 9: {
        if (s.is_array()) {
            array a = s.as_array();
            array b { 9 };
            b = a;
            return b;
        }
        if (s.is_object()) {
            object a = s.as_object();
            object b { { "x", 1 } };
            b = a;
            return b;
        }
        return std::optional<value>(s).value();
    }
    case 10: return std::get<1>(std::tuple<int, value>(std::make_tuple(1, s)));
    default: {
        if (s.is_array()) return value(static_cast<array>(s));
        if (s.is_object()) return value(static_cast<object>(s));
        return s.as<value>();
    }
    }
}
static constexpr int kMoves = 12;
// Moves s away; the result must have its content.
static value move_by(int how, value& s)
{
    switch (how) {
    case 0: return value(std::move(s));
    case 1: {
        value v;
        v = std::move(s);
        return v;
    }
    case 2: {
        value v = array { 1, object { { "old", "content" } } };
        v = std::move(s);
        return v;
    }
    case 3: return by_value(std::move(s));
    case 4: {
        std::vector<value> v;
        v.push_back(std::move(s));
        for (int i = 0; i < 20; ++i) v.emplace_back(i);
        return std::move(v[0]);
    }
    case 5: {
        array a;
        a.emplace_back(std::move(s));
        a.emplace_back(1);
        array b = std::move(a);
        return std::move(b[0]);
    }
    case 6: {
        object o;
        o.emplace("k", std::move(s));
        object p;
        p = std::move(o);
        return std::move(p["k"]);
    }
    case 7: {
        value v;
        v["k"] = std::move(s);
        return std::move(v["k"]);
    }
    case 8: {
        value v;
        std::swap(v, s);
        return v;
    }
    case 9: return std::move(s).as<value>();
    case 10: {
        value t = std::exchange(s, value("replacement"));
        ref::expect_same(s, ref::str("replacement"), "exchanged");
        return t;
    }
    default: {
        if (s.is_array()) {
            array a = std::move(s.as_array());
            usable(s.as_array());
            return a;
        }
        if (s.is_object()) {
            object a = std::move(s.as_object());
            usable(s.as_object());
            return a;
        }
        value t = std::move(s), u = std::move(t);
        return u;
    }
    }
}

// ---- histories over three handles
struct W
{
    value v[3];
    Node m[3];
};
static void sync(W& w, int k) { w.m[k] = ref::readout(w.v[k]); } // moved-from: open content
struct Op
{
    S name;
    std::function<void(W&)> run;
};
static std::vector<Op> ops()
{
    std::vector<Op> r;
    auto add = [&](S n, std::function<void(W&)> f) { r.push_back({ std::move(n), std::move(f) }); };
    for (int a = 0; a < 3; ++a)
        for (int b = 0; b < 3; ++b) {
            S n = S(1, char('X' + a)) + "," + char('X' + b);
            add("copy " + n, [a, b](W& w) { w.v[a] = w.v[b]; w.m[a] = Node(w.m[b]); });
            if (a == b) continue;
            add("move " + n, [a, b](W& w) { w.v[a] = std::move(w.v[b]); w.m[a] = w.m[b]; sync(w, b); });
            if (a < b) add("swap " + n, [a, b](W& w) { std::swap(w.v[a], w.v[b]); std::swap(w.m[a], w.m[b]); });
            if (b == (a + 1) % 3) {
                add("array of copies " + n, [a, b](W& w) { if (ed::places(w.m[b]) > 12) return; w.v[a] = array { w.v[b], w.v[b] }; w.m[a] = ref::arr({ w.m[b], w.m[b] }); });
                add("member copy " + n, [a, b](W& w) { if (!w.m[a].emptyish() && w.m[a].k != ref::Obj) return; if (ed::places(w.m[b]) > 12) return; w.v[a]["k"] = w.v[b]; if (w.m[a].k != ref::Obj) w.m[a] = ref::obj(); w.m[a].o["k"] = Node(w.m[b]); });
                add("append moved " + n, [a, b](W& w) { if (!w.m[a].emptyish() && w.m[a].k != ref::Arr) return; w.v[a].emplace(std::move(w.v[b])); if (w.m[a].k != ref::Arr) w.m[a] = ref::arr(); w.m[a].a.push_back(w.m[b]); sync(w, b); });
                add("member moved " + n, [a, b](W& w) { if (!w.m[a].emptyish() && w.m[a].k != ref::Obj) return; w.v[a]["k"] = std::move(w.v[b]); if (w.m[a].k != ref::Obj) w.m[a] = ref::obj(); w.m[a].o["k"] = w.m[b]; sync(w, b); });
                add("concatenate " + n, [a, b](W& w) { if (w.m[a].k != ref::Arr || w.m[b].k != ref::Arr || ed::places(w.m[b]) > 12) return; w.v[a] += w.v[b].as_array(); for (auto& e : w.m[b].a) w.m[a].a.push_back(e); });
                add("merge " + n, [a, b](W& w) { if (w.m[a].k != ref::Obj || w.m[b].k != ref::Obj) return; w.v[a] |= w.v[b].as_object(); for (auto& [k, e] : w.m[b].o) w.m[a].o[k] = e; });
                add("inner array copy " + n, [a, b](W& w) { if (w.m[b].k != ref::Arr) return; array t = w.v[b].as_array(); t.push_back("t"); w.v[a] = t; w.m[a] = w.m[b]; w.m[a].a.push_back(ref::str("t")); });
                add("inner object copy " + n, [a, b](W& w) { if (w.m[b].k != ref::Obj) return; object t = w.v[b].as_object(); t["t"] = "t"; w.v[a] = t; w.m[a] = w.m[b]; w.m[a].o["t"] = ref::str("t"); });
                add("take the inner array " + n, [a, b](W& w) { if (w.m[b].k != ref::Arr) return; w.v[a] = std::move(w.v[b].as_array()); w.m[a] = w.m[b]; sync(w, b); });
                add("take first part " + n, [a, b](W& w) {
                    if (w.m[b].k == ref::Arr && !w.m[b].a.empty()) { Node t = w.m[b].a[0]; w.v[a] = std::move(w.v[b].as_array()[0]); w.m[a] = t; sync(w, b); }
                    else if (w.m[b].k == ref::Obj && !w.m[b].o.empty()) { Node t = w.m[b].o.begin()->second; w.v[a] = std::move(w.v[b].as_object().begin()->second); w.m[a] = t; sync(w, b); }
                });
            }
        }
    for (int a = 0; a < 3; ++a) {
        S n(1, char('X' + a));
        // change the deepest-first node
        add("deep change " + n, [a](W& w) { size_t last = ed::places(w.m[a]) - 1; auto [pv, pn] = ed::at(w.v[a], w.m[a], last); *pv = 99; *pn = ref::num("99"); });
        add("append " + n, [a](W& w) { if (!w.m[a].emptyish() && w.m[a].k != ref::Arr) return; w.v[a].emplace("e"); if (w.m[a].k != ref::Arr) w.m[a] = ref::arr(); w.m[a].a.push_back(ref::str("e")); });
        add("set member " + n, [a](W& w) { if (!w.m[a].emptyish() && w.m[a].k != ref::Obj) return; w.v[a]["a"] = array { "n" }; if (w.m[a].k != ref::Obj) w.m[a] = ref::obj(); w.m[a].o["a"] = ref::arr({ ref::str("n") }); });
        add("clear " + n, [a](W& w) { w.v[a].clear(); w.m[a] = ref::null(); });
    }
    return r;
}

static void setup(mc::Engine& e)
{
    const bool th = mc::thorough();
    static const auto O = ops();
    static const S longs(40, 'L');
    static auto all = tr::flat(tr::trees(th ? 5 : 4, { ref::null(), ref::num("-12.5"), ref::str("s"), ref::str(longs) }, { "a", longs }));
    e.add("copies", all.size() * kCopies * 2,
          [](uint64_t i) {
              mc::Dec d(i);
              bool side = d(2);
              int how = int(d(kCopies));
              const Node& n = all[d(all.size())];
              value s = ref::build(n);
              S w = "copy form " + std::to_string(how);
              mc::state(ref::dump(n), how * 2 + side);
              {
                  value c = copy_by(how, s);
                  ref::expect_same(s, n, "the copied-from value");
                  ref::expect_same(c, n, "the copy");
                  if (c != s) mc::fail(w + ": not equal to the source");
                  if (side) wreck(c, s, n, w);
                  else wreck(s, c, n, w);
                  if (!side) {
                      s = c;
                      ref::expect_same(s, n, "copied back");
                  }
              } // the copy is destroyed here
              ref::expect(s, n, "the source after the copy is gone");
              mc::validated();
          },
          [](uint64_t i) {
              mc::Dec d(i);
              bool side = d(2);
              int how = int(d(kCopies));
              return "form " + std::to_string(how) + (side ? " change the copy of " : " change the source ") + ref::dump(all[d(all.size())]);
          });
    e.add("moves", all.size() * kMoves,
          [](uint64_t i) {
              int how = int(i % kMoves);
              const Node& n = all[i / kMoves];
              value s = ref::build(n), bystander = s;
              value r = move_by(how, s);
              ref::expect(r, n, "the moved-to value");
              ref::expect_same(bystander, n, "a copy made before the move");
              usable(s);
              ref::expect(r, n, "the moved-to value after the source was reused");
              wreck(r, bystander, n, "move form " + std::to_string(how));
              mc::validated();
              mc::state(ref::dump(n), 100 + how);
          },
          [](uint64_t i) { return "form " + std::to_string(i % kMoves) + " " + ref::dump(all[i / kMoves]); });
    // references, iterators and addresses taken before the copy keep working on their own side only
    static const auto held = tr::flat(tr::trees(th ? 5 : 4, { ref::null(), ref::str(longs) }, { "a", longs }));
    static constexpr int kEdits = 6, kPlaces = 5;
    e.add("held references", held.size() * kPlaces * kEdits * kCopies,
          [](uint64_t i) {
              mc::Dec d(i);
              int how = int(d(kCopies)), edit = int(d(kEdits));
              size_t place = d(kPlaces);
              const Node& n = held[d(held.size())];
              if (place >= ed::places(n)) return;
              Node m = n;
              value s = ref::build(n);
              auto [pv, pn] = ed::at(s, m, place);
              const Node before = *pn;
              array* pa = pv->is_array() ? &pv->as_array() : nullptr;
              object* po = pv->is_object() ? &pv->as_object() : nullptr;
              const array* ca = pa ? &std::as_const(*pv).as_array() : nullptr;
              const object* co = po ? &std::as_const(*pv).as_object() : nullptr;
              array::iterator ia;
              object::iterator io;
              value* pe = nullptr;
              if (pa && !pa->empty()) ia = pa->begin(), pe = &(*pa)[0];
              if (po && !po->empty()) io = po->begin(), pe = &io->second;
              const S w = "copy form " + std::to_string(how);
              value c = copy_by(how, s);
              mc::state(ref::dump(n), (how * kEdits + edit) * kPlaces + place);
              switch (edit) {
              case 0: // through the reference to the node
                  *pv = "held";
                  *pn = ref::str("held");
                  break;
              case 1: // through the reference to the container
                  if (pa) pa->push_back("held"), pn->a.push_back(ref::str("held"));
                  else if (po) po->emplace("held", 1), pn->o["held"] = ref::num("1");
                  break;
              case 2: // through an iterator
                  if (pa && pe) *ia = "held", pn->a[0] = ref::str("held");
                  else if (po && pe) io->second = "held", pn->o.begin()->second = ref::str("held");
                  break;
              case 3: // through the reference to an element
                  if (pa && pe) pe->clear(), pn->a[0] = ref::null();
                  else if (po && pe) pe->clear(), pn->o.begin()->second = ref::null();
                  break;
              case 4:
                  if (pa && pe) pa->erase(ia), pn->a.erase(pn->a.begin());
                  else if (po && pe) po->erase(io), pn->o.erase(pn->o.begin());
                  break;
              case 5: { // the copy is changed: what is read through the references stays
                  wreck(c, s, n, w);
                  auto x = ref::diff(*pv, before);
                  if (!x.empty()) mc::fail(w + ": a held reference reads differently: " + x);
                  if (ca && ca->size() != before.a.size()) mc::fail(w + ": a held array reads differently");
                  if (co && co->size() != before.o.size()) mc::fail(w + ": a held object reads differently");
                  size_t k = 0;
                  if (ca)
                      for (const auto& v : *ca) ref::expect_same(v, before.a[k++], "element of a held array");
                  if (co)
                      for (const auto& [key, v] : *co) ref::expect_same(v, before.o.at(key), "member of a held object");
                  if (pa) pa->push_back("held"), pn->a.push_back(ref::str("held"));
                  else if (po) po->emplace("held", 1), pn->o["held"] = ref::num("1");
                  c = ref::build(n);
                  break;
              }
              }
              mc::step();
              ref::expect_same(s, m, "the value edited through a reference held since before the copy");
              ref::expect_same(c, n, "the copy");
              mc::validated();
          },
          [](uint64_t i) {
              mc::Dec d(i);
              auto how = d(kCopies), edit = d(kEdits), place = d(kPlaces);
              return "form " + std::to_string(how) + " edit " + std::to_string(edit) + " through a reference to place " + std::to_string(place) + " of " + ref::dump(held[d(held.size())]);
          });
    // arrays and objects by themselves
    e.add("containers", all.size() * 6,
          [](uint64_t i) {
              const Node& n = all[i / 6];
              value s = ref::build(n);
              auto go = [&](auto& c) {
                  using C = std::decay_t<decltype(c)>;
                  C x = c;
                  switch (i % 6) {
                  case 0: {
                      C y = std::move(c);
                      ref::expect_same(value(y), n, "move construction");
                      usable(c);
                      break;
                  }
                  case 1: {
                      C y = x;
                      y = std::move(c);
                      ref::expect_same(value(y), n, "move assignment");
                      usable(c);
                      break;
                  }
                  case 2: {
                      C y;
                      y = c;
                      y = y;
                      ref::expect_same(value(y), n, "copy and self assignment");
                      ref::expect_same(s, n, "source");
                      break;
                  }
                  case 3: {
                      C y;
                      std::swap(y, c);
                      ref::expect_same(value(y), n, "swap");
                      if (!c.empty()) mc::fail("swap with an empty container");
                      break;
                  }
                  case 4: {
                      value v(std::move(c));
                      ref::expect_same(v, n, "value from moved container");
                      usable(c);
                      break;
                  }
                  case 5: {
                      value v(c);
                      value w = v;
                      wreck(v, s, n, "value from container");
                      ref::expect_same(w, n, "second copy");
                      break;
                  }
                  }
                  ref::expect_same(value(x), n, "bystander copy");
              };
              if (n.k == ref::Arr) go(s.as_array());
              else if (n.k == ref::Obj) go(s.as_object());
              mc::validated();
          },
          [](uint64_t i) { return "form " + std::to_string(i % 6) + " " + ref::dump(all[i / 6]); });
    static const std::vector<std::array<Node, 3>> roots = {
        { ref::arr({ ref::num("1"), ref::obj({ { "a", ref::str(longs) } }) }), ref::obj({ { "a", ref::arr({ ref::null() }) }, { "k", ref::str("v") } }), ref::null() },
        { ref::str(longs), ref::arr(), ref::arr({ ref::arr({ ref::str("d") }) }) },
    };
    auto hist = [&e](S name, unsigned depth) {
        e.add(
            name, roots.size() * mc::ipow(O.size(), depth),
            [depth](uint64_t i) {
                mc::Dec d(i);
                auto& r = roots[d(roots.size())];
                W w;
                for (int k = 0; k < 3; ++k) {
                    w.m[k] = r[k];
                    w.v[k] = ref::build(r[k]);
                }
                for (unsigned k = 0; k < depth; ++k) {
                    auto& o = O[d(O.size())];
                    o.run(w);
                    mc::step();
                    for (int h = 0; h < 3; ++h) {
                        auto x = ref::diff(w.v[h], w.m[h]);
                        if (!x.empty()) mc::fail(S(1, char('X' + h)) + " after " + o.name + ": " + x);
                    }
                }
                S s;
                for (int h = 0; h < 3; ++h) s += ref::dump(w.m[h]) + ";";
                mc::state(s);
                mc::outcome(s);
                mc::validated();
            },
            [depth](uint64_t i) {
                mc::Dec d(i);
                S s = "roots " + std::to_string(d(roots.size()));
                for (unsigned k = 0; k < depth; ++k) s += "; " + O[d(O.size())].name;
                return s;
            });
    };
    hist("histories-2", 2);
    hist("histories-3", 3);
#ifndef MC_ASAN
    if (th) hist("histories-4", 4);
#endif
    static const unsigned N = th ? 3000 : 500;
    e.add("big", N * 3,
          [](uint64_t i) {
              unsigned n = i / 3;
              Node x = ref::arr();
              if (i % 3 == 0) x.a.assign(n, ref::arr({ ref::str("e") }));
              else if (i % 3 == 1) {
                  x = ref::obj();
                  for (unsigned k = 0; k < n; ++k) x.o[std::to_string(k)] = ref::num("1");
              }
              else
                  for (unsigned k = 0; k < n; ++k) x = k % 2 ? ref::arr({ x, ref::num("1") }) : ref::obj({ { "k", x } });
              value s = ref::build(x), c = s, m = std::move(s);
              ref::expect_same(c, x, "copy");
              ref::expect_same(m, x, "moved");
              usable(s);
              m.clear();
              ref::expect_same(c, x, "copy after clearing");
              mc::statei(i, 5);
          },
          [](uint64_t i) { return "size " + std::to_string(i / 3); }, 4);
    // copies and moves of every size, changed in their first, middle and last parts
    dm::Reach r { th ? 600u : 140u, th ? 1u << 16 : 1u << 13, th ? 600u : 140u, th ? 1u << 18 : 1u << 16, th ? 300u : 70u, th ? 1u << 12 : 1u << 10 };
    dm::add_dims(e, "every-size", r, [](const dm::Dim& d, size_t n) {
        if (d.text) return;
        const Node x = d.make(n);
        value s = ref::build(x);
        auto poke = [](value& v, size_t where) { // changes one part, far inside
            value* p = &v;
            for (;;) {
                if (p->is_array() && !p->as_array().empty()) p = &(*p)[where % p->as_array().size()];
                else if (p->is_object() && !p->as_object().empty()) p = &std::next(p->as_object().begin(), long(where % p->as_object().size()))->second;
                else break;
            }
            if (p->is_array()) p->emplace("poked");
            else *p = "poked";
        };
        for (int how = 0; how < kCopies; ++how) {
            value c = copy_by(how, s);
            ref::expect_same(c, x, "the copy");
            for (size_t at : { size_t(0), n / 2, n ? n - 1 : 0 }) {
                value k = copy_by(how, c);
                poke(k, at);
                ref::expect_same(c, x, "the source of a copy that was changed");
                if (k == c) mc::fail("a changed copy is equal to its source");
            }
            poke(c, n / 3);
            if (c.is_array()) c.as_array().clear();
            if (c.is_object()) c.as_object().clear();
            ref::expect_same(s, x, "the source of a copy that was cleared");
            poke(s, n ? n - 1 : 0);
            s = ref::build(x);
        }
        for (int how = 0; how < kMoves; ++how) {
            value t = s, m = move_by(how, t);
            ref::expect_same(m, x, "the moved-to value");
            usable(t);
            ref::expect_same(m, x, "the moved-to value after the source was reused");
        }
        ref::expect_same(s, x, "the source of all copies");
        mc::validated();
    });
    e.notes.push_back("operations: " + std::to_string(O.size()));
}
MC_MAIN(setup)
