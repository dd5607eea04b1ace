// C15: equality.
#include "build.hpp"
#include "dims.hpp"
#include "trees.hpp"
using ref::Node;
using S = std::string;

static void check_pair(const json::value& x, const json::value& y, const Node& a, const Node& b)
{
    const bool want = a == b;
    mc::step(4);
    mc::validated();
    if ((x == y) != want) mc::fail("== is " + std::to_string(x == y));
    if ((y == x) != want) mc::fail("reversed == is " + std::to_string(y == x));
    if ((x != y) == want) mc::fail("!= is " + std::to_string(x != y));
    if ((y != x) == want) mc::fail("reversed != is " + std::to_string(y != x));
    if (a.k == ref::Arr && b.k == ref::Arr) {
        const auto &p = x.as_array(), &q = y.as_array();
        if ((p == q) != want || (q == p) != want || (p != q) == want || (q != p) == want) mc::fail("array comparison disagrees");
    }
    if (a.k == ref::Obj && b.k == ref::Obj) {
        const auto &p = x.as_object(), &q = y.as_object();
        if ((p == q) != want || (q == p) != want || (p != q) == want || (q != p) == want) mc::fail("object comparison disagrees");
    }
    mc::outcome(want * 1000 + a.k * 10 + b.k);
}
static void check_kept(const json::value& x, const Node& a)
{
    if (ref::readout(x) != a) mc::fail("comparison changed its operand to " + x.to_string());
}

// All trees that differ from n in one place.
static void mutations(const Node& n, std::vector<Node>& out)
{
    auto leaf = [&](Node x) {
        if (x != n) out.push_back(x);
    };
    leaf(ref::null());
    leaf(ref::boolean(true));
    leaf(ref::num("1"));
    leaf(ref::str(""));
    leaf(ref::arr());
    leaf(ref::obj());
    leaf(ref::arr({ n }));
    if (n.k == ref::Bool) leaf(ref::boolean(n.s != "true")), leaf(ref::str(n.s));
    if (n.k == ref::Num) leaf(ref::str(n.s)), leaf(ref::num(n.s + "0")), leaf(ref::num("-" + n.s));
    if (n.k == ref::Str) leaf(ref::str(n.s + " ")), leaf(ref::str(n.s + std::string(1, '\0'))), leaf(ref::str("A" + n.s));
    if (n.k == ref::Arr) {
        for (size_t i = 0; i < n.a.size(); ++i) {
            std::vector<Node> m;
            mutations(n.a[i], m);
            for (auto& c : m) {
                Node x = n;
                x.a[i] = c;
                out.push_back(x);
            }
            Node x = n;
            x.a.erase(x.a.begin() + i);
            out.push_back(x);
            x = n;
            x.a.insert(x.a.begin() + i, n.a[i]);
            out.push_back(x);
            for (size_t j = 0; j < i; ++j) {
                x = n;
                std::swap(x.a[i], x.a[j]);
                leaf(x);
            }
        }
    }
    if (n.k == ref::Obj) {
        for (auto& [k, e] : n.o) {
            std::vector<Node> m;
            mutations(e, m);
            for (auto& c : m) {
                Node x = n;
                x.o[k] = c;
                out.push_back(x);
            }
            Node x = n;
            x.o.erase(k);
            out.push_back(x);
            Node y = x;
            y.o[k + "~"] = e;
            out.push_back(y);
            y = n;
            y.o[k + std::string(1, '\0')] = e;
            out.push_back(y);
            for (auto& [k2, e2] : n.o) {
                y = n;
                std::swap(y.o[k], y.o[k2]);
                leaf(y);
            }
        }
    }
}

static void setup(mc::Engine& e)
{
    const bool th = mc::thorough();
    static std::vector<Node> leaves = { ref::null(), ref::boolean(true), ref::boolean(false), ref::num("1"), ref::num("1.0"), ref::num("-1"), ref::str(""),
                                        ref::str("1"), ref::str("null"), ref::str(std::string("1\0", 2)) };
    static auto all = tr::flat(tr::trees(th ? 4 : 3, leaves, { "a", "b" }));
    static std::vector<json::value> built;
    for (size_t i = 0; i < all.size(); ++i) built.push_back(bd::by(i % bd::kRoutes, all[i]));
    e.add("all-pairs", all.size(),
          [](uint64_t i) {
              auto x = ref::build(all[i]);
              for (size_t j = 0; j < all.size(); ++j) check_pair(x, built[j], all[i], all[j]);
              mc::state(ref::dump(all[i]));
              check_kept(x, all[i]);
              check_kept(built[i], all[i]);
          },
          [](uint64_t i) { return "against every tree: " + ref::dump(all[i]); });
    static auto routes = tr::flat(tr::trees(th ? 5 : 4, tr::small_leaves(), { "a", "b", "c" }));
    e.add("routes", routes.size(),
          [](uint64_t i) {
              auto& n = routes[i];
              std::vector<json::value> v;
              for (int r = 0; r < bd::kRoutes; ++r) v.push_back(bd::by(r, n));
              if (n.k == ref::Arr || n.k == ref::Obj) {
                  v.push_back(*json::parse(ref::dump(n)));
                  v.push_back(*json::parse(ref::format(n)));
              }
              mc::state(ref::dump(n));
              for (auto& x : v)
                  for (auto& y : v) check_pair(x, y, n, n);
              for (auto& x : v) check_kept(x, n);
          },
          [](uint64_t i) { return ref::dump(routes[i]); });
    static auto base = tr::flat(tr::trees(th ? 6 : 5, { ref::null(), ref::num("0") }, { "a", "b" }));
    e.add("one-change", base.size(),
          [](uint64_t i) {
              std::vector<Node> m;
              mutations(base[i], m);
              auto x = bd::by(i % bd::kRoutes, base[i]);
              check_pair(x, x, base[i], base[i]);
              for (size_t j = 0; j < m.size(); ++j) {
                  auto y = bd::by((i + j) % bd::kRoutes, m[j]);
                  mc::state(mc::hash(ref::dump(m[j]), i));
                  check_pair(x, y, base[i], m[j]);
              }
              check_kept(x, base[i]);
          },
          [](uint64_t i) { return "one change to " + ref::dump(base[i]); });
    static const unsigned N = th ? 300 : 80;
    e.add("long", N * 6,
          [](uint64_t i) {
              mc::Dec d(i);
              unsigned what = d(6), n = d(N) + 1;
              Node x;
              if (what == 0) x = ref::arr(std::vector<Node>(n, ref::null()));
              else if (what == 1 || what == 5) {
                  x = ref::obj();
                  for (unsigned j = 0; j < n; ++j) x.o["k" + std::to_string(j)] = ref::num(what == 1 ? "1" : std::to_string(j));
              }
              else if (what == 2) x = ref::str(std::string(n, '\0'));
              else if (what == 3) x = ref::num(std::string(n, '7'));
              else x = ref::obj({ { std::string(n, 'k'), ref::null() } });
              auto v = bd::by(i % bd::kRoutes, x);
              check_pair(v, ref::build(x), x, x);
              for (unsigned j = 0; j < n; ++j) {
                  Node y = x;
                  if (what == 0) y.a[j] = ref::str("");
                  else if (what == 1) y.o["k" + std::to_string(j)] = ref::str("1");
                  else if (what == 5) {
                      auto it = std::next(y.o.begin(), j);
                      Node c = it->second;
                      std::string k = it->first;
                      y.o.erase(it);
                      y.o[k + "x"] = c;
                  }
                  else if (what == 4) {
                      std::string k(n, 'k');
                      k[j] = 'K';
                      y = ref::obj({ { k, ref::null() } });
                  }
                  else y.s[j] = what == 2 ? '\x80' : '6';
                  mc::state(mc::hash(ref::dump(y), what));
                  check_pair(v, ref::build(y), x, y);
                  y = x;
                  if (what == 0) y.a.resize(j);
                  else if (what == 2) y.s.resize(j);
                  else if (what == 1) y.o.erase("k" + std::to_string(j));
                  else if (what == 3 && j) y.s.resize(j);
                  else continue;
                  check_pair(v, ref::build(y), x, y);
              }
          },
          [](uint64_t i) { return "long case " + std::to_string(i); }, 4);
    static const unsigned D = 200;
    e.add("deep", D * 2,
          [](uint64_t i) {
              unsigned n = i / 2 + 1;
              auto mk = [&](Node x) {
                  for (unsigned j = 0; j < n; ++j) x = i % 2 && j % 2 ? ref::obj({ { "k", x } }) : ref::arr({ x });
                  return x;
              };
              Node l[] = { ref::null(), ref::str(""), ref::arr(), ref::num("1"), ref::str("1") };
              for (auto& a : l)
                  for (auto& b : l) {
                      Node x = mk(a), y = mk(b);
                      mc::state(ref::dump(x));
                      check_pair(ref::build(x), ref::build(y), x, y);
                  }
          },
          [](uint64_t i) { return "depth " + std::to_string(i / 2); }, 8);
    dm::Reach r { th ? 1100u : 270u, th ? 1u << 17 : 1u << 15, th ? 2200u : 530u, th ? 1u << 20 : 1u << 17, th ? 600u : 140u, th ? 1u << 13 : 1u << 11 };
    dm::add_dims(e, "every-size", r, [](const dm::Dim& d, size_t n) {
        if (d.text) return;
        const Node x = d.make(n);
        auto v = ref::build(x);
        check_pair(v, n < 300 ? bd::by(int(n) % bd::kRoutes, x) : ref::build(x), x, x);
        auto against = [&](const Node& y) { check_pair(v, ref::build(y), x, y); };
        Node y;
        for (int how : { 0, 1 })
            if (dm::other(x, y, how)) against(y);
        // one character of the innermost text, one element or one member different, at the start, middle and end
        auto inner = [](Node& t) {
            Node* p = &t;
            while (p->k == ref::Arr && p->a.size() == 1) p = &p->a[0];
            return p;
        };
        y = x;
        Node* p = inner(y);
        const size_t size = p->k == ref::Arr ? p->a.size() : p->k == ref::Obj ? p->o.size() : p->s.size();
        for (size_t at : std::set<size_t> { 0, 1, size / 4, size / 2, size - std::min<size_t>(size, 2), size - std::min<size_t>(size, 1) }) {
            if (at >= size) continue;
            y = x;
            p = inner(y);
            switch (p->k) {
            case ref::Str: p->s[at] ^= 0x80; break;
            case ref::Num:
                if (p->s[at] < '1' || p->s[at] > '8') continue;
                ++p->s[at];
                break;
            case ref::Arr: p->a[at] = p->a[at].k == ref::Arr ? ref::obj() : ref::arr(); break;
            case ref::Obj: std::next(p->o.begin(), long(at))->second = ref::str("other"); break;
            default: continue;
            }
            against(y);
            y = x;
            p = inner(y);
            if (p->k == ref::Str) p->s.erase(at, 1);
            else if (p->k == ref::Arr) p->a.erase(p->a.begin() + long(at));
            else if (p->k == ref::Obj) { // the same members, one under another key
                auto it = std::next(p->o.begin(), long(at));
                Node c = it->second;
                S k = it->first;
                p->o.erase(it);
                against(y);
                k += "~";
                p->o[k] = c;
            }
            else continue;
            against(y);
        }
    });
    e.notes.push_back("Transitivity: the decision of every pair equals structural equality of the abstract trees, which is an equivalence.");
}
MC_MAIN(setup)
