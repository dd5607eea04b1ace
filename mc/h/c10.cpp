// C10: any sequence of edits anywhere in a value tree behaves like the abstract tree.
#include "build.hpp"
#include "dims.hpp"
#include "edits.hpp"
#include "spaces.hpp"
#include "trees.hpp"
using ref::Node;

static void apply(json::value& v, Node& n, size_t p, const ed::Edit& e, bool full)
{
    auto [pv, pn] = ed::at(v, n, p);
    mc::step();
    Node before = *pn;
    auto want = ed::run_model(e.model, *pn);
    auto got = ed::run_impl(e.impl, *pv);
    if (got != want) mc::fail(e.name + " on " + ref::dump(before) + " returned " + mc::show(got) + ", expected " + mc::show(want));
    auto d = full ? ref::observe(v, n) : ref::diff(v, n);
    if (!d.empty()) mc::fail("after " + e.name + " on " + ref::dump(before) + ": " + d);
    mc::state(ref::dump(n));
}

static void setup(mc::Engine& e)
{
    const bool th = mc::thorough();
    static const auto E = ed::edits(), F = ed::edits(true);
    static auto all = tr::flat(tr::trees(th ? 5 : 4, tr::small_leaves(), { "", "a" }));
    static auto low = tr::flat(tr::trees(3, tr::small_leaves(), { "", "a", std::string("b\0", 2) }));

    // every reachable small tree x place x edit
    e.add("every-edit-everywhere", all.size() * 4 * E.size(),
          [](uint64_t i) {
              mc::Dec d(i);
              auto& x = E[d(E.size())];
              size_t p = d(4);
              Node n = all[d(all.size())];
              if (p >= ed::places(n)) return;
              json::value v = ref::build(n);
              json::value copy = v;
              Node was = n;
              apply(v, n, p, x, true);
              ref::expect_same(copy, was, "a copy taken before the edit");
              mc::validated();
              mc::outcome(ref::dump(n));
          },
          [](uint64_t i) {
              mc::Dec d(i);
              auto& x = E[d(E.size())];
              size_t p = d(4);
              return x.name + " at place " + std::to_string(p) + " of " + ref::dump(all[d(all.size())]);
          });
    // the same on values that came to be by other routes, followed by a second edit
    e.add("routes", low.size() * 3 * E.size() * (bd::kRoutes + 1),
          [](uint64_t i) {
              mc::Dec d(i);
              unsigned r = d(bd::kRoutes + 1);
              auto& x = E[d(E.size())];
              size_t p = d(3);
              Node n = low[d(low.size())];
              if (p >= ed::places(n)) return;
              json::value v;
              if (r < bd::kRoutes) v = bd::by(int(r), n);
              else {
                  auto q = json::parse("[" + ref::dump(n) + "]");
                  v = std::move(q->as_array()[0]);
              }
              apply(v, n, p, x, false);
              apply(v, n, 0, F[i % F.size()], true);
              mc::validated();
          },
          [](uint64_t i) {
              mc::Dec d(i);
              unsigned r = d(bd::kRoutes + 1);
              auto& x = E[d(E.size())];
              size_t p = d(3);
              return "route " + std::to_string(r) + ": " + x.name + " at place " + std::to_string(p) + " of " + ref::dump(low[d(low.size())]);
          });
    // every edit of every short scalar: as the value itself, as an element, as a member
    static std::vector<Node> scalars;
    {
        auto sp = sp::words("n", sp::chars("012-.eE+"), th ? 5 : 4);
        for (uint64_t i = 0; i < sp.count; ++i) {
            auto t = sp.text(i);
            auto p = ref::parse("[" + t + "]");
            if (p && p->a.size() == 1 && p->a[0].k == ref::Num) scalars.push_back(p->a[0]);
        }
        for (int i = 0; i < 256; ++i) scalars.push_back(ref::str(std::string(1, char(i))));
        for (const char* w : { "null", "true", "false", "{}", "[]", "0", "  ", "\"\"", "-0", "nan", "invalid" }) scalars.push_back(ref::str(w));
        scalars.push_back(ref::boolean(false));
        scalars.push_back(ref::boolean(true));
    }
    e.add(
        "every-edit-of-every-scalar", scalars.size() * E.size() * 3,
        [](uint64_t i) {
            mc::Dec d(i);
            auto& x = E[d(E.size())];
            const auto where = d(3);
            const Node& s = scalars[d(scalars.size())];
            Node n = where == 0 ? s : where == 1 ? ref::arr({ s, ref::num("1") }) : ref::obj({ { "a", s }, { "b", ref::null() } });
            json::value v = ref::build(n);
            apply(v, n, where ? 1 : 0, x, true);
            if (where == 0) {
                Node m = ref::arr({ s });
                json::value w = json::parse(ref::dump(m))->as_array()[0];
                m = s;
                apply(w, m, 0, x, true);
            }
            mc::validated();
        },
        [](uint64_t i) {
            mc::Dec d(i);
            auto& x = E[d(E.size())];
            const auto where = d(3);
            return x.name + " of " + ref::dump(scalars[d(scalars.size())]) + (where == 0 ? "" : where == 1 ? " as an element" : " as a member");
        });
    // every edit of values of every size: the value itself, a value it holds, a value inside another
    dm::add_sizes(e, "every-edit-at-every-size", dm::ladder(th ? 140 : 30, th ? 16384 : 1024), [](size_t n) {
        std::vector<Node> w;
        for (size_t k : { 0, 2, 5 })
            for (size_t c : { 0, 1 }) {
                Node x = dm::mixed(n, k)[c];
                w.push_back(x);
                if (x.k == ref::Arr) x.a.insert(x.a.begin(), ref::obj({ { "a", ref::num("1") } }));
                else x.o["a"] = ref::arr({ ref::num("1") });
                w.push_back(x);
                if (k == 0) w.push_back(ref::obj({ { "a", std::move(x) } }));
            }
        w.push_back(ref::str(std::string(n, 'x')));
        w.push_back(dm::nest(std::min<size_t>(n, 300), 2));
        for (auto& t : w)
            for (auto& x : E)
                for (size_t p = 0; p < 2 && p < ed::places(t); ++p) {
                    Node m = t;
                    json::value v = ref::build(m), copy = v;
                    try {
                        apply(v, m, p, x, false);
                        ref::expect_same(copy, t, "a copy taken before the edit");
                    }
                    catch (const mc::Violation& y) {
                        mc::fail(x.name + " at place " + std::to_string(p) + ": " + y.msg.substr(0, 1500));
                    }
                }
        mc::validated();
    });
    // all histories of edits, on one object from birth
    static const std::vector<Node> roots = { ref::null(), ref::arr({ ref::num("1"), ref::obj({ { "a", ref::arr() } }) }), ref::obj({ { "a", ref::arr({ ref::str("") }) }, { "b", ref::boolean(false) } }), ref::str("t") };
    auto hist = [&e](const char* name, const std::vector<ed::Edit>& O, unsigned depth, unsigned np) {
        e.add(
            name, roots.size() * mc::ipow(O.size() * np, depth),
            [&O, depth, np](uint64_t i) {
                mc::Dec d(i);
                Node n = roots[d(roots.size())];
                json::value v = ref::build(n);
                for (unsigned k = 0; k < depth; ++k) {
                    auto& x = O[d(O.size())];
                    size_t p = d(np);
                    if (p >= ed::places(n)) return;
                    apply(v, n, p, x, k + 1 == depth);
                }
                mc::validated();
                mc::outcome(ref::dump(n));
            },
            [&O, depth, np](uint64_t i) {
                mc::Dec d(i);
                std::string s = ref::dump(roots[d(roots.size())]);
                for (unsigned k = 0; k < depth; ++k) {
                    s += "; " + O[d(O.size())].name;
                    s += " at " + std::to_string(d(np));
                }
                return s;
            });
    };
    hist("histories-2", E, 2, 4);
    hist("histories-3", F, 3, th ? 4 : 3);
    if (th) hist("histories-4", F, 4, 2);
    if (th) hist("histories-3-all", E, 3, 3);
    e.notes.push_back("edits: " + std::to_string(E.size()) + ", core edits: " + std::to_string(F.size()) + ", trees: " + std::to_string(all.size()));
}
MC_MAIN(setup)
