// C19: get(path..., default).
#include "build.hpp"
#include "dims.hpp"
#include <climits>
#include "fam.hpp"
#include "trees.hpp"
using fam::M;
using ref::Node;
using S = std::string;
#ifndef MC_PART
#define MC_PART 0
#endif

struct Comp
{
    bool key;
    S k;
    int p;
};
static const std::vector<Comp>& comps()
{
    static const std::vector<Comp> c = { { true, "a", 0 }, { true, "b", 0 }, { true, "", 0 }, { false, "", 0 }, { false, "", 1 }, { false, "", 2 }, { false, "", -1 } };
    return c;
}
static const Node* walk(const Node& n, const Comp* c, size_t len)
{
    const Node* x = &n;
    for (size_t i = 0; i < len; ++i) {
        if (c[i].key) {
            if (x->k != ref::Obj) return nullptr;
            auto it = x->o.find(c[i].k);
            if (it == x->o.end()) return nullptr;
            x = &it->second;
        }
        else {
            if (x->k != ref::Arr || c[i].p < 0 || size_t(c[i].p) >= x->a.size()) return nullptr;
            x = &x->a[c[i].p];
        }
    }
    return x;
}
template <size_t Max, typename R, typename O, typename D, typename... A>
static R call(const O& o, const D& d, const Comp* c, size_t left, const A&... a)
{
    if constexpr (sizeof...(A) > 0)
        if (left == 0) return o.get(a..., d);
    if constexpr (sizeof...(A) == 0 && std::is_same_v<O, json::array>) return call<Max, R>(o, d, c + 1, left - 1, c->p);
    else if constexpr (sizeof...(A) == 0 && std::is_same_v<O, json::object>) return call<Max, R>(o, d, c + 1, left - 1, c->k);
    else if constexpr (sizeof...(A) < Max) {
        if (c->key) {
            if constexpr (sizeof...(A) % 2) return call<Max, R>(o, d, c + 1, left - 1, a..., c->k);
            else return call<Max, R>(o, d, c + 1, left - 1, a..., c->k.c_str());
        }
        if constexpr (sizeof...(A) % 2) return call<Max, R>(o, d, c + 1, left - 1, a..., size_t(c->p));
        else return call<Max, R>(o, d, c + 1, left - 1, a..., c->p);
    }
    std::abort();
}
template <typename D>
struct Of
{
    using R = D;
};
template <>
struct Of<const char*>
{
    using R = S;
};
template <>
struct Of<std::string_view>
{
    using R = S;
};

template <size_t N>
struct Of<char[N]>
{
    using R = S;
};

constexpr size_t kMax = 3;
template <typename D>
static void check(const json::value& v, const Node& n, const std::vector<Comp>& path, const D& def)
{
    using R = typename Of<D>::R;
    mc::step();
    const Node* at = walk(n, path.data(), path.size());
    const bool fits = at && M<R>::fits(*at);
    const R want = fits ? M<R>::of(*at) : R(def);
    auto judge = [&](const char* how, const R& got) {
        if (!M<R>::eq(got, want))
            mc::fail(std::string(how) + " with a default of type " + M<R>::name() + " gives " + ref::dump(M<R>::json(got)) + ", expected " + ref::dump(M<R>::json(want)) + (fits ? " (the element)" : " (the default)"));
    };
    try {
        judge("value::get", call<kMax, R>(v, def, path.data(), path.size()));
        if (n.k == ref::Arr && !path[0].key) judge("array::get", call<kMax, R>(v.as_array(), def, path.data(), path.size()));
        if (n.k == ref::Obj && path[0].key) judge("object::get", call<kMax, R>(v.as_object(), def, path.data(), path.size()));
    }
    catch (const std::exception& ex) {
        mc::fail(std::string("get threw: ") + ex.what());
    }
    mc::outcome(mc::hash(M<R>::name(), (fits ? 1 : 0) + (at ? 2 : 0)));
}

static void defaults(const json::value& v, const Node& n, const std::vector<Comp>& path)
{
    auto c = [&](auto d) { check(v, n, path, d); };
    if constexpr (MC_PART == 0) {
        c(false);
        c(77);
        c(77u);
        c(77ll);
        c(0.25);
        c(S("default"));
        c("default");
        c(std::string_view("default"));
    }
    else {
        c(json::value("dv"));
        c(json::array { "da" });
        c(json::object { { "do", 1 } });
        c(std::vector<S> { "d" });
        c(std::map<S, S> { { "d", "e" } });
        c(std::optional<int>(9));
        c(std::variant<int, S>(S("d")));
        c(std::pair<S, bool>("d", true));
    }
}

template <typename F>
static void every_path(unsigned len, F&& f)
{
    std::vector<Comp> p;
    for (unsigned l = 1; l <= len; ++l)
        for (uint64_t i = 0; i < mc::ipow(comps().size(), l); ++i) {
            mc::Dec d(i);
            p.clear();
            for (unsigned j = 0; j < l; ++j) p.push_back(comps()[d(comps().size())]);
            f(p);
        }
}

// every spelling of a one-component path
template <typename D>
static void arg_types(const json::value& v, const Node& n, const D& def)
{
    using R = typename Of<D>::R;
    auto one = [&](const char* how, const R& got, bool key, const S& k, __int128 pos) {
        mc::step();
        const Node* at = nullptr;
        if (key && n.k == ref::Obj) {
            auto it = n.o.find(k);
            if (it != n.o.end()) at = &it->second;
        }
        if (!key && n.k == ref::Arr && pos >= 0 && pos < __int128(n.a.size())) at = &n.a[size_t(pos)];
        const R want = at && M<R>::fits(*at) ? M<R>::of(*at) : R(def);
        if (!M<R>::eq(got, want)) mc::fail(std::string("get with ") + how + " gives " + ref::dump(M<R>::json(got)) + ", expected " + ref::dump(M<R>::json(want)));
    };
    S a = "a";
    const S ca = "a";
    one("a literal", v.get("a", def), true, "a", 0);
    one("a string", v.get(a, def), true, "a", 0);
    one("a const string", v.get(ca, def), true, "a", 0);
    one("a temporary string", v.get(S("a"), def), true, "a", 0);
    char buf[] = "b";
    one("a char array", v.get(buf, def), true, "b", 0);
    one("a char pointer", v.get((char*)buf, def), true, "b", 0);
    one("the empty key", v.get("", def), true, "", 0);
    one("a key with NUL", v.get(S("a\0", 2), def), true, S("a\0", 2), 0);
    auto pos = [&](auto p) { one("a position", v.get(p, def), false, "", __int128(p)); };
    for (int p : { 0, 1, 2, 3, -1, -2, INT_MIN, INT_MAX }) {
        pos(p);
        pos((long)p);
        pos((long long)p);
        pos((short)p);
        pos((signed char)p);
        if (p >= 0) {
            pos((unsigned)p);
            pos((unsigned long)p);
            pos((unsigned short)p);
            pos((unsigned char)p);
        }
    }
    pos(~0ull);
    pos(1ull << 32);
    pos((1ull << 32) + 1);
    pos(1ull << 63);
    const int k0 = 0;
    pos(k0);
}

static void setup(mc::Engine& e)
{
    const bool th = mc::thorough();
    static std::vector<Node> leaves = { ref::null(), ref::boolean(true), ref::num("1"), ref::num("2.5"), ref::str("s") };
    static auto all = tr::flat(tr::trees(th ? 5 : 4, leaves, { "a", "b" }));
    e.add("paths", all.size(),
          [](uint64_t i) {
              const json::value v = bd::by(i % bd::kRoutes, all[i]);
              mc::state(ref::dump(all[i]));
              mc::validated();
              every_path(kMax, [&](const std::vector<Comp>& p) { defaults(v, all[i], p); });
              if (ref::readout(v) != all[i]) mc::fail("get changed the value");
          },
          [](uint64_t i) { return ref::dump(all[i]); });
    // deeper trees: every path through nestings of fixed shapes
    static std::vector<Node> deep;
    for (unsigned m = 0; m < 8; ++m)
        for (auto& l : leaves) {
            Node x = l;
            for (unsigned j = 0; j < 3; ++j) {
                if (m >> j & 1) x = ref::arr({ ref::null(), x, ref::str("z") });
                else x = ref::obj({ { "a", x }, { "b", ref::arr({ ref::num("9") }) }, { "", ref::boolean(false) } });
            }
            deep.push_back(x);
            deep.push_back(ref::arr({ x, ref::obj({ { "b", x } }) }));
        }
    e.add("deep-paths", deep.size(),
          [](uint64_t i) {
              const json::value v = bd::by(i % bd::kRoutes, deep[i]);
              mc::state(ref::dump(deep[i]));
              mc::validated();
              every_path(kMax, [&](const std::vector<Comp>& p) { defaults(v, deep[i], p); });
              if (ref::readout(v) != deep[i]) mc::fail("get changed the value");
          },
          [](uint64_t i) { return ref::dump(deep[i]); });
    static auto flat = tr::flat(tr::trees(3, leaves, { "a", "b", "" }));
    e.add("argument-types", flat.size(),
          [](uint64_t i) {
              const json::value v = ref::build(flat[i]);
              mc::state(ref::dump(flat[i]));
              mc::validated();
              arg_types(v, flat[i], 77);
              arg_types(v, flat[i], S("dflt"));
              arg_types(v, flat[i], "dflt");
              arg_types(v, flat[i], std::string_view("dflt"));
              arg_types(v, flat[i], true);
              if (ref::readout(v) != flat[i]) mc::fail("get changed the value");
          },
          [](uint64_t i) { return ref::dump(flat[i]); });
    // every position and every key of containers of every size
    dm::add_sizes(e, "every-size", dm::ladder(th ? 600 : 140, th ? 1u << 15 : 1u << 12), [](size_t n) {
        Node a = ref::arr(), o = ref::obj();
        for (size_t i = 0; i < n; ++i) {
            Node x = i % 5 == 0 ? ref::str(std::to_string(i)) : i % 5 == 1 ? ref::arr({ ref::num(std::to_string(i)) }) : i % 5 == 2 ? ref::obj({ { "k", ref::num(std::to_string(i)) } }) : ref::num(std::to_string(i));
            a.a.push_back(x);
            o.o[dm::key(i * 7919 % 1000003)] = x;
        }
        Node deep = ref::obj({ { "in", a }, { "out", ref::arr({ o, a }) } });
        const json::value v = ref::build(deep), va = ref::build(a), vo = ref::build(o);
        for (size_t i = 0; i < n + 2; ++i) {
            const S k = dm::key(i < n ? i * 7919 % 1000003 : 2000000 + i);
            auto judge = [&](bool ok) {
                mc::step();
                if (!ok) mc::fail("get of element " + std::to_string(i));
            };
            const bool in = i < n;
            const int num = in && i % 5 > 2 ? int(i) : -7, sub = in && i % 5 == 1 ? int(i) : -7, mem = in && i % 5 == 2 ? int(i) : -7;
            const S text = in && i % 5 == 0 ? std::to_string(i) : "none";
            judge(va.get(i, -7) == num && va.get(int(i), -7) == num && va.as_array().get(i, -7) == num && vo.get(k, -7) == num && vo.as_object().get(k.c_str(), -7) == num);
            judge(va.get(i, "none") == text && vo.get(k, S("none")) == text && va.get(short(i), std::string_view("none")) == (i < 32768 ? text : "none"));
            judge(va.get(i, 0, -7) == sub && vo.get(k, 0, -7) == sub && va.get(i, "k", -7) == mem && vo.get(k, "k", -7) == mem);
            judge(v.get("in", i, -7) == num && v.get("out", 1, i, -7) == num && v.get("out", 0, k, -7) == num && v.get("out", 0, k, "k", -7) == mem && v.get("out", 1, i, 0, -7) == sub);
            judge(va.get(-1 - int(i), -7) == -7 && va.get(i, 1, -7) == -7 && vo.get(k + "x", -7) == -7);
        }
        mc::validated();
    });
}
MC_MAIN(setup)
