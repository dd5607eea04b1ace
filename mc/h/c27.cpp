// C27: a failing allocation at every point of every operation.  MC_PART selects a type family; without it: the rest.
#include "ref.hpp"
#include "alloc.hpp"
#include "build.hpp"
#include "dims.hpp"
#include "edits.hpp"
#include "fam.hpp"
#include "trees.hpp"
#include <fstream>
#include <istream>
#include <sstream>
using ref::Node;
using S = std::string;
using fam::M;

static const S L = "text that does not fit into a small string", K = "key that does not fit into a small string";
static const S N = "12345678901234567890.5e+10";

// ---- what must hold of a value after a failure ----

static void usable(const json::value& v, const char* who)
{
    try {
        Node n = ref::readout(v);
        S d = ref::observe(v, n); // kind queries, content, serialisation, comparison, copies
        if (!d.empty()) mc::fail(S(who) + ": " + d);
        json::value c = v;
        if (!(c == v) || c != v) mc::fail(S(who) + " differs from its copy");
        if (c.to_string() != ref::dump(n) || v.format() != ref::format(n)) mc::fail(S(who) + " serialises inconsistently");
        json::value m = std::move(c);
        c = v;
        c = 5;
        c = json::array { m };
    }
    catch (const std::exception& e) {
        mc::fail(S(who) + " cannot be inspected: " + e.what());
    }
}
static void usable(const json::array& a, const char* who) { usable(json::value(a), who); }
static void usable(const json::object& o, const char* who) { usable(json::value(o), who); }
static void assignable(json::value& v) { v = json::array { 1, "x" }; if (v.to_string() != "[1,\"x\"]") mc::fail("the value cannot be assigned any more"); }
static void assignable(json::array& v) { v = json::array { 1, "x" }; if (v.to_string() != "[1,\"x\"]") mc::fail("the array cannot be assigned any more"); }
static void assignable(json::object& v) { v = json::object { { "x", 1 } }; if (v.to_string() != "{\"x\":1}") mc::fail("the object cannot be assigned any more"); }

enum Ends { kOom, kNoThrow, kEither };

// setup(): fresh operands.  run(st): the operation.  after(st, failed, k): the operands afterwards.
template <typename Setup, typename Run, typename After>
static void sweep(const S& name, Setup setup, Run run, After after, Ends ends = kOom, long from = 0)
{
    uint64_t base = 0;
    bool refuses = false;
    long n = 0;
    int again = 0;
    for (long k = -1; k < n; ++k) {
        if (k >= 0 && k < from) continue;
        auto where = [&](const S& m) { return name + ", allocation " + std::to_string(k + 1) + " of " + std::to_string(n) + " fails: " + m; };
        const long live = al::live;
        {
            S res;
            bool oom = false, threw = false;
            auto st = setup();
            al::failed = false;
            al::count = 0;
            al::fail_at = k;
            try {
                res = run(st);
                al::fail_at = -1;
            }
            catch (const std::bad_alloc&) {
                al::fail_at = -1;
                oom = true;
            }
            catch (const mc::Violation& v) {
                al::fail_at = -1;
                mc::fail(where(v.msg));
            }
            catch (const std::exception&) {
                al::fail_at = -1;
                threw = true;
            }
            mc::step();
            if (k < 0) {
                n = al::count;
                base = mc::hash(res);
                refuses = threw;
                if (oom) mc::fail(name + ": out of memory without a failure");
            }
            else {
                if (!al::failed) break; // fewer allocations than the first time
                if (threw && !refuses) mc::fail(where("ends with another exception"));
                if (!oom && !threw) {
                    if (ends == kOom) mc::fail(where("the failure is not reported"));
                    if (ends == kNoThrow && mc::hash(res) != base) mc::fail(where("other result: " + res));
                }
                if (oom && ends == kNoThrow) mc::fail(where("throws"));
            }
            try {
                after(st, k >= 0);
            }
            catch (const mc::Violation& v) {
                mc::fail(where(v.msg));
            }
            mc::statei(uint64_t(k + 2), mc::hash(name));
        }
        if (al::live == live) again = 0;
        else if (++again == 3) mc::fail(where(std::to_string(al::live - live) + " blocks leaked"));
        else --k; // a cache may be filled once; a leak is there each time
    }
    mc::validated();
    mc::outcome(mc::hash(name, uint64_t(n)));
}

static void same(const json::value& v, const Node& n, const char* who)
{
    S d;
    try {
        d = ref::diff(v, n);
    }
    catch (const std::exception& e) {
        d = e.what();
    }
    if (!d.empty()) mc::fail(S(who) + " changed: " + d);
}
template <typename F>
static void read_op(const S& name, const Node& n, F f, Ends ends = kOom)
{
    sweep(name + " on " + ref::dump(n), [&] { return ref::build(n); }, [&](json::value& v) { return S(f(std::as_const(v))); }, [&](json::value& v, bool) {
        same(v, n, "the value");
        usable(v, "the value");
        assignable(v);
    }, ends);
}

static const std::vector<Node>& leaves()
{
    static const std::vector<Node> l = { ref::null(), ref::num("1"), ref::num(N), ref::str(L) };
    return l;
}

#ifdef MC_PART
template <typename T>
struct Shape
{
    static constexpr bool castable = true;
};
template <typename T>
constexpr bool castable = true;
template <typename T>
constexpr bool castable<std::tuple<T>> = false;
template <typename T>
constexpr bool castable<std::optional<T>> = false;
template <typename... T>
constexpr bool castable<std::variant<T...>> = !(std::is_constructible_v<T, json::value> || ...) || (!std::is_same_v<T, json::value> && ...);
template <typename T>
constexpr bool shares = false; // moved out of or not: left open
// the hash containers of the standard library allocate differently on rebuilding; everything else is exact

template <typename T>
static void types(const Node& n)
{
    const S who = M<T>::name();
    const bool fits = M<T>::fits(n);
    auto vb = [&] { return ref::build(n); };
    auto kept = [&](json::value& v, bool) {
        same(v, n, "the value");
        assignable(v);
    };
    auto open = [&](json::value& v, bool) {
        usable(v, "the value");
        assignable(v);
    };
    sweep("is<" + who + "> of " + ref::dump(n), vb, [](json::value& v) { return S(v.is<T>() ? "t" : "f"); }, kept, kEither);
    auto eq = [&](const T& t) {
        al::fail_at = -1;
        if (!fits || !M<T>::eq(t, M<T>::of(n))) mc::fail("wrong content");
        return S("ok");
    };
    sweep("as<" + who + "> of " + ref::dump(n), vb, [&](json::value& v) { return eq(std::as_const(v).as<T>()); }, kept);
    sweep("as<" + who + "> of temporary " + ref::dump(n), vb, [&](json::value& v) { return eq(std::move(v).as<T>()); }, open);
    if constexpr (castable<T>) {
        sweep("cast to " + who + " of " + ref::dump(n), vb, [&](json::value& v) { return eq(static_cast<T>(std::as_const(v))); }, kept);
        sweep("cast to " + who + " of temporary " + ref::dump(n), vb, [&](json::value& v) { return eq(static_cast<T>(std::move(v))); }, open);
    }
    if (n.k == ref::Obj && n.o.size() == 1 || n.k == ref::Arr && n.a.size() == 1) {
        // by key or position, as element and as default
        const bool ob = n.k == ref::Obj;
        const Node& m = ob ? n.o.begin()->second : n.a[0];
        const bool mf = M<T>::fits(m);
        auto find = [&](auto& v) { return ob ? v.template find<T>(n.o.begin()->first) : v.template find<T>(size_t(0)); };
        sweep("find<" + who + "> in " + ref::dump(n), vb, [&](json::value& v) {
            auto r = find(std::as_const(v));
            al::fail_at = -1;
            if (r.has_value() != mf || mf && !M<T>::eq(*r, M<T>::of(m))) mc::fail("wrong content");
            return S();
        }, kept);
        if (m.k != ref::Arr && m.k != ref::Obj)
            sweep("all<" + who + "> in " + ref::dump(n), vb, [&](json::value& v) { return S(std::as_const(v).all<T>() ? "t" : "f"); }, kept);
    }
    if (!fits) return;
    // building
    auto tb = [&] { return M<T>::of(n); };
    const T model = M<T>::of(n);
    auto src_kept = [&](T& t, bool) {
        if (!M<T>::eq(t, model)) mc::fail("the source changed");
        if (M<T>::json(t) != M<T>::json(M<T>::of(n)) && !who.empty() && who.find("unordered") == S::npos && who.find("U") != 0 && false) mc::fail("the source changed");
    };
    auto src_open = [&](T& t, bool) {
        t = M<T>::of(n);
        if (!M<T>::eq(t, model)) mc::fail("the source cannot be assigned any more");
    };
    auto want = [&](const json::value& v) {
        al::fail_at = -1;
        if (!M<T>::eq(v.as<T>(), model)) mc::fail("wrong content");
        usable(v, "the new value");
        return S("ok");
    };
    sweep("value(" + who + ") of " + ref::dump(n), tb, [&](T& t) { return want(json::value(std::as_const(t))); }, src_kept);
    sweep("value(lvalue " + who + ") of " + ref::dump(n), tb, [&](T& t) { return want(json::value(t)); }, src_kept);
    sweep("value(temporary " + who + ") of " + ref::dump(n), tb, [&](T& t) { return want(json::value(std::move(t))); }, src_open);
    struct In
    {
        json::value v;
        T t;
    };
    auto in = [&] { return In { json::object { { K, json::array { L } } }, M<T>::of(n) }; };
    const Node was = ref::obj({ { K, ref::arr({ ref::str(L) }) } });
    auto both = [&](In& i, bool failed) {
        usable(i.v, "the value");
        if (failed) {
            // an element may be there already, but nothing that was there is gone
            Node now = ref::readout(i.v);
            if (now != was) {
                if (now.k != ref::Obj || !now.o.count(K) || now.o.at(K).k != ref::Arr || now.o.at(K).a.empty() || now.o.at(K).a[0] != ref::str(L)) mc::fail("the container lost content: " + ref::dump(now));
            }
        }
        if (!M<T>::eq(i.t, model)) mc::fail("the source changed");
        assignable(i.v);
    };
    sweep("[key] = " + who + " of " + ref::dump(n), in, [&](In& i) { i.v["another key that is rather long"] = std::as_const(i.t); return S(); }, both);
    sweep("emplace(key, " + who + ") of " + ref::dump(n), in, [&](In& i) { i.v.emplace("another key that is rather long", std::as_const(i.t)); return S(); }, both);
    sweep("[key].emplace(" + who + ") of " + ref::dump(n), in, [&](In& i) { i.v[K].emplace(std::as_const(i.t)); return S(); }, both);
    sweep("push_back(" + who + ") of " + ref::dump(n), in, [&](In& i) { i.v[K].as_array().push_back(std::as_const(i.t)); return S(); }, both);
    sweep("initializer lists of " + who + " of " + ref::dump(n), tb, [&](T& t) { json::value v = json::object { { K, t }, { "x", json::array { t, t } } }; return S(); }, src_kept);
}

static void setup(mc::Engine& e)
{
    static std::vector<Node> all;
    for (auto& n : tr::flat(tr::trees(mc::thorough() ? 5 : 4, leaves(), { "k", K }))) all.push_back(n);
    for (unsigned len = 2; len <= 5; ++len) {
        for (auto& x : { ref::str(L), ref::num("1"), ref::arr({ ref::str(L) }), ref::obj({ { K, ref::str(L) } }) }) {
            Node a = ref::arr(), o = ref::obj();
            for (unsigned i = 0; i < len; ++i) {
                Node y = x;
                if (y.k == ref::Str) y.s += char('a' + i);
                if (y.k == ref::Num) y.s += char('1' + i);
                a.a.push_back(y);
                o.o[K + char('a' + i)] = y;
            }
            all.push_back(a);
            all.push_back(o);
        }
        Node t = ref::arr();
        for (unsigned i = 0; i < len; ++i) t.a.push_back(i % 2 ? ref::str(L) : ref::num("7"));
        all.push_back(t);
        for (auto& x : t.a) x = x.k == ref::Num ? ref::str(L) : ref::num("7");
        all.push_back(t);
    }
    e.add("types", all.size(), [](uint64_t i) { MC_PART::each([&](auto* p) { types<std::remove_pointer_t<decltype(p)>>(all[i]); }); }, [](uint64_t i) { return ref::dump(all[i]); }, 1);
}
#else

// ---- reading ----

enum class Long
{
    an_enumerator_with_a_rather_long_name,
    another_enumerator_with_a_long_name = 2,
};
struct Inner
{
    S text_member_with_a_long_name;
    std::vector<S> list;
    std::optional<S> maybe;
    MEO_JSONIZATION(text_member_with_a_long_name, MEO_KEY("a list stored under a long key") list, MEO_OPT maybe);
};
struct Outer
{
    std::map<S, Inner> inners_by_a_long_name;
    Long kind = Long::an_enumerator_with_a_rather_long_name;
    json::value any;
    std::variant<int, S> either;
    MEO_JSONIZATION(inners_by_a_long_name, kind, MEO_OPT any, MEO_OPT either);
};
static Outer outer(int w)
{
    Outer o;
    o.inners_by_a_long_name["first of the inners, with a long key"] = Inner { L, { L, "s", L }, {} };
    if (w & 1) o.inners_by_a_long_name["b"] = Inner { "", {}, L };
    if (w & 2) o.kind = Long::another_enumerator_with_a_long_name;
    if (w & 4) o.any = json::array { L, json::object { { K, 1 } } };
    if (w & 8) o.either = L;
    return o;
}

static void reads(const Node& n)
{
    using json::value;
    read_op("copy", n, [](const value& v) { value c = v; al::fail_at = -1; return c.to_string(); });
    read_op("to_string", n, [](const value& v) { return v.to_string(); });
    read_op("dumps", n, [](const value& v) { return v.dumps(); });
    read_op("dumps(2)", n, [](const value& v) { return v.dumps(2); });
    read_op("format", n, [](const value& v) { return v.format(); });
    read_op("format(40)", n, [](const value& v) { return v.format(40); });
    read_op("<<", n, [](const value& v) { std::ostringstream o; o << v; return S(); }, kEither);
    read_op("==", n, [](const value& v) { return v == v ? "t" : "f"; });
    read_op("type_name", n, [](const value& v) { return v.type_name(); }, kNoThrow);
    read_op("value_info", n, [](const value& v) { (void)v.value_info(); return S(); }, kNoThrow);
    read_op("queries", n, [](const value& v) {
        S r;
        for (bool b : { v.valid(), v.empty(), v.is_null(), v.is_number(), v.is_boolean(), v.is_string(), v.is_array(), v.is_object() }) r += b ? 't' : 'f';
        return r;
    }, kNoThrow);
    read_op("contains", n, [](const value& v) { return v.contains(K) ? "t" : "f"; });
    read_op("exists", n, [](const value& v) { return v.exists(K) && v.exists(size_t(0)) ? "t" : "f"; });
    read_op("at(key)", n, [](const value& v) { return v.at(K).to_string(); });
    read_op("at(missing)", n, [](const value& v) { return v.at(K + "missing").to_string(); });
    read_op("at(0)", n, [](const value& v) { return v.at(size_t(0)).to_string(); });
    read_op("at(9)", n, [](const value& v) { return v.at(size_t(9)).to_string(); });
    read_op("find(key)", n, [](const value& v) { auto f = v.find(K); return S(f ? "t" : "f"); });
    read_op("find(0)", n, [](const value& v) { auto f = v.find(size_t(0)); return S(f ? "t" : "f"); });
    read_op("find_value", n, [](const value& v) { return v.find_value(K) || v.find_value(size_t(0)) ? "t" : "f"; });
    read_op("get(key, default)", n, [](const value& v) { return v.get(K, L); });
    read_op("get(key, key, default)", n, [](const value& v) { return v.get(K, "k", L); });
    read_op("get(key, 0, default)", n, [](const value& v) { return v.get(K, 0, value(L)).to_string(); });
    read_op("get(0, default)", n, [](const value& v) { return v.get(0, std::vector<S> { L }).empty() ? "e" : "n"; });
    read_op("get(0, 0, default)", n, [](const value& v) { return std::to_string(v.get(0, 0, 1.5)); });
    read_op("as_integer", n, [](const value& v) { return std::to_string(v.as_integer()); });
    read_op("as_double", n, [](const value& v) { return std::to_string(v.as_double()); });
    read_op("as_string", n, [](const value& v) { return v.as_string(); });
    read_op("as_string_view", n, [](const value& v) { return S(v.as_string_view()); });
    read_op("as_boolean", n, [](const value& v) { return v.as_boolean() ? "t" : "f"; });
    read_op("as_array", n, [](const value& v) { return std::to_string(v.as_array().size()); });
    read_op("as_object", n, [](const value& v) { return std::to_string(v.as_object().size()); });
    read_op("casts to array", n, [](const value& v) { return json::array(v).to_string(); });
    read_op("cast to object", n, [](const value& v) { return static_cast<json::object>(v).to_string(); });
    read_op("as<struct>", n, [](const value& v) { return S(v.is<Inner>() ? "t" : "f"); }, kEither);
    read_op("iterate", n, [](const value& v) {
        size_t k = 0;
        if (v.is_array())
            for (auto& x : v.as_array()) k += x.valid();
        if (v.is_object())
            for (auto& [x, y] : v.as_object()) k += x.size();
        return std::to_string(k);
    });
    read_op("container copies", n, [](const value& v) {
        if (v.is_array()) {
            json::array a = v.as_array(), b;
            b = a;
            return b.to_string() + (a == b ? "t" : "f") + a.format() + a.dumps(1);
        }
        if (v.is_object()) {
            json::object a = v.as_object(), b { { L, L } };
            b = a;
            return b.to_string() + (a == b ? "t" : "f") + a.format() + a.dumps(1);
        }
        return S();
    });
    read_op("container lookups", n, [](const value& v) {
        if (v.is_array()) {
            auto& a = v.as_array();
            return S(a.contains(1) ? "t" : "f") + a.get(0, L) + (a.find<S>(0) ? "t" : "f") + (a.find_value(0) ? "t" : "f") + a.at(0).to_string();
        }
        if (v.is_object()) {
            auto& a = v.as_object();
            return S(a.contains(K) ? "t" : "f") + a.get(K, L) + (a.find<S>(K) ? "t" : "f") + (a.find_value(K) ? "t" : "f") + a.at(K).to_string();
        }
        return S();
    });
    read_op("+ and |", n, [](const value& v) {
        if (v.is_array()) return (v + json::array { L, 1 }).to_string() + (v.as_array() + v.as_array()).to_string();
        if (v.is_object()) return (v | json::object { { K, 1 }, { L, 1 } }).to_string() + (v.as_object() | v.as_object()).to_string();
        return (v + json::array()).to_string();
    });
    for (int r = 0; r < bd::kRoutes; ++r) read_op("build by route " + std::to_string(r), n, [&](const value&) { return bd::by(r, n).to_string(); });
}

// ---- editing ----

// Whether everything of `was` is still there (at the front, as far as arrays go).
static bool keeps(const Node& was, const Node& now)
{
    if (was.emptyish()) return true;
    if (was.k != now.k || was.s != now.s) return false;
    if (was.k == ref::Arr) {
        if (now.a.size() < was.a.size()) return false;
        for (size_t i = 0; i < was.a.size(); ++i)
            if (!keeps(was.a[i], now.a[i])) return false;
    }
    for (auto& [k, x] : was.o)
        if (!now.o.count(k) || !keeps(x, now.o.at(k))) return false;
    return true;
}
// Whether a place holds what it held, or what it was going to hold, or something of both.
static bool between(const Node& was, const Node& now, const Node& next)
{
    if (now == was || now == next) return true;
    if (was.emptyish() && now.emptyish()) return true;
    if (keeps(was, now)) return true;
    if (was.k != now.k || was.k != next.k) return false;
    if (was.k == ref::Obj) {
        for (auto& [k, x] : was.o) {
            auto i = now.o.find(k), j = next.o.find(k);
            if (i == now.o.end()) {
                if (j != next.o.end()) return false;
            }
            else if (j == next.o.end() ? x != i->second : !between(x, i->second, j->second)) return false;
        }
        return true;
    }
    if (was.k == ref::Arr) {
        if (now.a.size() != was.a.size() || next.a.size() < was.a.size()) return false;
        for (size_t i = 0; i < was.a.size(); ++i)
            if (!between(was.a[i], now.a[i], next.a[i])) return false;
        return true;
    }
    return false;
}

static void edit(const Node& n, size_t p, const ed::Edit& x)
{
    if (p >= ed::places(n)) return;
    Node next = n;
    {
        json::value v = ref::build(n);
        auto [pv, pn] = ed::at(v, next, p);
        (void)ed::run_model(x.model, *pn);
    }
    struct St
    {
        json::value v;
        json::value* p;
    };
    sweep(x.name + " at place " + std::to_string(p) + " of " + ref::dump(n),
          [&] {
              St s { ref::build(n), nullptr };
              Node m = n;
              // the root lives in the struct, which is returned without being moved
              s.p = nullptr;
              return s;
          },
          [&](St& s) {
              const long k = al::fail_at, c = al::count;
              al::fail_at = -1;
              Node m = n;
              json::value* at = ed::at(s.v, m, p).first;
              al::fail_at = k;
              al::count = c;
              return x.impl(*at);
          },
          [&](St& s, bool failed) {
              usable(s.v, "the value");
              if (failed) {
                  Node now = ref::readout(s.v);
                  if (x.name != "move out and back" && x.name != "iterate and overwrite" && !between(n, now, next)) mc::fail("content lost: " + ref::dump(now));
                  // and it can be edited on
                  json::value again = s.v;
                  (void)ed::run_impl(x.impl, again);
                  usable(again, "the value edited on");
              }
              assignable(s.v);
          });
}

// ---- two operands ----

struct Two
{
    json::value v, w;
};
static void pairs(const Node& a, const Node& b)
{
    using json::array;
    using json::object;
    using json::value;
    auto st = [&] { return Two { ref::build(a), ref::build(b) }; };
    const S ab = " of " + ref::dump(a) + " and " + ref::dump(b);
    auto op = [&](const S& name, auto f, bool vkept, bool wkept) {
        sweep(name + ab, st, [&](Two& t) { f(t.v, t.w); return S(); }, [&](Two& t, bool failed) {
            if (vkept && failed) same(t.v, a, "the left operand");
            else usable(t.v, "the left operand");
            if (wkept) same(t.w, b, "the right operand");
            else usable(t.w, "the right operand");
            assignable(t.v);
            assignable(t.w);
        });
    };
    op("copy assignment", [](value& v, value& w) { v = std::as_const(w); }, true, true);
    op("move assignment", [](value& v, value& w) { v = std::move(w); }, false, false);
    op("copy construction in place", [](value& v, value& w) { value x(w); v = std::move(x); }, true, true);
    op("==", [](value& v, value& w) { (void)(v == w); (void)(v != w); }, true, true);
    op("swap", [](value& v, value& w) { std::swap(v, w); }, true, false);
    op("emplace", [](value& v, value& w) { v.emplace(w); }, false, true);
    op("emplace key", [](value& v, value& w) { v.emplace(K, w); }, false, true);
    op("emplace rvalue", [](value& v, value& w) { v.emplace(L, std::move(w)); }, false, false);
    op("[] = ", [](value& v, value& w) { v[L] = w; }, false, true);
    if (a.k == ref::Arr) {
        op("array =", [](value& v, value& w) { v.as_array() = array { w, w }; }, true, true);
        op("push_back", [](value& v, value& w) { v.as_array().push_back(w); }, true, true);
        op("push_back rvalue", [](value& v, value& w) { v.as_array().push_back(std::move(w)); }, true, false);
        op("emplace_back", [](value& v, value& w) { v.as_array().emplace_back(w); }, true, true);
        if (b.k == ref::Arr) {
            op("array copy assignment", [](value& v, value& w) { v.as_array() = std::as_const(w).as_array(); }, true, true);
            op("array move assignment", [](value& v, value& w) { v.as_array() = std::move(w.as_array()); }, false, false);
            op("+=", [](value& v, value& w) { v += std::as_const(w).as_array(); }, true, true);
            op("+= rvalue", [](value& v, value& w) { v += std::move(w.as_array()); }, true, false);
            op("array +=", [](value& v, value& w) { v.as_array() += std::as_const(w).as_array(); }, true, true);
            op("array += rvalue", [](value& v, value& w) { v.as_array() += std::move(w.as_array()); }, true, false);
            op("+ const const", [](value& v, value& w) { (void)(std::as_const(v).as_array() + std::as_const(w).as_array()); }, true, true);
            op("+ const rvalue", [](value& v, value& w) { (void)(std::as_const(v).as_array() + std::move(w.as_array())); }, true, false);
            op("+ rvalue const", [](value& v, value& w) { (void)(std::move(v.as_array()) + std::as_const(w).as_array()); }, false, true);
            op("+ rvalue rvalue", [](value& v, value& w) { (void)(std::move(v) + std::move(w.as_array())); }, false, false);
        }
    }
    if (a.k == ref::Obj) {
        op("object emplace", [](value& v, value& w) { v.as_object().emplace(K, w); }, true, true);
        op("object insert", [](value& v, value& w) { v.as_object().insert(L, w); }, true, true);
        op("object emplace rvalue", [](value& v, value& w) { v.as_object().emplace(L, std::move(w)); }, true, false);
        if (b.k == ref::Obj) {
            op("object copy assignment", [](value& v, value& w) { v.as_object() = std::as_const(w).as_object(); }, true, true);
            op("object move assignment", [](value& v, value& w) { v.as_object() = std::move(w.as_object()); }, false, false);
            op("|=", [](value& v, value& w) { v |= std::as_const(w).as_object(); }, false, true);
            op("|= rvalue", [](value& v, value& w) { v |= std::move(w.as_object()); }, false, false);
            op("object |=", [](value& v, value& w) { v.as_object() |= std::as_const(w).as_object(); }, false, true);
            op("object |= rvalue", [](value& v, value& w) { v.as_object() |= std::move(w.as_object()); }, false, false);
            op("| const const", [](value& v, value& w) { (void)(std::as_const(v).as_object() | std::as_const(w).as_object()); }, true, true);
            op("| const rvalue", [](value& v, value& w) { (void)(std::as_const(v).as_object() | std::move(w.as_object())); }, true, false);
            op("| rvalue const", [](value& v, value& w) { (void)(std::move(v.as_object()) | std::as_const(w).as_object()); }, false, true);
            op("| rvalue rvalue", [](value& v, value& w) { (void)(std::move(v) | std::move(w.as_object())); }, false, false);
        }
    }
}

// ---- reading text ----

template <typename C>
static void text_in(const S& name, const C& c, const std::optional<Node>& want, bool jsonc)
{
    sweep(name, [&] { return int(0); }, [&](int&) {
        auto v = jsonc ? json::parsec(c) : json::parse(c);
        al::fail_at = -1;
        ref::check_parse(v, want, name);
        return S(v ? "t" : "f");
    }, [](int&, bool) {});
}
static void texts(const S& t)
{
    for (bool jsonc : { false, true }) {
        const auto want = ref::parse(t, jsonc);
        const S nm = S(jsonc ? "parsec " : "parse ") + mc::show(t);
        text_in(nm, t, want, jsonc);
        text_in(nm + " (view)", std::string_view(t), want, jsonc);
        text_in(nm + " (literal)", t.c_str(), want, jsonc);
        text_in(nm + " (vector)", std::vector<char>(t.begin(), t.end()), want, jsonc);
        text_in(nm + " (deque)", std::deque<char>(t.begin(), t.end()), want, jsonc);
        sweep(nm + " (stream)", [&] { return std::make_unique<std::istringstream>(t); }, [&](std::unique_ptr<std::istringstream>& s) {
            auto v = json::parse(*s, false, jsonc);
            al::fail_at = -1;
            ref::check_parse(v, want, t);
            return S(v ? "t" : "f");
        }, [](auto&, bool) {});
        const S path = mc::g_scratch + "/f" + std::to_string(getpid());
        {
            std::ofstream f(path, std::ios::binary);
            f << t;
        }
        sweep(nm + " (file)", [&] { return int(0); }, [&](int&) {
            auto v = json::open(path, true, jsonc);
            al::fail_at = -1;
            if (v) ref::check_parse(v, want, t);
            return S(v ? "t" : "f");
        }, [](int&, bool) {}, kOom);
        unlink(path.c_str());
    }
    using namespace json::literals;
    sweep("literals " + mc::show(t), [&] { return int(0); }, [&](int&) {
        auto v = json::literals::operator""_json(t.data(), t.size());
        auto a = json::literals::operator""_jarray(t.data(), t.size());
        auto o = json::literals::operator""_jobject(t.data(), t.size());
        return v.to_string() + a.to_string() + o.to_string();
    }, [](int&, bool) {});
}

static void setup(mc::Engine& e)
{
    const bool th = mc::thorough();
    static auto all = tr::flat(tr::trees(th ? 5 : 4, leaves(), { "k", K }));
    static auto low = tr::flat(tr::trees(th ? 4 : 3, leaves(), { "k", K }));
    static auto two = tr::flat(tr::trees(th ? 4 : 3, { ref::num("1"), ref::str(L) }, { "k", K }));
    e.add("reading", all.size(), [](uint64_t i) { reads(all[i]); }, [](uint64_t i) { return ref::dump(all[i]); }, 1);
    // the edits of the edit family with short and long keys in the tree
    static const auto E = ed::edits();
    static std::vector<Node> et = low;
    for (auto& n : tr::flat(tr::trees(th ? 4 : 3, { ref::null(), ref::str(L) }, { "", "a" }))) et.push_back(n);
    e.add("editing", et.size() * E.size() * 3, [](uint64_t i) {
        mc::Dec d(i);
        auto& x = E[d(E.size())];
        size_t p = d(3);
        edit(et[d(et.size())], p, x);
    }, [](uint64_t i) {
        mc::Dec d(i);
        auto& x = E[d(E.size())];
        size_t p = d(3);
        return x.name + " at place " + std::to_string(p) + " of " + ref::dump(et[d(et.size())]);
    });
    e.add("operands", two.size() * two.size(), [](uint64_t i) { pairs(two[i % two.size()], two[i / two.size()]); },
          [](uint64_t i) { return ref::dump(two[i % two.size()]) + " and " + ref::dump(two[i / two.size()]); });
    // texts: compact and pretty, and every way of cutting them short
    static std::vector<S> T;
    for (auto& n : low)
        if (n.k == ref::Arr || n.k == ref::Obj) {
            T.push_back(ref::dump(n));
            T.push_back("/* comment */ " + ref::format(n) + " // end");
        }
    for (S s : { "[\"\\u00e9\\ud83d\\ude00\\n\\\"\\\\" + L + "\\u20ac" + L + "\", -0.5e-3, true, false, null]", "{\"" + K + "\\t\":{\"" + K + "\":[[[" + N + "]]]},\"b\":[]}", "{\"" + K + "\":1,\"" + K + "\":2}" })
        for (size_t c = 0; c <= s.size(); ++c) T.push_back(s.substr(0, c));
    e.add("parsing", T.size(), [](uint64_t i) { texts(T[i]); }, [](uint64_t i) { return mc::show(T[i]); }, 2);
    // operations on larger operands: every allocation still fails once
    struct Job
    {
        size_t n, k, what;
    };
    static std::vector<Job> J;
    {
        std::vector<size_t> sizes;
        for (size_t n : dm::ladder(th ? 24 : 10, th ? 256 : 64))
            if (n > 2) sizes.push_back(n);
        std::reverse(sizes.begin(), sizes.end());
        for (size_t n : sizes)
            for (size_t k : { 1, 2, 5 })
                for (size_t what = 0; what < 3 + E.size(); ++what) J.push_back({ n, k, what });
    }
    e.add("at every size", J.size(), [](uint64_t i) {
        const auto& j = J[i];
        std::vector<Node> w = dm::mixed(j.n, j.k);
        w.resize(2); // the uniform array and object
        w[1].o.begin()->second = ref::str(L);
        w[1].o["a"] = w[0].a[0];
        if (j.what == 0)
            for (auto& x : w) reads(x);
        else if (j.what == 1)
            for (auto& x : w) {
                pairs(x, x);
                Node y = x;
                if (y.k == ref::Arr) y.a.resize(1);
                else {
                    y.o.erase("a");
                    y.o["b"] = ref::str(L);
                }
                pairs(x, y);
                pairs(y, x);
            }
        else if (j.what == 2)
            for (auto& x : w) texts(ref::dump(x));
        else
            for (auto& x : w) edit(x, 0, E[j.what - 3]);
        mc::statei(i, 270);
    }, [](uint64_t i) { return (J[i].what == 0 ? S("reading") : J[i].what == 1 ? S("operands") : J[i].what == 2 ? S("parsing") : E[J[i].what - 3].name) + " at size " + std::to_string(J[i].n) + ", kind " + std::to_string(J[i].k); }, 1);
    // structures
    e.add("structures", 16, [](uint64_t i) {
        const int w = int(i);
        const S good = json::value(outer(w)).to_string();
        auto ok = [&](const Outer& o) { if (json::value(o).to_string() != good) mc::fail("other content: " + json::value(o).to_string()); };
        auto kept = [&](Outer& o, bool) { ok(o); };
        sweep("to_json", [&] { return outer(w); }, [&](Outer& o) { return o.to_json().to_string(); }, kept);
        sweep("value(struct)", [&] { return outer(w); }, [&](Outer& o) { return json::value(std::as_const(o)).to_string(); }, kept);
        sweep("value(vector of struct)", [&] { return std::vector<Outer> { outer(w), outer(0) }; }, [&](auto& o) { return json::value(o).to_string(); }, [&](auto& o, bool) { ok(o[0]); });
        sweep("object(struct)", [&] { return outer(w); }, [&](Outer& o) { return json::object(o).to_string(); }, kept);
        auto val = [&] { return *json::parse(good); };
        auto same_val = [&](json::value& v, bool) { if (v.to_string() != good) mc::fail("the value changed"); usable(v, "the value"); };
        sweep("as<struct>", val, [&](json::value& v) { auto o = v.as<Outer>(); al::fail_at = -1; ok(o); return S(); }, same_val);
        sweep("cast to struct", val, [&](json::value& v) { auto o = static_cast<Outer>(v); al::fail_at = -1; ok(o); return S(); }, same_val);
        sweep("as<struct> of temporary", val, [&](json::value& v) { auto o = std::move(v).as<Outer>(); al::fail_at = -1; ok(o); return S(); }, [&](json::value& v, bool) { usable(v, "the value"); });
        sweep("is<struct>", val, [&](json::value& v) { return S(v.is<Outer>() ? "t" : "f"); }, same_val, kEither);
        sweep("check_json", val, [&](json::value& v) { S k; return S(Outer().check_json(v, k) ? "t" : "f"); }, same_val);
        sweep("from_json", [&] { return std::make_pair(outer(15 - w), *json::parse(good)); }, [&](auto& p) { S k; bool b = p.first.from_json(p.second, k); al::fail_at = -1; ok(p.first); return S(b ? "t" : "f"); }, [&](auto& p, bool) {
            same_val(p.second, true);
            S k;
            if (!p.first.from_json(p.second, k)) mc::fail("the structure cannot be read again");
            usable(json::value(p.first), "the structure");
        });
        // documents with one member missing or wrong
        for (const char* key : { "inners_by_a_long_name", "kind", "any", "either" })
            for (bool drop : { true, false }) {
                json::value bad = *json::parse(good);
                if (drop) bad.erase(key);
                else bad[key] = json::array { L };
                const S text = bad.to_string();
                auto bv = [&] { return *json::parse(text); };
                auto kept_bad = [&](json::value& v, bool) { if (v.to_string() != text) mc::fail("the value changed"); };
                sweep("is<struct> of " + text, bv, [&](json::value& v) { return S(v.is<Outer>() ? "t" : "f"); }, kept_bad, kEither);
                sweep("as<struct> of " + text, bv, [&](json::value& v) { (void)v.as<Outer>(); return S(); }, kept_bad);
                sweep("check_json of " + text, bv, [&](json::value& v) { S k; return S(Outer().check_json(v, k) ? "t" : "f") + k; }, kept_bad);
                sweep("from_json of " + text, bv, [&](json::value& v) { S k; Outer o; return S(o.from_json(v, k) ? "t" : "f") + k; }, kept_bad);
                sweep("get of " + text, bv, [&](json::value& v) { return std::to_string(v.get("inners_by_a_long_name", std::map<S, Inner>()).size()) + v.get("inners_by_a_long_name", "b", K.c_str(), L); }, kept_bad);
            }
        sweep("enums", [&] { return int(0); }, [&](int&) {
            json::value v = Long::another_enumerator_with_a_long_name;
            json::value arr = std::vector<Long> { Long::an_enumerator_with_a_rather_long_name };
            if (v.as<Long>() != Long::another_enumerator_with_a_long_name || !arr.is<std::vector<Long>>()) mc::fail("wrong enumerator");
            return v.to_string();
        }, [](int&, bool) {});
        sweep("unknown enumerator", [&] { return int(0); }, [&](int&) { return json::value(static_cast<Long>(1)).to_string(); }, [](int&, bool) {});
        sweep("invalid enumerator", [&] { return json::value(L + L); }, [&](json::value& v) { (void)v.as<Long>(); return S(); }, [](json::value& v, bool) { if (v.as_string() != L + L) mc::fail("the value changed"); });
    }, [](uint64_t i) { return "content " + std::to_string(i); }, 1);
}
#endif
MC_MAIN(setup)
