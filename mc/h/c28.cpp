// C28: every accessor on every kind of value: the right answer, or a clean refusal that changes nothing.
#include "dims.hpp"
#include "edits.hpp"
#include "fam.hpp"
#include "trees.hpp"
#include <fstream>
#include <set>
using fam::M;
using json::value;
using ref::Node;
using S = std::string;

static bool utf8(std::string_view s)
{
    for (size_t i = 0; i < s.size();) {
        unsigned char c = s[i];
        unsigned n = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
        if (!n || i + n > s.size()) return false;
        for (unsigned k = 1; k < n; ++k)
            if ((s[i + k] & 0xc0) != 0x80) return false;
        i += n;
    }
    return true;
}

// A value: how it came to be, and what it is (nothing: invalid).
struct Val
{
    S name;
    std::function<void(value&)> make;
};
using Mod = std::optional<Node>;
struct Acc
{
    S name;
    std::function<S(value&)> impl;
    std::function<S(Mod&)> model;
    bool writes = false;
};
using ed::Refused;

static Node& need(Mod& m)
{
    if (!m) throw Refused();
    return *m;
}
static S b(bool x) { return x ? "true" : "false"; }

template <typename T>
static S num_of(const Mod& m)
{
    if (!m || !M<T>::fits(*m)) throw Refused();
    return ref::dump(M<T>::json(M<T>::of(*m)));
}
template <typename T>
static S shown(const T& t)
{
    return ref::dump(M<T>::json(t));
}

static std::vector<Acc> accessors()
{
    std::vector<Acc> r;
    auto add = [&](S n, std::function<S(value&)> i, std::function<S(Mod&)> m, bool w = false) { r.push_back({ n, i, m, w }); };
    auto con = [&](S n, std::function<S(const value&)> i, std::function<S(Mod&)> m) {
        add(n, [i](value& v) { return i(v); }, m);
        add(n + " (element)", [i](value& v) { const json::array a { v }; if (a[0].type() != v.type()) mc::fail("a copy has another kind"); return i(a[0]); }, m);
    };
#define NUM(T, f)                                                                                       \
    con(#f, [](const value& v) { return shown<T>(v.f()); }, [](Mod& m) { return num_of<T>(m); });        \
    con("(" #T ")", [](const value& v) { return shown<T>(static_cast<T>(v)); }, [](Mod& m) { return num_of<T>(m); }); \
    con("as<" #T ">", [](const value& v) { return shown<T>(v.as<T>()); }, [](Mod& m) { return num_of<T>(m); }); \
    add("as<" #T "> of a temporary", [](value& v) { return shown<T>(std::move(v).as<T>()); }, [](Mod& m) { return num_of<T>(m); }); \
    con("is<" #T ">", [](const value& v) { return b(v.is<T>()); }, [](Mod& m) { return b(m && M<T>::fits(*m)); });
    NUM(int, as_integer)
    NUM(unsigned, as_unsigned)
    NUM(long, as_long)
    NUM(unsigned long, as_unsigned_long)
    NUM(long long, as_long_long)
    NUM(unsigned long long, as_unsigned_long_long)
    NUM(float, as_float)
    NUM(double, as_double)
    NUM(long double, as_long_double)
    NUM(bool, as_boolean)
    NUM(S, as_string)
    NUM(std::string_view, as_string_view)
#undef NUM
#define ANY(T)                                                                                          \
    con("cast to " #T, [](const value& v) { return shown<T>(static_cast<T>(v)); }, [](Mod& m) { return num_of<T>(m); }); \
    con("as<" #T ">", [](const value& v) { return shown<T>(v.as<T>()); }, [](Mod& m) { return num_of<T>(m); }); \
    con("is<" #T ">", [](const value& v) { return b(v.is<T>()); }, [](Mod& m) { return b(m && M<T>::fits(*m)); });
    using Strings = std::vector<S>;
    using Ints = std::vector<int>;
    using Map = std::map<S, int>;
    using Pair = std::pair<int, S>;
    using Three = std::array<int, 3>;
    using Values = std::vector<value>;
    using Nested = std::map<S, std::vector<int>>;
    using Set = std::set<S>;
    using Either = std::variant<int, S, std::vector<int>>;
    ANY(json::array)
    ANY(json::object)
    ANY(std::nullptr_t)
    ANY(std::monostate)
    ANY(Strings)
    ANY(Ints)
    ANY(Map)
    ANY(Pair)
    ANY(Three)
    ANY(Nested)
    ANY(Set)
    ANY(Either)
#undef ANY
    con("as<optional<int>>", [](const value& v) { auto o = v.as<std::optional<int>>(); return o ? std::to_string(*o) : S("-"); }, [](Mod& m) { return need(m).k == ref::Null ? S("-") : num_of<int>(m); });
    con("as<unique_ptr<string>>", [](const value& v) { auto o = v.as<std::unique_ptr<S>>(); return o ? shown<S>(*o) : S("-"); }, [](Mod& m) { return need(m).k == ref::Null ? S("-") : num_of<S>(m); });
    con("as_array const", [](const value& v) { return v.as_array().to_string(); }, [](Mod& m) { if (need(m).k != ref::Arr) throw Refused(); return ref::dump(*m); });
    con("as_object const", [](const value& v) { return v.as_object().to_string(); }, [](Mod& m) { if (need(m).k != ref::Obj) throw Refused(); return ref::dump(*m); });
    // observers that never refuse
    con("valid", [](const value& v) { return b(v.valid()); }, [](Mod& m) { return b(bool(m)); });
    con("kinds", [](const value& v) { return b(v.is_null()) + b(v.is_number()) + b(v.is_boolean()) + b(v.is_string()) + b(v.is_array()) + b(v.is_object()); }, [](Mod& m) {
        S s;
        for (auto k : { ref::Null, ref::Num, ref::Bool, ref::Str, ref::Arr, ref::Obj }) s += b(m && m->k == k);
        return s;
    });
    con("type", [](const value& v) { return std::to_string(int(v.type())); }, [](Mod& m) { return std::to_string(int(m ? ref::jtype(m->k) : value::value_type::invalid)); });
    con("empty", [](const value& v) { return b(v.empty()); }, [](Mod& m) { return b(m && m->emptyish()); });
    con("type_name", [](const value& v) { return b(!v.type_name().empty()); }, [](Mod&) { return b(true); });
    con("value_info", [](const value& v) { S s = v.value_info(); return b(!s.empty() && utf8(s)); }, [](Mod&) { return b(true); });
    con("is<value>", [](const value& v) { return b(v.is<value>()); }, [](Mod&) { return b(true); });
    con("all<int>", [](const value& v) { return b(v.all<int>()); }, [](Mod& m) {
        if (!m || (m->k != ref::Arr && m->k != ref::Obj)) return b(false);
        for (auto& x : m->a)
            if (!M<int>::fits(x)) return b(false);
        for (auto& [k, x] : m->o)
            if (!M<int>::fits(x)) return b(false);
        return b(true);
    });
    // positions
    static const std::vector<size_t> pos = { 0, 1, 2, 3, 4, 7, 8, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x100000001, 0x7fffffffffffffff, 0x8000000000000000, size_t(-2), size_t(-1) };
    for (size_t p : pos) {
        const S P = std::to_string(p);
        auto el = [p](Mod& m) -> const Node& {
            if (need(m).k != ref::Arr || p >= m->a.size()) throw Refused();
            return m->a[p];
        };
        auto has = [p](Mod& m) { return m && m->k == ref::Arr && p < m->a.size(); };
        con("at(" + P + ")", [p](const value& v) { return v.at(p).to_string(); }, [el](Mod& m) { return ref::dump(el(m)); });
        con("as_array().at(" + P + ")", [p](const value& v) { return v.as_array().at(p).to_string(); }, [el](Mod& m) { return ref::dump(el(m)); });
        con("contains(" + P + ")", [p](const value& v) { return b(v.contains(p)); }, [has](Mod& m) { return b(has(m)); });
        con("exists(" + P + ")", [p](const value& v) { return b(v.exists(p)); }, [has](Mod& m) { return b(has(m)); });
        con("find_value(" + P + ")", [p](const value& v) { auto x = v.find_value(p); return x ? x->to_string() : S("-"); }, [=](Mod& m) { return has(m) ? ref::dump(el(m)) : S("-"); });
        con("find(" + P + ")", [p](const value& v) { auto x = v.find(p); return x ? x->to_string() : S("-"); }, [=](Mod& m) { return has(m) ? ref::dump(el(m)) : S("-"); });
        con("find<string>(" + P + ")", [p](const value& v) { auto x = v.find<S>(p); return x ? shown<S>(*x) : S("-"); }, [=](Mod& m) { return has(m) && el(m).k == ref::Str ? ref::dump(el(m)) : S("-"); });
        con("get(" + P + ", -5)", [p](const value& v) { return std::to_string(v.get(p, -5)); }, [=](Mod& m) { return has(m) && M<int>::fits(el(m)) ? std::to_string(M<int>::of(el(m))) : S("-5"); });
        con("get(" + P + ", 0, d)", [p](const value& v) { return v.get(p, 0, "d"); }, [=](Mod& m) { return has(m) && el(m).k == ref::Arr && !el(m).a.empty() && el(m).a[0].k == ref::Str ? el(m).a[0].s : S("d"); });
        con("as_array() lookups " + P, [p](const value& v) { auto& a = v.as_array(); auto x = a.find_value(p); if (bool(a.find(p)) != (x != nullptr) || a.contains(p) != (x != nullptr) || a.exists(p) != (x != nullptr)) mc::fail("lookups disagree"); return x ? x->to_string() : S("-"); }, [=](Mod& m) {
            if (need(m).k != ref::Arr) throw Refused();
            return has(m) ? ref::dump(el(m)) : S("-");
        });
        add("const [" + P + "] unless past the end of an array", [p](value& v) { if (v.is_array() && p >= v.as_array().size()) return S(); return std::as_const(v)[p].to_string(); }, [=](Mod& m) { if (m && m->k == ref::Arr && p >= m->a.size()) return S(); return ref::dump(el(m)); });
        add("erase(" + P + ")", [p](value& v) { return b(v.erase(p)); }, [p](Mod& m) {
            Node& n = ed::need_arr(need(m));
            if (p >= n.a.size()) return b(false);
            n.a.erase(n.a.begin() + long(p));
            return b(true);
        }, true);
    }
    for (int p : { -1, -2, -5, -2147483647 - 1 })
        con("get(" + std::to_string(p) + ", d)", [p](const value& v) { return v.get(p, "d"); }, [](Mod&) { return S("d"); });
    // keys
    static const std::vector<S> keys = { "", "a", "b", "aa", S("a\0", 2), S("\0", 1), "A", "\x01", "\xc3\xa9", "a key that does not fit into a small string", "a key that does not fit into a small strinh", S(300, 'k') };
    for (const S& k : keys) {
        const S P = mc::show(k, 40);
        auto has = [k](Mod& m) { return m && m->k == ref::Obj && m->o.count(k); };
        auto el = [k, has](Mod& m) -> const Node& {
            if (!has(m)) throw Refused();
            return m->o.at(k);
        };
        con("at(" + P + ")", [k](const value& v) { return v.at(k).to_string(); }, [el](Mod& m) { return ref::dump(el(m)); });
        con("as_object().at(" + P + ")", [k](const value& v) { return v.as_object().at(k).to_string(); }, [el](Mod& m) { return ref::dump(el(m)); });
        con("contains(" + P + ")", [k](const value& v) { return b(v.contains(k)); }, [has](Mod& m) { return b(has(m)); });
        con("exists(" + P + ")", [k](const value& v) { return b(v.exists(k)); }, [has](Mod& m) { return b(has(m)); });
        con("find_value(" + P + ")", [k](const value& v) { auto x = v.find_value(k); return x ? x->to_string() : S("-"); }, [=](Mod& m) { return has(m) ? ref::dump(el(m)) : S("-"); });
        con("find(" + P + ")", [k](const value& v) { auto x = v.find(k); return x ? x->to_string() : S("-"); }, [=](Mod& m) { return has(m) ? ref::dump(el(m)) : S("-"); });
        con("find<int>(" + P + ")", [k](const value& v) { auto x = v.find<int>(k); return x ? std::to_string(*x) : S("-"); }, [=](Mod& m) { return has(m) && M<int>::fits(el(m)) ? std::to_string(M<int>::of(el(m))) : S("-"); });
        con("get(" + P + ", -5)", [k](const value& v) { return std::to_string(v.get(k, -5)); }, [=](Mod& m) { return has(m) && M<int>::fits(el(m)) ? std::to_string(M<int>::of(el(m))) : S("-5"); });
        con("get(" + P + ", a, d)", [k](const value& v) { return v.get(k, "a", "d"); }, [=](Mod& m) { return has(m) && el(m).k == ref::Obj && el(m).o.count("a") && el(m).o.at("a").k == ref::Str ? el(m).o.at("a").s : S("d"); });
        con("as_object() lookups " + P, [k](const value& v) { auto& a = v.as_object(); auto x = a.find_value(k); if (bool(a.find(k)) != (x != nullptr) || a.contains(k) != (x != nullptr) || a.exists(k) != (x != nullptr)) mc::fail("lookups disagree"); return x ? x->to_string() : S("-"); }, [=](Mod& m) {
            if (need(m).k != ref::Obj) throw Refused();
            return has(m) ? ref::dump(el(m)) : S("-");
        });
        add("erase(" + P + ")", [k](value& v) { return b(v.erase(k)); }, [k](Mod& m) { return b(ed::need_obj(need(m)).o.erase(k) > 0); }, true);
    }
    // writing
    for (auto& x : ed::edits())
        if (x.name != "= v + lvalue" && x.name != "= v | lvalue")
            add(x.name, x.impl, [x](Mod& m) {
                if (!m) {
                    if (x.name.substr(0, 1) == "=" || x.name == "clear()" || x.name == "move out and back" || x.name == "iterate and overwrite") return S("?");
                    throw Refused();
                }
                return x.model(*m);
            }, true);
    return r;
}

static std::vector<Val> values(bool th)
{
    std::vector<Val> r;
    auto add = [&](S n, std::function<void(value&)> m) { r.push_back({ std::move(n), std::move(m) }); };
    const std::vector<Node> leaves = { ref::null(), ref::boolean(true), ref::num("1"), ref::str("s") };
    std::vector<Node> ns = tr::flat(tr::trees(th ? 5 : 4, leaves, { "", "a" }));
    for (const char* t : { "0", "-0", "-1", "1.0", "1e2", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
                           "18446744073709551615", "18446744073709551616", "1e38", "1e39", "1e308", "1e309", "-1e400", "1e-400", "1e4932", "1e5000", "123456789012345678901234567890" })
        if (S(t) != "-0") ns.push_back(ref::num(t));
    ns.push_back(ref::boolean(false));
    ns.push_back(ref::num(S(150, '9')));
    // strings whose texts end around where messages are cut, in characters of every width
    for (size_t len = 90; len <= 104; ++len)
        for (S c : { S("\xc3\xa9"), S("\xe2\x82\xac"), S("\xf0\x9f\x98\x80"), S("\""), S("\x01"), S("x") }) {
            S s(len, 'x');
            for (int k = 0; k < 12; ++k) s += c;
            ns.push_back(ref::str(s));
        }
    for (S s : { S("true"), S("1"), S("null"), S("\0", 1), S("\n"), S("[1]"), S(3000, 'y') }) ns.push_back(ref::str(s));
    Node big = ref::arr(), bo = ref::obj();
    for (int i = 0; i < 260; ++i) {
        big.a.push_back(ref::num(std::to_string(i)));
        bo.o["m" + std::to_string(i)] = ref::num(std::to_string(i));
    }
    bo.o["a key that does not fit into a small string"] = ref::str("here");
    bo.o["\xc3\xa9"] = ref::num("4");
    bo.o[S("a\0", 2)] = ref::num("5");
    ns.push_back(big);
    ns.push_back(bo);
    for (auto& n : ns) add(ref::dump(n), [n](value& v) { v = ref::build(n); });
    add("default", [](value&) {});
    add("invalid", [](value& v) { v = json::invalid_value(); });
    add("copy of invalid", [](value& v) { const value i = json::invalid_value(); v = value(i); });
    add("element of an array with invalid", [](value& v) { json::array a; a.emplace_back(json::invalid_value()); v = a[0]; });
    // moved from, in every way, from every kind
    for (auto& n : { ref::null(), ref::boolean(true), ref::num("1"), ref::num(S(40, '7')), ref::str("s"), ref::str(S(40, 's')), ref::arr(), ref::obj(), ref::arr({ ref::num("1"), ref::str("x") }), ref::obj({ { "a", ref::num("5") } }) }) {
        const S t = " from " + ref::dump(n);
        add("moved by construction" + t, [n](value& v) { v = ref::build(n); value w(std::move(v)); ref::expect_same(w, n, "moved-to value"); });
        add("moved by assignment" + t, [n](value& v) { v = ref::build(n); value w = 3; w = std::move(v); ref::expect_same(w, n, "moved-to value"); });
        add("moved into an array" + t, [n](value& v) { v = ref::build(n); json::array w; w.emplace_back(std::move(v)); ref::expect_same(w[0], n, "moved-to value"); });
        add("moved into an object" + t, [n](value& v) { v = ref::build(n); json::object w; w.emplace("k", std::move(v)); ref::expect_same(w.at("k"), n, "moved-to value"); });
        add("moved into a value" + t, [n](value& v) { v = ref::build(n); value w; w["x"] = std::move(v); ref::expect_same(w.at("x"), n, "moved-to value"); });
        add("swapped" + t, [n](value& v) { v = ref::build(n); value w = "other"; std::swap(v, w); ref::expect_same(w, n, "swapped value"); });
        add("moved to itself" + t, [n](value& v) { v = ref::build(n); value& w = v; v = std::move(w); });
        if (n.k == ref::Arr) {
            add("array moved out" + t, [n](value& v) { v = ref::build(n); json::array a = std::move(v.as_array()); ref::expect_same(a, n, "moved-to array"); });
            add("array appended away" + t, [n](value& v) { v = ref::build(n); json::array a; a += std::move(v.as_array()); ref::expect_same(a, n, "moved-to array"); });
            add("array operator+" + t, [n](value& v) { v = ref::build(n); json::array a = std::move(v.as_array()) + json::array {}; ref::expect_same(a, n, "moved-to array"); });
            add("value operator+" + t, [n](value& v) { v = ref::build(n); value a = std::move(v) + json::array {}; ref::expect_same(a, n, "moved-to value"); });
            add("as<vector> of it" + t, [n](value& v) { v = ref::build(n); auto a = std::move(v).as<std::vector<value>>(); ref::expect_same(a, n, "vector"); });
            add("cast to vector" + t, [n](value& v) { v = ref::build(n); auto a = static_cast<std::vector<value>>(std::move(v)); ref::expect_same(a, n, "vector"); });
        }
        if (n.k == ref::Obj) {
            add("object moved out" + t, [n](value& v) { v = ref::build(n); json::object a = std::move(v.as_object()); ref::expect_same(a, n, "moved-to object"); });
            add("object merged away" + t, [n](value& v) { v = ref::build(n); json::object a; a |= std::move(v.as_object()); ref::expect_same(a, n, "moved-to object"); });
            add("value operator|" + t, [n](value& v) { v = ref::build(n); value a = std::move(v) | json::object {}; ref::expect_same(a, n, "moved-to value"); });
            add("cast to map" + t, [n](value& v) { v = ref::build(n); auto a = static_cast<std::map<S, value>>(std::move(v)); ref::expect_same(a, n, "map"); });
        }
        add("cleared" + t, [n](value& v) { v = ref::build(n); v.clear(); });
    }
    return r;
}

static S state_of(const value& v, Mod& m)
{
    if (m) return ref::diff(v, *m);
    if (v.valid() || v.type() != value::value_type::invalid) return "no longer invalid";
    return "";
}

static void access(const Val& how, const Acc& acc)
{
    value v;
    how.make(v);
    Mod m;
    if (v.valid()) m = ref::readout(v);
    const Mod was = m;
    const bool invalid = !m;
    S want, got;
    bool refuse = false, refused = false;
    try {
        want = acc.model(m);
    }
    catch (const Refused&) {
        refuse = true;
        m = was;
    }
    mc::step();
    try {
        got = acc.impl(v);
    }
    catch (const mc::Violation&) {
        throw;
    }
    catch (const std::exception& e) {
        refused = true;
        if (!e.what() || !*e.what()) mc::fail("refused without a text");
        if (!utf8(e.what())) mc::fail("the text of the exception is malformed: " + mc::show(e.what()));
    }
    catch (...) {
        mc::fail("refused with something that is not a standard exception");
    }
    if (want == "?") { // assignments replace even an invalid value, others are open
        value w = v;
        w = 5;
        if (w.to_string() != "5") mc::fail("cannot be assigned");
        return;
    }
    if (refuse != refused) mc::fail(refuse ? "not refused: " + got : "refused");
    if (!refuse && got != want) mc::fail("gives " + got + ", expected " + want);
    S d = state_of(v, m);
    if (!d.empty()) mc::fail(S(refuse || !acc.writes ? "the value changed: " : "wrong value: ") + d);
    if (invalid) return;
    mc::outcome(mc::hash(acc.name, refuse));
}

// Observers of an invalid value, alone and inside containers: any answer or a standard refusal, no crash.
static void invalid(int i)
{
    const value x = json::invalid_value();
    value v = x;
    if (i & 1) v = json::array { 1, x, "s" };
    if (i & 2) v = json::object { { "a", v }, { "b", 1 } };
    if (i & 4) v = json::array { v, v };
    const json::array in { v };
    auto any = [&](const char* what, auto f) {
        mc::step();
        try {
            f();
        }
        catch (const mc::Violation&) {
            throw;
        }
        catch (const std::exception& e) {
            if (!e.what() || !*e.what() || !utf8(e.what())) mc::fail(S(what) + ": bad text");
        }
    };
    any("to_string", [&] { (void)v.to_string(); });
    any("dumps", [&] { (void)v.dumps(); (void)v.dumps(0); (void)v.dumps(3); });
    any("format", [&] { (void)v.format(); });
    any("<<", [&] { std::ostringstream o; o << v; });
    any("==", [&] { (void)(v == v); });
    any("!=", [&] { (void)(v != x); });
    any("== null", [&] { if (v == value()) mc::fail("equal to null"); });
    any("copy", [&] { value c = v; value d; d = c; value e = std::move(c); e.clear(); if (!e.is_null()) mc::fail("clear"); });
    any("as struct", [&] { (void)v.as<std::map<S, std::vector<int>>>(); });
    any("as values", [&] { (void)v.as<std::vector<value>>(); });
    any("get", [&] { (void)v.get("a", 0); (void)v.get(0, "a", 1, S()); (void)v.get("a", 0, value()); });
    any("all", [&] { (void)v.all<int>(); });
    any("in array", [&] { (void)in.to_string(); });
    any("in array ==", [&] { (void)(in == in); });
    any("vector from", [&] { std::vector<value> k { v, v }; (void)value(k).to_string(); });
    any("edit", [&] { value c = v; c["a"] = 1; });
    any("edit", [&] { value c = v; c.emplace(1); });
    any("edit", [&] { value c = v; c += json::array { 1 }; });
    any("edit", [&] { value c = v; c |= json::object {}; });
    any("iterate", [&] { for (auto& e : v.as_array()) (void)e.valid(); for (auto& e : v.as_object()) (void)e.second.valid(); });
    mc::validated();
}

// Raw texts of the wrong form in values made from raw data: refused by typed reads, kept by everything else.
static void raw(const S& text, bool boolean)
{
    using T = value::value_type;
    const value v(boolean ? T::boolean : T::number, text);
    auto any = [&](auto f) {
        mc::step();
        try {
            f();
        }
        catch (const std::exception& e) {
            if (!e.what() || !*e.what()) mc::fail("bad text");
        }
        if (v.type() != (boolean ? T::boolean : T::number)) mc::fail("the kind changed");
    };
    any([&] { if (v.as_boolean() != (text == "true")) mc::fail("wrong boolean"); });
    any([&] { (void)v.as_integer(); });
    any([&] { (void)v.as_unsigned(); });
    any([&] { (void)v.as_long_long(); });
    any([&] { (void)v.as_unsigned_long_long(); });
    any([&] { (void)v.as_float(); });
    any([&] { (void)v.as_double(); });
    any([&] { (void)v.as_long_double(); });
    any([&] { (void)v.as<std::vector<int>>(); });
    any([&] { (void)v.value_info(); });
    any([&] { (void)v.is<int>(); (void)v.is<double>(); (void)v.is<bool>(); (void)v.is<S>(); (void)v.is<char>(); (void)v.is<short>(); });
    if (boolean && text != "true" && text != "false") {
        try {
            (void)v.as_boolean();
            mc::fail("malformed boolean accepted");
        }
        catch (const std::exception&) {
        }
    }
    mc::validated();
}

static void setup(mc::Engine& e)
{
    static const auto V = values(mc::thorough());
    static const auto A = accessors();
    e.add("matrix", V.size() * A.size(), [](uint64_t i) {
        access(V[i / A.size()], A[i % A.size()]);
        mc::validated();
        mc::statei(i, 28);
    }, [](uint64_t i) { return A[i % A.size()].name + " on " + mc::show(V[i / A.size()].name, 120); });
    // values of every size
    dm::add_sizes(e, "matrix at every size", 
#ifdef MC_ASAN
        dm::ladder(mc::thorough() ? 80 : 20, mc::thorough() ? 1024 : 128),
#else
        dm::ladder(mc::thorough() ? 140 : 36, mc::thorough() ? 4096 : 1024),
#endif
        [](size_t n) {
        std::vector<Node> w = { ref::str(S(n, 'x')), ref::num(dm::digits(n + 1, 1)), ref::num("0." + dm::digits(n + 1, 2)), ref::str(S(n, 'y') + "\n\xe2\x82\xac") };
        for (size_t k : { 0, 1 })
            for (auto& x : dm::mixed(n, k)) {
                w.push_back(x);
                if (x.k == ref::Obj) w.back().o["a"] = x.o.empty() ? ref::null() : x.o.rbegin()->second;
            }
        for (int k : { 2, 4 }) w.push_back(dm::nest(std::min<size_t>(n, 300), k));
        for (auto& x : w) {
            const S d = ref::dump(x);
            const Val how { d.size() > 100 ? d.substr(0, 60) + "..." + d.substr(d.size() - 30) : d, [&x](value& v) { v = ref::build(x); } };
            for (auto& a : A) {
                try {
                    access(how, a);
                }
                catch (const mc::Violation& v) {
                    mc::fail(a.name + " on " + how.name + ": " + v.msg);
                }
            }
        }
        mc::validated();
    });
    e.add("invalid", 8, [](uint64_t i) { invalid(int(i)); }, {}, 1);
    static std::vector<S> R = { "" };
    for (S al = "01-+.eE tn"; R.size() < (mc::thorough() ? 111111u : 11111u);) {
        static size_t done = 0;
        for (char c : al) R.push_back(R[done] + c);
        ++done;
    }
    for (S t : { S("true"), S("false"), S("TRUE"), S("true "), S("null"), S("nan"), S("inf"), S("-inf"), S("0x10"), S("1\0", 2), S("\0", 1), S(400, '1'), S("1e99999999999999999999"), S("1e-99999999999999999999"), S("-"), S("\xff") }) R.push_back(t);
    e.add("raw", R.size() * 2, [](uint64_t i) { raw(R[i / 2], i & 1); mc::statei(i, 29); }, [](uint64_t i) { return mc::show(R[i / 2]); });
    e.notes.push_back(std::to_string(V.size()) + " values x " + std::to_string(A.size()) + " accessors");
    // exceptions
    e.add("exceptions", 1, [](uint64_t) {
        json::exception d;
        if (!d.what() || !*d.what()) mc::fail("a default exception has no text");
        json::exception x("some text"), y(x), z;
        z = y;
        json::exception w(std::move(y));
        for (auto* p : { &x, &z, &w })
            if (S(p->what()) != "some text") mc::fail("the text of an exception is lost");
        if (!*json::exception("").what()) mc::fail("an exception has an empty text");
        const std::exception& s = x;
        if (S(s.what()) != "some text") mc::fail("the text is not that of the standard exception");
    });
}
MC_MAIN(setup)
