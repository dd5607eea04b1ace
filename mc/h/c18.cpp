// C18: type queries, conversions and lookups agree.  MC_PART selects the part of the type family.
#include "build.hpp"
#include "dims.hpp"
#include "fam.hpp"
#include "trees.hpp"
using fam::M;
using ref::Node;
#ifndef MC_PART
#define MC_PART fam::Scalars
#endif

template <typename T>
static void check_type(const Node& n, const json::value& v)
{
    const bool fits = M<T>::fits(n);
    const std::string who = M<T>::name();
    mc::step(8);
    mc::validated();
    mc::outcome(mc::hash(who, fits));
    if (v.is<T>() != fits) mc::fail("is<" + who + ">() is " + (fits ? "false" : "true"));
    auto conv = [&](const char* how, auto&& f) {
        try {
            const T t = f();
            if (!fits) mc::fail(std::string(how) + "<" + who + "> does not refuse");
            if (!M<T>::eq(t, M<T>::of(n))) mc::fail(std::string(how) + "<" + who + "> has other content");
        }
        catch (const std::exception& ex) {
            if (fits) mc::fail(std::string(how) + "<" + who + "> refuses: " + ex.what());
        }
    };
    conv("as", [&] { return v.as<T>(); });
    if constexpr (!std::is_same_v<T, std::string_view>) conv("as on a temporary", [&] { return json::value(v).as<T>(); });

    // lookups
    json::value arr = json::array { json::value("x"), v }, obj = json::object { { "k", v }, { "x", json::array() } };
    auto look = [&](const char* how, auto&& got) {
        if (got.has_value() != fits) mc::fail(std::string(how) + "<" + who + "> returned " + (fits ? "nothing" : "something"));
        if (fits && !M<T>::eq(*got, M<T>::of(n))) mc::fail(std::string(how) + "<" + who + "> has other content");
    };
    look("value::find(pos)", arr.find<T>(1));
    look("value::find(key)", obj.find<T>("k"));
    look("array::find", std::as_const(arr).as_array().find<T>(1));
    look("object::find", std::as_const(obj).as_object().find<T>("k"));
    if (arr.find<T>(2) || obj.find<T>("nope") || obj.find<T>("") || obj.find<T>(0) || arr.find<T>("k") || v.find<T>(size_t(-1))) mc::fail("find<" + who + "> found something that is not there");

    // all-elements query
    bool all = n.k == ref::Arr || n.k == ref::Obj;
    for (auto& e : n.a) all = all && M<T>::fits(e);
    for (auto& [k, e] : n.o) all = all && M<T>::fits(e);
    if (v.all<T>() != all) mc::fail("all<" + who + ">() is " + (all ? "false" : "true"));
    if (n.k == ref::Arr && v.as_array().all<T>() != all) mc::fail("array::all<" + who + "> differs");
    if (n.k == ref::Obj && v.as_object().all<T>() != all) mc::fail("object::all<" + who + "> differs");
    if (ref::readout(v) != n) mc::fail("a query or conversion to " + who + " changed the value to " + v.to_string());
    if (ref::readout(arr) != ref::arr({ ref::str("x"), n })) mc::fail("a lookup of " + who + " changed the array");
    if (ref::readout(obj) != ref::obj({ { "k", n }, { "x", ref::arr() } })) mc::fail("a lookup of " + who + " changed the object");
}
template <typename L>
static void check_tree(const Node& n, int route)
{
    const json::value v = bd::by(route, n);
    mc::state(ref::dump(n));
    L::each([&](auto* p) { check_type<std::remove_pointer_t<decltype(p)>>(n, v); });
}

static void check_presence(const Node& n)
{
    const json::value v = ref::build(n);
    mc::step();
    mc::validated();
    for (size_t p : { size_t(0), size_t(1), size_t(2), size_t(3), n.a.size(), n.a.size() + 1, size_t(1) << 31, size_t(1) << 32, (size_t(1) << 32) + 1, ~size_t(0) }) {
        bool want = n.k == ref::Arr && p < n.a.size();
        if (v.contains(p) != want || v.exists(p) != want || (v.find_value(p) != nullptr) != want || v.find(p).has_value() != want) mc::fail("presence of position " + std::to_string(p) + " is wrong");
        if (want && (*v.find_value(p) != v.at(p) || *v.find(p) != v.at(p))) mc::fail("lookup of position " + std::to_string(p) + " differs");
        if (n.k == ref::Arr) {
            auto& a = v.as_array();
            if (a.contains(p) != want || a.exists(p) != want || (a.find_value(p) != nullptr) != want || a.find(p).has_value() != want) mc::fail("array presence of position " + std::to_string(p) + " is wrong");
        }
    }
    for (const char* k : { "a", "b", "", "c", "A", "aa", "0" }) {
        bool want = n.k == ref::Obj && n.o.count(k);
        if (v.contains(k) != want || v.exists(k) != want || (v.find_value(k) != nullptr) != want || v.find(k).has_value() != want) mc::fail(std::string("presence of key ") + k + " is wrong");
        if (want && (*v.find_value(k) != v.at(k) || *v.find(k) != v.at(k))) mc::fail(std::string("lookup of key ") + k + " differs");
        if (n.k == ref::Obj) {
            auto& o = v.as_object();
            if (o.contains(k) != want || o.exists(k) != want || (o.find_value(k) != nullptr) != want || o.find(k).has_value() != want) mc::fail(std::string("object presence of key ") + k + " is wrong");
        }
    }
    using K = json::value::value_type;
    const K kinds[] = { K::null, K::boolean, K::number, K::string, K::array, K::object };
    const bool is[] = { v.is_null(), v.is_boolean(), v.is_number(), v.is_string(), v.is_array(), v.is_object() };
    for (int k = 0; k < 6; ++k)
        if (is[k] != (k == int(n.k)) || (v.type() == kinds[k]) != (k == int(n.k))) mc::fail("kind queries are inconsistent");
    if (!v.valid() || v.empty() != n.emptyish()) mc::fail("valid() or empty() is wrong");
    static const char* names[] = { "null", "boolean", "number", "string", "array", "object" };
    if (v.type_name() != names[n.k]) mc::fail("type_name() is " + v.type_name());
    if (ref::readout(v) != n) mc::fail("a presence query changed the value");
}

static void setup(mc::Engine& e)
{
    const bool th = mc::thorough();
    static std::vector<Node> leaves = { ref::null(), ref::boolean(true), ref::num("1"), ref::str("a"), ref::str("") };
    static auto all = tr::flat(tr::trees(th ? 6 : 5, leaves, { "a", "b" }));
    static std::vector<Node> wide = { ref::null(), ref::boolean(false), ref::num("0"), ref::num("-1"), ref::num("1.5"), ref::num("2147483648"), ref::num("-9223372036854775809"), ref::num("18446744073709551615"),
                                      ref::num("1e400"), ref::num("1e-400"), ref::num("1e39"), ref::str("true"), ref::str("1"), ref::str("\"") };
    static auto more = tr::flat(tr::trees(th ? 4 : 3, wide, { "k" }));
    e.add("trees", all.size(), [](uint64_t i) { check_tree<MC_PART>(all[i], i % bd::kRoutes); }, [](uint64_t i) { return ref::dump(all[i]); });
    e.add("numbers-and-texts", more.size(), [](uint64_t i) { check_tree<MC_PART>(more[i], i % bd::kRoutes); }, [](uint64_t i) { return ref::dump(more[i]); });
    static auto pres = tr::flat(tr::trees(th ? 5 : 4, leaves, { "a", "b", "", "0" }));
    e.add("presence", pres.size(), [](uint64_t i) { check_presence(pres[i]); }, [](uint64_t i) { return ref::dump(pres[i]); });
    dm::add_mixed(e, "every-size", th ? 40 : 9, th ? 140 : 40, th ? 1u << 12 : 1u << 9, [](const Node& n) { check_tree<MC_PART>(n, int(n.a.size() + n.o.size()) % bd::kRoutes); });
    // presence at every position of arrays and every key of objects of every size
    dm::add_sizes(e, "presence-at-every-size", dm::ladder(th ? 600 : 270, th ? 1u << 17 : 1u << 14), [](size_t n) {
        Node a = ref::arr(), o = ref::obj();
        for (size_t i = 0; i < n; ++i) {
            a.a.push_back(i % 5 ? ref::num(std::to_string(i)) : ref::str(std::to_string(i)));
            o.o[dm::key(i * 7919 % 1000003)] = i % 5 ? ref::num(std::to_string(i)) : ref::str(std::to_string(i));
        }
        const json::value va = ref::build(a), vo = ref::build(o);
        auto fail = [](const char* what, size_t i) { mc::fail(std::string(what) + " of element " + std::to_string(i)); };
        for (size_t i = 0; i < n + 3; ++i) {
            const bool in = i < n, num = in && i % 5;
            const std::string k = dm::key(i < n ? i * 7919 % 1000003 : 2000000 + i);
            mc::step(2);
            if (va.contains(i) != in || va.exists(i) != in || va.as_array().contains(i) != in || vo.contains(k) != in || vo.as_object().contains(k) != in) fail("presence", i);
            if (bool(va.find(i)) != in || bool(vo.find(k)) != in || bool(va.as_array().find(i)) != in || bool(vo.as_object().find(k)) != in) fail("find", i);
            if ((va.find_value(i) != nullptr) != in || (vo.find_value(k) != nullptr) != in) fail("find_value", i);
            if (bool(va.find<int>(i)) != num || bool(vo.find<int>(k)) != num) fail("typed find", i);
            if (bool(va.find<std::string>(i)) != (in && !num) || bool(vo.find<std::string>(k)) != (in && !num)) fail("typed find", i);
            if (num && (*va.find<int>(i) != int(i) || *vo.find<int>(k) != int(i))) fail("content", i);
            if (in && (va.at(i) != ref::build(a.a[i]) || vo.at(k) != va.at(i))) fail("at", i);
        }
        mc::validated();
    });
}
MC_MAIN(setup)
