// C20 (containers) and C25 (nullables, variants, null): C++ objects <-> JSON.  MC_PART selects the type family.
#include "build.hpp"
#include "dims.hpp"
#include "fam.hpp"
#include "trees.hpp"
using fam::M;
using ref::Node;
#ifndef MC_PART
#define MC_PART fam::Containers
#endif

template <typename T>
struct Shape
{
    static constexpr bool array = fam::sequence<T>, object = false;
};
template <typename E>
struct Shape<std::map<std::string, E>>
{
    static constexpr bool array = false, object = true;
};
template <typename E>
struct Shape<std::unordered_map<std::string, E>> : Shape<std::map<std::string, E>>
{
};
template <typename... E>
struct Shape<std::tuple<E...>>
{
    static constexpr bool array = true, object = false;
};
template <typename A, typename B>
struct Shape<std::pair<A, B>> : Shape<std::tuple<A, B>>
{
};
template <>
struct Shape<json::array>
{
    static constexpr bool array = false, object = false;
};
template <>
struct Shape<json::object> : Shape<json::array>
{
};

// Where static_cast reaches the library at all: the converting constructors of std::optional, one-element std::tuple
// and variants of json::value win over any conversion operator.
template <typename T>
constexpr bool castable = true;
template <typename T>
constexpr bool castable<std::tuple<T>> = false;
template <typename T>
constexpr bool castable<std::optional<T>> = false;
template <typename... T>
constexpr bool castable<std::variant<T...>> = !(std::is_constructible_v<T, json::value> || ...) || (!std::is_same_v<T, json::value> && ...);
template <typename T>
constexpr bool copyable = std::is_copy_constructible_v<T>;
template <typename T, typename A>
constexpr bool copyable<std::vector<T, A>> = copyable<T>;
template <typename T, typename A>
constexpr bool copyable<std::list<T, A>> = copyable<T>;
template <typename T>
constexpr bool copyable<std::map<std::string, T>> = copyable<T>;
template <typename T>
constexpr bool copyable<std::unordered_map<std::string, T>> = copyable<T>;

template <typename T>
static void must(const json::value& v, const Node& want, const char* how)
{
    mc::step();
    auto got = ref::readout(v);
    if (got != want) mc::fail("building " + M<T>::name() + " by " + how + " gives " + ref::dump(got) + ", expected " + ref::dump(want));
}
template <typename T>
static void build_all(const Node& n)
{
    const T model = M<T>::of(n);
    const Node j = M<T>::json(model);
    {
        T x = M<T>::of(n);
        // the iteration order of a hash container may differ between two builds of the same content
        const Node jx = M<T>::json(x);
        const T& c = x;
        must<T>(json::value(x), jx, "lvalue");
        must<T>(json::value(c), jx, "const lvalue");
        json::value v = 5;
        v = x;
        must<T>(v, jx, "assignment");
        json::array a;
        a.emplace_back(x);
        a.push_back(c);
        must<T>(a, ref::arr({ jx, jx }), "array::emplace_back");
        json::object o;
        o.emplace("k", x);
        o["l"] = c;
        must<T>(o, ref::obj({ { "k", jx }, { "l", jx } }), "object::emplace");
        json::value e;
        e.emplace(x);
        e.emplace(c);
        must<T>(e, ref::arr({ jx, jx }), "value::emplace");
        must<T>(json::object { { "k", x }, { "l", c } }, ref::obj({ { "k", jx }, { "l", jx } }), "initializer list");
        must<T>(json::array { x, c }, ref::arr({ jx, jx }), "initializer list");
        if constexpr (Shape<T>::array) {
            must<T>(json::array(x), jx, "array(lvalue)");
            must<T>(json::array(c), jx, "array(const lvalue)");
            json::array b { 1 };
            b = json::array(c);
            must<T>(b, jx, "array assignment");
        }
        if constexpr (Shape<T>::object) {
            must<T>(json::object(x), jx, "object(lvalue)");
            must<T>(json::object(c), jx, "object(const lvalue)");
        }
        if constexpr (copyable<T>) {
            std::vector<T> vx { x, x };
            must<T>(json::value(vx), ref::arr({ jx, jx }), "vector of it");
            must<T>(json::value(std::move(vx)), ref::arr({ jx, jx }), "temporary vector of it");
            std::map<std::string, T> mx { { "p", x }, { "q", x } };
            must<T>(json::value(mx), ref::obj({ { "p", jx }, { "q", jx } }), "map of it");
            must<T>(json::value(std::move(mx)), ref::obj({ { "p", jx }, { "q", jx } }), "temporary map of it");
            must<T>(json::value(std::make_tuple(x, 1)), ref::arr({ jx, ref::num("1") }), "tuple with it");
            must<T>(json::value(std::array<T, 2> { x, x }), ref::arr({ jx, jx }), "fixed array of it");
        }
        if (M<T>::json(x) != jx) mc::fail("building from " + M<T>::name() + " changed it to " + ref::dump(M<T>::json(x)));
    }
    {
        auto moved = [&](const char* how, auto&& f) {
            T x = M<T>::of(n);
            const Node jx = M<T>::json(x);
            must<T>(f(x), jx, how);
        };
        moved("rvalue", [](T& x) { return json::value(std::move(x)); });
        moved("move assignment", [](T& x) {
            json::value v = "s";
            v = std::move(x);
            return v;
        });
        moved("emplace_back of an rvalue", [](T& x) {
            json::array a;
            a.emplace_back(std::move(x));
            return a[0];
        });
        if constexpr (Shape<T>::array) moved("array(rvalue)", [](T& x) { return json::value(json::array(std::move(x))); });
        if constexpr (Shape<T>::object) moved("object(rvalue)", [](T& x) { return json::value(json::object(std::move(x))); });
    }
    (void)j;
}

template <typename T>
static void read_all(const Node& n)
{
    const bool fits = M<T>::fits(n);
    const json::value v = ref::build(n);
    const std::string who = M<T>::name();
    if (v.is<T>() != fits) mc::fail("is<" + who + "> is " + (fits ? "false" : "true"));
    auto conv = [&](const char* how, auto&& f) {
        mc::step();
        try {
            const T t = f();
            if (!fits) mc::fail(std::string(how) + " to " + who + " is not refused");
            if (!M<T>::eq(t, M<T>::of(n))) mc::fail(std::string(how) + " to " + who + " has other content: " + ref::dump(M<T>::json(t)));
        }
        catch (const std::exception& ex) {
            if (fits) mc::fail(std::string(how) + " to " + who + " refused: " + ex.what());
        }
    };
    conv("as", [&]() -> T { return v.as<T>(); });
    conv("as on a temporary", [&]() -> T { return json::value(v).as<T>(); });
    if constexpr (castable<T>) {
        conv("cast", [&]() -> T { return static_cast<T>(v); });
        conv("cast of a temporary", [&]() -> T { return static_cast<T>(json::value(v)); });
        conv("cast of a non-const value", [&]() -> T {
            json::value w = v;
            T t = static_cast<T>(w);
            if (w != v) mc::fail("casting an lvalue consumed it");
            return t;
        });
    }
    if constexpr (Shape<T>::array)
        if (n.k == ref::Arr) {
            const json::array& a = v.as_array();
            conv("array::as", [&]() -> T { return a.template as<T>(); });
            conv("array::as on a temporary", [&]() -> T { return json::array(a).template as<T>(); });
            if constexpr (castable<T>) {
                conv("array cast", [&]() -> T { return static_cast<T>(a); });
                conv("cast of a temporary array", [&]() -> T { return static_cast<T>(json::array(a)); });
            }
        }
    if constexpr (Shape<T>::object)
        if (n.k == ref::Obj) {
            const json::object& o = v.as_object();
            conv("object::as", [&]() -> T { return o.template as<T>(); });
            conv("object::as on a temporary", [&]() -> T { return json::object(o).template as<T>(); });
            conv("object cast", [&]() -> T { return static_cast<T>(o); });
            conv("cast of a temporary object", [&]() -> T { return static_cast<T>(json::object(o)); });
        }
    // as an element
    json::value in = json::array { v, v }, ob = json::object { { "p", v } };
    if constexpr (!std::is_same_v<T, std::nullptr_t>) {
        auto outer = [&](const char* how, auto&& f) {
            mc::step();
            try {
                auto t = f();
                if (!fits) mc::fail(std::string(how) + " of " + who + " is not refused");
                for (auto& x : t)
                    if (!M<T>::eq(x, M<T>::of(n))) mc::fail(std::string(how) + " of " + who + " has other content");
            }
            catch (const std::exception& ex) {
                if (fits) mc::fail(std::string(how) + " of " + who + " refused: " + ex.what());
            }
        };
        outer("vector", [&] { return in.as<std::vector<T>>(); });
        outer("temporary list", [&] { return static_cast<std::list<T>>(json::value(in)); });
        outer("fixed array", [&] { return static_cast<std::array<T, 2>>(json::value(in)); });
        outer("map", [&] {
            auto m = static_cast<std::map<std::string, T>>(json::value(ob));
            std::list<T> l;
            l.push_back(std::move(m.at("p")));
            return l;
        });
    }
    if (ref::readout(v) != n || ref::readout(in) != ref::arr({ n, n })) mc::fail("converting to " + who + " changed the value");
}

template <typename L>
static void check_tree(const Node& n)
{
    mc::state(ref::dump(n));
    L::each([&](auto* p) {
        using T = std::remove_pointer_t<decltype(p)>;
        mc::validated();
        mc::outcome(mc::hash(M<T>::name(), M<T>::fits(n)));
        read_all<T>(n);
        if (M<T>::fits(n)) build_all<T>(n);
    });
}

static void setup(mc::Engine& e)
{
    const bool th = mc::thorough();
    static std::vector<Node> leaves = { ref::null(), ref::boolean(true), ref::num("1"), ref::str("a") };
    static auto all = tr::flat(tr::trees(th ? 6 : 5, leaves, { "a", "b" }));
    e.add("trees", all.size(), [](uint64_t i) { check_tree<MC_PART>(all[i]); }, [](uint64_t i) { return ref::dump(all[i]); });
    // flat and one-deep sequences with more contents, in every order and multiplicity
    static std::vector<Node> seq;
    const std::vector<std::vector<Node>> alpha = { { ref::str("b"), ref::str("a"), ref::str(""), ref::str("long enough to leave the small string buffer"), ref::null() },
                                                   { ref::num("2"), ref::num("-7"), ref::num("2147483647"), ref::num("2147483648"), ref::num("1.5") },
                                                   { ref::boolean(true), ref::boolean(false), ref::str("true"), ref::null() } };
    for (auto& al : alpha)
        for (unsigned len = 0; len <= (th ? 6u : 4u); ++len)
            for (uint64_t i = 0; i < mc::ipow(al.size(), len); ++i) {
                mc::Dec d(i);
                Node a = ref::arr(), o = ref::obj();
                for (unsigned j = 0; j < len; ++j) {
                    auto& x = al[d(al.size())];
                    a.a.push_back(x);
                    o.o["key" + std::to_string(7 * j % 5)] = x;
                }
                seq.push_back(a);
                seq.push_back(o);
                if (len <= 3) seq.push_back(ref::arr({ a, a })), seq.push_back(ref::obj({ { "z", a }, { "y", o } })), seq.push_back(ref::arr({ o, ref::num("3") }));
            }
    e.add("sequences", seq.size(), [](uint64_t i) { check_tree<MC_PART>(seq[i]); }, [](uint64_t i) { return ref::dump(seq[i]); });
    e.add("lengths", 130 * 7,
          [](uint64_t i) {
              unsigned n = i / 7;
              Node a = ref::arr();
              for (unsigned j = 0; j < n; ++j) {
                  const unsigned kind = i % 7;
                  Node x = kind == 0 ? ref::num(std::to_string(j * 37 % 101)) : kind == 1 ? ref::str("s" + std::to_string(j * 37 % 101)) : kind == 2 ? ref::null() : kind == 3 ? ref::boolean(j % 3 == 0) : kind == 5 ? (j % 2 ? ref::str("p" + std::to_string(j)) : ref::num(std::to_string(j + 7))) : kind == 6 ? ref::arr({ ref::num(std::to_string(j)), ref::str("q" + std::to_string(j)) }) : ref::arr({ ref::num("1"), ref::str("t") });
                  a.a.push_back(x);
              }
              check_tree<MC_PART>(a);
              Node o = ref::obj();
              for (unsigned j = 0; j < n; ++j) o.o["k" + std::to_string(j)] = a.a[j];
              check_tree<MC_PART>(o);
          },
          [](uint64_t i) { return "length " + std::to_string(i / 7) + " kind " + std::to_string(i % 7); }, 4);
    dm::add_mixed(e, "every-size", th ? 40 : 9, th ? 140 : 40, th ? 1u << 12 : 1u << 9, [](const Node& n) { check_tree<MC_PART>(n); });
    // long strings inside
    dm::add_sizes(e, "every-string-size", dm::ladder(th ? 530 : 140, th ? 1u << 18 : 1u << 16), [](size_t n) {
        const std::string s(n, 's');
        for (const Node& x : { ref::str(s), ref::arr({ ref::str(s), ref::str(s + "t") }), ref::obj({ { s, ref::str(s) }, { s + "k", ref::str("t" + s) } }) }) check_tree<MC_PART>(x);
    });
}
MC_MAIN(setup)
