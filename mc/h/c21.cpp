// C21: building JSON never modifies its source unless it is moved from, and never what the source refers to or shares.
#include "build.hpp"
#include "dims.hpp"
#include "fam.hpp"
#include "trees.hpp"
#include <functional>
using fam::M;
using ref::Node;
using S = std::string;

// A non-owning view in the style of std::span (which the library takes for a fixed array and does not compile with).
template <typename T>
struct View
{
    using value_type = std::remove_const_t<T>;
    T* p = nullptr;
    size_t n = 0;
    View(T* p_, size_t n_) : p(p_), n(n_) {}
    T* begin() const { return p; }
    T* end() const { return p + n; }
    size_t size() const { return n; }
};

// A user type whose conversions tell copies from moves.
struct Probe
{
    S s;
    bool operator==(const Probe& r) const { return s == r.s; }
};
template <>
class json::ext::jsonization<Probe>
{
public:
    json::value to_json(const Probe& p) const { return json::value(p.s); }
    json::value move_to_json(Probe p) const
    {
        json::value v(std::move(p.s));
        return v;
    }
    bool check_json(const json::value& v) const { return v.is_string(); }
    bool from_json(const json::value& v, Probe& p) const
    {
        if (!v.is_string()) return false;
        p.s = v.as_string();
        return true;
    }
    bool move_from_json(json::value v, Probe& p) const { return from_json(v, p); }
};
struct Plain
{
    S s;
    std::vector<S> l;
    std::shared_ptr<S> p;
    std::optional<S> o;
    MEO_JSONIZATION(s, l, p, o);
};
template <>
struct fam::M<Probe>
{
    static std::string name() { return "Probe"; }
    static bool fits(const Node& n) { return n.k == ref::Str; }
    static Probe of(const Node& n) { return { n.s }; }
    static Node json(const Probe& p) { return ref::str(p.s); }
    static bool eq(const Probe& a, const Probe& b) { return a.s == b.s; }
};
template <>
struct fam::M<Plain>
{
    static std::string name() { return "Plain"; }
    static bool fits(const Node& n) { return n.k == ref::Str; }
    static Plain of(const Node& n) { return { n.s, { n.s, "x" }, std::make_shared<S>(n.s), n.s }; }
    static Node json(const Plain& p)
    {
        Node n = ref::obj({ { "s", ref::str(p.s) }, { "p", p.p ? ref::str(*p.p) : ref::null() }, { "o", p.o ? ref::str(*p.o) : ref::null() }, { "l", ref::arr() } });
        for (auto& x : p.l) n.o["l"].a.push_back(ref::str(x));
        return n;
    }
    static bool eq(const Plain& a, const Plain& b) { return json(a) == json(b); }
};
template <typename T>
struct fam::M<T&>
{
    static Node json(const T& t) { return fam::M<T>::json(t); }
};

static void same(const json::value& v, const Node& want, const S& how)
{
    mc::step();
    Node got = ref::readout(v);
    if (got != want) mc::fail(how + " gives " + ref::dump(got) + ", expected " + ref::dump(want));
}

// `make()` builds a source; `intact()` fails when anything it refers to has changed; `json(src)` is its tree.
template <typename Make, typename Json, typename Intact>
static void source(const S& kind, Make&& make, Json&& json_of, Intact&& intact)
{
    auto fresh = [&](const S& how, auto&& f, bool moved) {
        auto src = make();
        const Node want = json_of(src);
        f(src, want);
        intact(kind + ", " + how);
        if (!moved && json_of(src) != want) mc::fail(kind + ", " + how + ": the source became " + ref::dump(json_of(src)));
    };
    using Src = decltype(make());
    fresh("lvalue", [&](Src& s, const Node& w) { same(json::value(s), w, kind); }, false);
    fresh("const lvalue", [&](Src& s, const Node& w) { same(json::value(std::as_const(s)), w, kind); }, false);
    fresh("const rvalue", [&](Src& s, const Node& w) { same(json::value(std::move(std::as_const(s))), w, kind); }, false);
    fresh("assignment", [&](Src& s, const Node& w) { json::value v = "old"; v = s; same(v, w, kind); }, false);
    fresh("emplace_back", [&](Src& s, const Node& w) { json::array a; a.emplace_back(s); a.push_back(s); same(a, ref::arr({ w, w }), kind); }, false);
    fresh("emplace", [&](Src& s, const Node& w) { json::object o; o.emplace("k", s); o.insert("l", s); o["m"] = s; same(o, ref::obj({ { "k", w }, { "l", w }, { "m", w } }), kind); }, false);
    fresh("value::emplace", [&](Src& s, const Node& w) { json::value v; v.emplace(s); same(v, ref::arr({ w }), kind); }, false);
    fresh("array list", [&](Src& s, const Node& w) { same(json::array { s, s }, ref::arr({ w, w }), kind); }, false);
    fresh("object list", [&](Src& s, const Node& w) { same(json::value { { "a", s }, { "b", s } }, ref::obj({ { "a", w }, { "b", w } }), kind); }, false);
    fresh("rvalue", [&](Src& s, const Node& w) { same(json::value(std::move(s)), w, kind + " moved"); }, true);
    fresh("move assignment", [&](Src& s, const Node& w) { json::value v = 1; v = std::move(s); same(v, w, kind + " moved"); }, true);
    fresh("emplace_back of rvalue", [&](Src& s, const Node& w) { json::array a; a.emplace_back(std::move(s)); same(a, ref::arr({ w }), kind + " moved"); }, true);
    fresh("emplace of rvalue", [&](Src& s, const Node& w) { json::object o; o.emplace("k", std::move(s)); same(o, ref::obj({ { "k", w } }), kind + " moved"); }, true);
    if constexpr (fam::sequence<Src> || fam::tuple_like<Src>) {
        fresh("array(lvalue)", [&](Src& s, const Node& w) { same(json::array(s), w, kind); }, false);
        fresh("array(const lvalue)", [&](Src& s, const Node& w) { same(json::array(std::as_const(s)), w, kind); }, false);
        fresh("array(rvalue)", [&](Src& s, const Node& w) { same(json::array(std::move(s)), w, kind + " moved"); }, true);
    }
    if constexpr (fam::keyed<Src> && !fam::jsonish<Src>) {
        fresh("object(lvalue)", [&](Src& s, const Node& w) { same(json::object(s), w, kind); }, false);
        fresh("object(rvalue)", [&](Src& s, const Node& w) { same(json::object(std::move(s)), w, kind + " moved"); }, true);
    }
    // wrapped: a tuple of references to it, by every category
    fresh("tie", [&](Src& s, const Node& w) { same(json::value(std::tie(s, s)), ref::arr({ w, w }), kind + " tied"); }, false);
    fresh("array(tie)", [&](Src& s, const Node& w) { same(json::array(std::tie(s)), ref::arr({ w }), kind + " tied"); }, false);
    fresh("pair of references", [&](Src& s, const Node& w) { std::pair<Src&, const Src&> p(s, s); same(json::value(std::move(p)), ref::arr({ w, w }), kind + " referred to"); }, false);
    fresh("forward_as_tuple", [&](Src& s, const Node& w) { same(json::value(std::forward_as_tuple(s, std::as_const(s))), ref::arr({ w, w }), kind + " referred to"); }, false);
    fresh("span", [&](Src& s, const Node& w) { View<Src> sp(&s, 1); same(json::value(sp), ref::arr({ w }), kind + " spanned"); same(json::array(std::move(sp)), ref::arr({ w }), kind + " spanned"); same(json::value(View<Src>(&s, 1)), ref::arr({ w }), kind + " spanned"); }, false);
    fresh("const span", [&](Src& s, const Node& w) { same(json::value(View<const Src>(&s, 1)), ref::arr({ w }), kind + " spanned"); }, false);
    fresh("vector of spans", [&](Src& s, const Node& w) { std::vector<View<Src>> v(2, View<Src>(&s, 1)); same(json::value(std::move(v)), ref::arr({ ref::arr({ w }), ref::arr({ w }) }), kind + " spanned"); }, false);
    if constexpr (std::is_copy_constructible_v<Src>) {
        auto shared = [&](const S& how, auto&& f) {
            auto p = std::make_shared<Src>(make());
            const Node want = json_of(*p);
            f(p, want);
            intact(kind + ", " + how);
            if (json_of(*p) != want) mc::fail(kind + ", " + how + ": the shared object became " + ref::dump(json_of(*p)));
        };
        using P = std::shared_ptr<Src>;
        shared("shared_ptr", [&](P& p, const Node& w) { same(json::value(p), w, kind + " shared"); });
        shared("moved shared_ptr", [&](P& p, const Node& w) { P q = p; same(json::value(std::move(q)), w, kind + " shared"); });
        shared("moved vector of shared_ptr", [&](P& p, const Node& w) { std::vector<P> v { p, p }; same(json::value(std::move(v)), ref::arr({ w, w }), kind + " shared"); });
        shared("moved list of shared_ptr", [&](P& p, const Node& w) { std::list<P> v { p, p }; same(json::array(std::move(v)), ref::arr({ w, w }), kind + " shared"); });
        shared("moved array of shared_ptr", [&](P& p, const Node& w) { std::array<P, 2> v { p, p }; same(json::value(std::move(v)), ref::arr({ w, w }), kind + " shared"); });
        shared("moved pair of shared_ptr", [&](P& p, const Node& w) { same(json::value(std::pair<P, P>(p, p)), ref::arr({ w, w }), kind + " shared"); });
        shared("moved tuple of shared_ptr", [&](P& p, const Node& w) { same(json::value(std::tuple<P, P, int>(p, p, 1)), ref::arr({ w, w, ref::num("1") }), kind + " shared"); });
        shared("moved map of shared_ptr", [&](P& p, const Node& w) { same(json::value(std::map<S, P> { { "x", p }, { "y", p } }), ref::obj({ { "x", w }, { "y", w } }), kind + " shared"); });
        shared("moved unordered_map of shared_ptr", [&](P& p, const Node& w) { same(json::object(std::unordered_map<S, P> { { "x", p }, { "y", p } }), ref::obj({ { "x", w }, { "y", w } }), kind + " shared"); });
        shared("moved optional of shared_ptr", [&](P& p, const Node& w) { same(json::value(std::optional<P>(p)), w, kind + " shared"); });
        shared("moved variant of shared_ptr", [&](P& p, const Node& w) { same(json::value(std::variant<int, P>(p)), w, kind + " shared"); });
        shared("moved shared_ptr of shared_ptr", [&](P& p, const Node& w) { same(json::value(std::make_shared<P>(p)), w, kind + " shared"); });
        shared("moved unique_ptr of shared_ptr", [&](P& p, const Node& w) { same(json::value(std::make_unique<P>(p)), w, kind + " shared"); });
        shared("moved vector of optional shared_ptr", [&](P& p, const Node& w) { std::vector<std::optional<P>> v { p, std::nullopt, p }; same(json::value(std::move(v)), ref::arr({ w, ref::null(), w }), kind + " shared"); });
        shared("shared vector of shared_ptr", [&](P& p, const Node& w) {
            auto v = std::make_shared<std::vector<P>>(2, p);
            same(json::value(std::shared_ptr<std::vector<P>>(v)), ref::arr({ w, w }), kind + " shared");
            if (v->size() != 2 || (*v)[0] != p || (*v)[1] != p) mc::fail(kind + ": the shared vector changed");
        });
    }
}

template <typename T>
static void tree_type(const Node& n)
{
    if (!M<T>::fits(n)) return;
    mc::validated();
    mc::outcome(mc::hash(M<T>::name(), n.k));
    source(M<T>::name(), [&] { return M<T>::of(n); }, [](const T& t) { return M<T>::json(t); }, [](const S&) {});
}
using Types = fam::List<bool, int, double, S, json::value, json::array, json::object, std::vector<S>, std::list<json::value>, std::map<S, S>, std::unordered_map<S, json::value>, std::array<S, 2>,
                        std::pair<S, S>, std::tuple<S, json::value>, std::optional<S>, std::optional<std::vector<S>>, std::shared_ptr<S>, std::variant<S, std::vector<S>, std::map<S, S>>, Probe, std::vector<Probe>,
                        std::map<S, Probe>, std::optional<Probe>, Plain, std::vector<Plain>, std::set<S>, std::deque<S>>;
// split so that the parts compile in parallel
template <typename L>
struct Part;
template <typename... T>
struct Part<fam::List<T...>>
{
    template <size_t... I>
    static void run(const Node& n, std::index_sequence<I...>)
    {
        ((I % MC_PARTS == MC_PART ? tree_type_if<T, (I % MC_PARTS == MC_PART)>(n) : void()), ...);
    }
    template <typename X, bool On>
    static void tree_type_if(const Node& n)
    {
        if constexpr (On) tree_type<X>(n);
    }
};

static void ops(const Node& a, const Node& b)
{
    // operators and constructors of the library's own types on named operands
    json::value x = ref::build(a), y = ref::build(b);
    mc::validated();
    auto keep = [&](const char* how) {
        if (ref::readout(x) != a) mc::fail(S(how) + " changed the left operand to " + x.to_string());
        if (ref::readout(y) != b) mc::fail(S(how) + " changed the right operand to " + y.to_string());
    };
    same(json::array { x, y, x }, ref::arr({ a, b, a }), "array list");
    keep("array list");
    same(json::object { { "x", x }, { "y", y } }, ref::obj({ { "x", a }, { "y", b } }), "object list");
    keep("object list");
    if (a.k == ref::Arr && b.k == ref::Arr) {
        Node w = a;
        w.a.insert(w.a.end(), b.a.begin(), b.a.end());
        same(x + y.as_array(), w, "value + array"), keep("value + array");
        same(x.as_array() + y.as_array(), w, "array + array"), keep("array + array");
        json::array p = x.as_array(), q(y.as_array());
        same(p + q, w, "array + array");
        if (p != x.as_array() || q != y.as_array()) mc::fail("array + array changed a named operand");
        p += q;
        same(p, w, "array += array");
        if (q != y.as_array()) mc::fail("array += array changed its operand");
        keep("copies of arrays");
        std::vector<json::value> v(q.begin(), q.end());
        same(json::array(v), b, "array(vector)");
        if (v.size() != q.size() || !std::equal(v.begin(), v.end(), q.begin())) mc::fail("array(vector) changed the vector");
    }
    if (a.k == ref::Obj && b.k == ref::Obj) {
        Node l = a; // | keeps existing or takes new members: only the key set is common ground here
        for (auto& [k, e] : b.o) l.o.emplace(k, e);
        auto keys = [&](const json::value& r) {
            if (r.as_object().size() != l.o.size()) mc::fail("merging lost members");
        };
        keys(x | y.as_object()), keep("value | object");
        keys(x.as_object() | y.as_object()), keep("object | object");
        json::object p = x.as_object(), q(y.as_object());
        keys(p | q);
        if (p != x.as_object() || q != y.as_object()) mc::fail("object | object changed a named operand");
        p |= q;
        if (q != y.as_object()) mc::fail("object |= object changed its operand");
        keep("copies of objects");
    }
}

static void setup(mc::Engine& e)
{
    const bool th = mc::thorough();
    static std::vector<Node> leaves = { ref::null(), ref::boolean(true), ref::num("1"), ref::str("s"), ref::str("text that does not fit into a small string buffer") };
    static auto all = tr::flat(tr::trees(th ? 6 : 5, leaves, { "a", "b" }));
    e.add("sources", all.size(),
          [](uint64_t i) {
              mc::state(ref::dump(all[i]));
              Part<Types>::run(all[i], std::make_index_sequence<26>());
          },
          [](uint64_t i) { return ref::dump(all[i]); });
    static auto some = tr::flat(tr::trees(th ? 4 : 3, { ref::null(), ref::str("a longer text that is kept on the heap") }, { "a", "b" }));
    if (MC_PART == 0)
        e.add("operands", some.size() * some.size(), [](uint64_t i) { mc::statei(i, 1); ops(some[i / some.size()], some[i % some.size()]); },
              [](uint64_t i) { return ref::dump(some[i / some.size()]) + " and " + ref::dump(some[i % some.size()]); });
    dm::add_mixed(e, "every-size", th ? 20 : 6, th ? 70 : 34, th ? 1u << 11 : 1u << 8, [](const Node& n) { Part<Types>::run(n, std::make_index_sequence<26>()); });
    dm::add_sizes(e, "every-string-size", dm::ladder(th ? 270 : 70, th ? 1u << 16 : 1u << 13), [](size_t n) {
        const S s(n, 's');
        for (const Node& x : { ref::str(s), ref::arr({ ref::str(s), ref::str(s + "t") }), ref::obj({ { s, ref::str(s) }, { s + "k", ref::str("t" + s) } }) }) Part<Types>::run(x, std::make_index_sequence<26>());
    });
    if (MC_PART == 1)
        dm::add_sizes(e, "operands-of-every-size", dm::ladder(th ? 530 : 140, th ? 1u << 15 : 1u << 13), [](size_t n) {
            auto a = dm::mixed(n, 2), b = dm::mixed(n / 2, 0);
            for (auto& x : a)
                for (auto& y : b) ops(x, y);
            for (auto& y : b) ops(y, a[0]), ops(y, a[1]);
        });
}
MC_MAIN(setup)
