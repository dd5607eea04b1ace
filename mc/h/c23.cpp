// C23: user-supplied conversions.  P<F> is a type given exactly the conversion functions in the bit set F.
#include "dims.hpp"
#include "fam.hpp"
#include "trees.hpp"
using ref::Node;
using S = std::string;
#ifndef MC_PART
#define MC_PART 0
#endif
#ifndef MC_PARTS
#define MC_PARTS 1
#endif
enum : unsigned
{
    TO = 1,
    MTO = 2,
    CHK = 4,
    FROM = 8,
    MFROM = 16,
    MEM = 32
};
struct UserError
{
    int x;
};
struct Base
{
    int id = -5;
    S pay = "payload long enough to be on the heap";
    Base() = default;
    explicit Base(int i) : id(i) {}
    Base(const Base&) = default;
    Base& operator=(const Base&) = default;
    Base(Base&& o) noexcept : id(o.id), pay(std::move(o.pay)) { o.id = -1; }
    Base& operator=(Base&& o) noexcept
    {
        id = o.id;
        pay = std::move(o.pay);
        if (&o != this) o.id = -1;
        return *this;
    }
    bool operator<(const Base& o) const { return id < o.id; }
};
static int n_moves; // calls of consuming functions
static json::value doc_of(const Base& b) { return "#" + std::to_string(b.id); }
static bool check_of(const json::value& v) { return v.is_string() && !v.as_string().empty() && v.as_string()[0] == '#'; }
static bool from_of(const json::value& v, Base& b)
{
    if (!v.is_string() || v.as_string().empty()) return false;
    S s = v.as_string();
    if (s == "#!") return false;
    if (s == "#t") throw UserError { 7 };
    if (s[0] != '#' && s[0] != '?') return false;
    b.id = atoi(s.c_str() + 1);
    return true;
}
template <unsigned F>
struct P;
template <unsigned F, bool On = bool((F & MEM) && (F & TO))>
struct MemTo
{
};
template <unsigned F>
struct MemTo<F, true>
{
    json::value to_json() const { return doc_of(static_cast<const P<F>&>(*this)); }
};
template <unsigned F, bool On = bool((F & MEM) && (F & CHK))>
struct MemChk
{
};
template <unsigned F>
struct MemChk<F, true>
{
    bool check_json(const json::value& v) const { return check_of(v); }
};
template <unsigned F, bool On = bool((F & MEM) && (F & FROM))>
struct MemFrom
{
};
template <unsigned F>
struct MemFrom<F, true>
{
    bool from_json(const json::value& v) { return from_of(v, static_cast<P<F>&>(*this)); }
};
template <unsigned F>
struct P : Base, MemTo<F>, MemChk<F>, MemFrom<F>
{
    using Base::Base;
};
template <unsigned F, bool On = bool(!(F & MEM) && (F & TO))>
struct ExtTo
{
};
template <unsigned F>
struct ExtTo<F, true>
{
    json::value to_json(const P<F>& p) const { return doc_of(p); }
};
template <unsigned F, bool On = bool(!(F & MEM) && (F & MTO))>
struct ExtMto
{
};
template <unsigned F>
struct ExtMto<F, true>
{
    json::value move_to_json(P<F>&& p) const
    {
        ++n_moves;
        json::value v = doc_of(p);
        P<F> gone(std::move(p));
        return v;
    }
};
template <unsigned F, bool On = bool(!(F & MEM) && (F & CHK))>
struct ExtChk
{
};
template <unsigned F>
struct ExtChk<F, true>
{
    bool check_json(const json::value& v) const { return check_of(v); }
};
template <unsigned F, bool On = bool(!(F & MEM) && (F & FROM))>
struct ExtFrom
{
};
template <unsigned F>
struct ExtFrom<F, true>
{
    bool from_json(const json::value& v, P<F>& p) const { return from_of(v, p); }
};
template <unsigned F, bool On = bool(!(F & MEM) && (F & MFROM))>
struct ExtMfrom
{
};
template <unsigned F>
struct ExtMfrom<F, true>
{
    bool move_from_json(json::value&& v, P<F>& p) const
    {
        ++n_moves;
        json::value mine = std::move(v);
        return from_of(mine, p);
    }
};
namespace json::ext
{
template <unsigned F>
class jsonization<P<F>> : public ExtTo<F>, public ExtMto<F>, public ExtChk<F>, public ExtFrom<F>, public ExtMfrom<F>
{
};
}

// ------------------------------------------------------------------ model
template <typename T>
struct X;
enum L
{
    Ok,
    Refuse,
    User // the user's own exception passes through
};
template <unsigned F>
struct X<P<F>>
{
    static S name() { return "P"; }
    static bool is(const Node& n) { return n.k == ref::Str && !n.s.empty() && n.s[0] == '#'; }
    static L load(const Node& n, P<F>& p)
    {
        if (n.k != ref::Str || n.s.empty() || n.s == "#!") return Refuse;
        if (n.s == "#t") return User;
        if (n.s[0] != '#' && n.s[0] != '?') return Refuse;
        p.id = atoi(n.s.c_str() + 1);
        return Ok;
    }
    static Node json(const P<F>& p) { return ref::str("#" + std::to_string(p.id)); }
    static P<F> make(int& id) { return P<F>(id++); }
};
template <>
struct X<int>
{
    static S name() { return "int"; }
    static bool is(const Node& n) { return fam::M<int>::fits(n); }
    static L load(const Node& n, int& p) { return is(n) ? (p = fam::M<int>::of(n), Ok) : Refuse; }
    static Node json(int p) { return fam::M<int>::json(p); }
    static int make(int& id) { return id++; }
};
template <typename C>
struct SeqX
{
    using E = typename C::value_type;
    static bool is(const Node& n)
    {
        if (n.k != ref::Arr) return false;
        for (auto& e : n.a)
            if (!X<E>::is(e)) return false;
        return true;
    }
    static L load(const Node& n, C& c)
    {
        if (n.k != ref::Arr) return Refuse;
        for (auto& e : n.a) {
            E x {};
            if (auto r = X<E>::load(e, x)) return r;
            c.push_back(std::move(x));
        }
        return Ok;
    }
    static Node json(const C& c)
    {
        Node n = ref::arr();
        for (auto& e : c) n.a.push_back(X<E>::json(e));
        return n;
    }
    static C make(int& id)
    {
        C c;
        for (int i = 0; i < 3; ++i) c.push_back(X<E>::make(id));
        return c;
    }
};
template <typename E>
struct X<std::vector<E>> : SeqX<std::vector<E>>
{
    static S name() { return "vector<" + X<E>::name() + ">"; }
};
template <typename E>
struct X<std::list<E>> : SeqX<std::list<E>>
{
    static S name() { return "list<" + X<E>::name() + ">"; }
};
template <typename C>
struct MapX
{
    using E = typename C::mapped_type;
    static bool is(const Node& n)
    {
        if (n.k != ref::Obj) return false;
        for (auto& [k, e] : n.o)
            if (!X<E>::is(e)) return false;
        return true;
    }
    static L load(const Node& n, C& c)
    {
        if (n.k != ref::Obj) return Refuse;
        for (auto& [k, e] : n.o) {
            E x {};
            if (auto r = X<E>::load(e, x)) return r;
            c.emplace(k, std::move(x));
        }
        return Ok;
    }
    static Node json(const C& c)
    {
        Node n = ref::obj();
        for (auto& [k, e] : c) n.o[k] = X<E>::json(e);
        return n;
    }
    static C make(int& id)
    {
        C c;
        c.emplace("a", X<E>::make(id));
        c.emplace("b", X<E>::make(id));
        return c;
    }
};
template <typename E>
struct X<std::map<S, E>> : MapX<std::map<S, E>>
{
    static S name() { return "map<" + X<E>::name() + ">"; }
};
template <typename E>
struct X<std::unordered_map<S, E>> : MapX<std::unordered_map<S, E>>
{
    static S name() { return "unordered_map<" + X<E>::name() + ">"; }
};
template <typename C, typename E>
struct NullX
{
    static bool is(const Node& n) { return n.k == ref::Null || X<E>::is(n); }
    static L load(const Node& n, C& c)
    {
        if (n.k == ref::Null) return c = C {}, Ok;
        E x {};
        if (auto r = X<E>::load(n, x)) return r;
        c = wrap(std::move(x));
        return Ok;
    }
    static C wrap(E&& x)
    {
        if constexpr (std::is_same_v<C, std::shared_ptr<E>>) return std::make_shared<E>(std::move(x));
        else if constexpr (std::is_same_v<C, std::unique_ptr<E>>) return std::make_unique<E>(std::move(x));
        else return C(std::move(x));
    }
    static Node json(const C& c) { return c ? X<E>::json(*c) : ref::null(); }
    static C make(int& id) { return wrap(X<E>::make(id)); }
};
template <typename E>
struct X<std::optional<E>> : NullX<std::optional<E>, E>
{
    static S name() { return "optional<" + X<E>::name() + ">"; }
};
template <typename E>
struct X<std::shared_ptr<E>> : NullX<std::shared_ptr<E>, E>
{
    static S name() { return "shared_ptr<" + X<E>::name() + ">"; }
};
template <typename E>
struct X<std::unique_ptr<E>> : NullX<std::unique_ptr<E>, E>
{
    static S name() { return "unique_ptr<" + X<E>::name() + ">"; }
};
template <typename C, typename... E>
struct TupX
{
    template <size_t... I>
    static bool is_(const Node& n, std::index_sequence<I...>)
    {
        return (X<E>::is(n.a[I]) && ...);
    }
    static bool is(const Node& n) { return n.k == ref::Arr && n.a.size() == sizeof...(E) && is_(n, std::index_sequence_for<E...> {}); }
    template <size_t... I>
    static L load_(const Node& n, C& c, std::index_sequence<I...>)
    {
        L r = Ok;
        (void)((r = X<E>::load(n.a[I], std::get<I>(c)), r == Ok) && ...);
        return r;
    }
    static L load(const Node& n, C& c) { return n.k != ref::Arr || n.a.size() != sizeof...(E) ? Refuse : load_(n, c, std::index_sequence_for<E...> {}); }
    template <size_t... I>
    static Node json_(const C& c, std::index_sequence<I...>)
    {
        Node n = ref::arr();
        (n.a.push_back(X<E>::json(std::get<I>(c))), ...);
        return n;
    }
    static Node json(const C& c) { return json_(c, std::index_sequence_for<E...> {}); }
    static C make(int& id) { return C { X<E>::make(id)... }; }
};
template <typename A, typename B>
struct X<std::pair<A, B>> : TupX<std::pair<A, B>, A, B>
{
    static S name() { return "pair<" + X<A>::name() + "," + X<B>::name() + ">"; }
};
template <typename... E>
struct X<std::tuple<E...>> : TupX<std::tuple<E...>, E...>
{
    static S name() { return "tuple<" + (S() + ... + (X<E>::name() + ",")) + ">"; }
};
template <typename E>
struct X<std::array<E, 2>> : TupX<std::array<E, 2>, E, E>
{
    static S name() { return "array<" + X<E>::name() + ",2>"; }
};
template <typename... E>
struct X<std::variant<E...>>
{
    using C = std::variant<E...>;
    static S name() { return "variant<" + (S() + ... + (X<E>::name() + ",")) + ">"; }
    static bool is(const Node& n) { return (X<E>::is(n) || ...); }
    static L load(const Node& n, C& c)
    {
        L r = Refuse;
        (void)((X<E>::is(n) ? ([&] {
            E x {};
            r = X<E>::load(n, x);
            if (r == Ok) c = std::move(x);
        }(), true) : false) || ...);
        return r;
    }
    static Node json(const C& c)
    {
        return std::visit([](auto& x) { return X<std::decay_t<decltype(x)>>::json(x); }, c);
    }
    static C make(int& id)
    {
        using Q = std::conditional_t<std::is_same_v<std::variant_alternative_t<0, C>, int>, std::variant_alternative_t<1, C>, std::variant_alternative_t<0, C>>;
        return C(X<Q>::make(id));
    }
};
template <typename T>
struct W
{
    T a {};
    int n = 3;
    T b {};
    MEO_JSONIZATION(a, n, MEO_OPT b)
};
template <typename T>
struct X<W<T>>
{
    static S name() { return "struct of " + X<T>::name(); }
    static const Node* at(const Node& n, const char* k)
    {
        if (n.k != ref::Obj) return nullptr;
        auto it = n.o.find(k);
        return it == n.o.end() ? nullptr : &it->second;
    }
    static bool is(const Node& n)
    {
        auto a = at(n, "a"), x = at(n, "n"), b = at(n, "b");
        return a && X<T>::is(*a) && x && X<int>::is(*x) && (!b || X<T>::is(*b));
    }
    static L load(const Node& n, W<T>& w)
    {
        auto a = at(n, "a"), x = at(n, "n"), b = at(n, "b");
        if (!a || !X<T>::is(*a)) return Refuse;
        if (auto r = X<T>::load(*a, w.a)) return r;
        if (!x || !X<int>::is(*x)) return Refuse;
        X<int>::load(*x, w.n);
        if (b) {
            if (!X<T>::is(*b)) return Refuse;
            if (auto r = X<T>::load(*b, w.b)) return r;
        }
        return Ok;
    }
    static Node json(const W<T>& w) { return ref::obj({ { "a", X<T>::json(w.a) }, { "n", X<int>::json(w.n) }, { "b", X<T>::json(w.b) } }); }
    static W<T> make(int& id)
    {
        W<T> w;
        w.a = X<T>::make(id);
        w.b = X<T>::make(id);
        return w;
    }
};

// ------------------------------------------------------------------ writing
template <typename T>
static void wrote(const json::value& v, const Node& want, const char* how)
{
    mc::step();
    auto got = ref::readout(v);
    if (got != want) mc::fail("writing " + X<T>::name() + " by " + how + " gives " + ref::dump(got) + ", expected " + ref::dump(want));
}
template <typename T, typename F>
static void copying(const T& src, const Node& j, const char* how, F&& f)
{
    n_moves = 0;
    wrote<T>(f(), j, how);
    if (n_moves) mc::fail("writing " + X<T>::name() + " by " + how + " called a consuming function");
    if (X<T>::json(src) != j) mc::fail("writing " + X<T>::name() + " by " + how + " changed the source");
}
template <typename T, unsigned F>
static void write_all()
{
    int id = 10;
    constexpr bool cp = std::is_copy_constructible_v<T>;
    if constexpr (F & TO) {
        T x = X<T>::make(id);
        const T& c = x;
        const Node j = X<T>::json(x);
        mc::state(X<T>::name() + std::to_string(F));
        copying(c, j, "lvalue", [&] { return json::value(x); });
        copying(c, j, "const lvalue", [&] { return json::value(c); });
        copying(c, j, "assignment", [&] { json::value v = 3; v = x; return v; });
        copying(c, ref::arr({ j, j }), "array", [&] { json::array a; a.emplace_back(x); a.push_back(c); if (X<T>::json(c) != j) mc::fail("array changed the source"); return a; }, 0);
        copying(c, j, "object", [&] { json::object o; o.emplace("k", x); o["l"] = c; o.emplace("k", c); return o.at("k"); });
        copying(c, j, "object[]", [&] { json::object o; o["l"] = c; o["l"] = x; return o.at("l"); });
        copying(c, j, "value::emplace", [&] { json::value v; v.emplace(x); v.emplace("p"); return v.at(0); });
        copying(c, j, "value::emplace(key)", [&] { json::value v; v.emplace("k", x); return v.at("k"); });
        copying(c, j, "list of members", [&] { return json::value(json::object { { "k", x }, { "l", c } }).at("l"); });
        copying(c, j, "list of elements", [&] { return json::value(json::array { x, c }).at(1); });
        copying(c, j, "tie", [&] { return json::value(std::tie(x, c)).at(1); });
        copying(c, j, "as argument", [&] { return [](const json::value& v) { return v; }(x); });
    }
    if constexpr ((F & TO) || ((F & MTO) && !std::is_same_v<T, std::shared_ptr<P<F>>>)) {
        T x = X<T>::make(id);
        const Node j = X<T>::json(x);
        wrote<T>(json::value(std::move(x)), j, "rvalue");
        T y = X<T>::make(id);
        const Node k = X<T>::json(y);
        json::array a;
        a.emplace_back(std::move(y));
        wrote<T>(a, ref::arr({ k }), "array::emplace_back(rvalue)");
        T z = X<T>::make(id);
        const Node l = X<T>::json(z);
        json::object o;
        o["q"] = std::move(z);
        wrote<T>(o, ref::obj({ { "q", l } }), "object[] = rvalue");
    }
}
template <typename T, typename F>
static void copying(const T& src, const Node& j, const char* how, F&& f, int)
{
    n_moves = 0;
    wrote<T>(f(), j, how);
    if (n_moves) mc::fail("writing " + X<T>::name() + " by " + how + " called a consuming function");
}

// ------------------------------------------------------------------ reading
template <typename T, typename F>
static void read_by(const Node& doc, L want, const T& model, const char* how, F&& f)
{
    mc::step();
    auto ctx = [&](const S& w) { return "reading " + X<T>::name() + " from " + ref::dump(doc) + " by " + how + ": " + w; };
    try {
        T got = f();
        if (want != Ok) mc::fail(ctx("accepted " + ref::dump(X<T>::json(got))));
        if (X<T>::json(got) != X<T>::json(model)) mc::fail(ctx("gives " + ref::dump(X<T>::json(got)) + ", expected " + ref::dump(X<T>::json(model))));
    }
    catch (const UserError& e) {
        if (want != User || e.x != 7) mc::fail(ctx("unexpected user exception"));
    }
    catch (const std::exception& e) {
        if (want != Refuse) mc::fail(ctx(S("refused: ") + e.what()));
    }
}
template <typename T>
constexpr bool castable = true;
template <typename T>
constexpr bool castable<std::optional<T>> = false;
template <typename T>
constexpr bool castable<std::tuple<T>> = false;
template <typename T, unsigned F>
static void read_all(const Node& doc)
{
    [[maybe_unused]] T model {};
    [[maybe_unused]] L want = X<T>::load(doc, model);
    const json::value v = ref::build(doc);
    json::value nv = v;
    n_moves = 0;
    constexpr bool chk = F & CHK;
    if constexpr (chk) {
        mc::check(v.is<T>() == X<T>::is(doc), [&] { return "is<" + X<T>::name() + ">() of " + ref::dump(doc) + " is wrong"; });
    }
    if constexpr (F & FROM) {
        read_by<T>(doc, want, model, "const as", [&] { return v.as<T>(); });
        read_by<T>(doc, want, model, "as", [&] { return nv.as<T>(); });
        if constexpr (castable<T>) {
            read_by<T>(doc, want, model, "const cast", [&] { return static_cast<T>(v); });
            read_by<T>(doc, want, model, "cast", [&] { return static_cast<T>(nv); });
        }
        if constexpr (chk) {
            const json::value o = json::object { { "k", v } }, a = json::array { 0, v };
            const bool is = X<T>::is(doc);
            auto found = [&](std::optional<T>&& r) {
                if (bool(r) != is) mc::fail("find<" + X<T>::name() + "> in " + ref::dump(doc));
                return r ? std::move(*r) : T {};
            };
            const T none {};
            read_by<T>(doc, is ? want : Ok, is ? model : none, "find(key)", [&] { return found(o.find<T>("k")); });
            read_by<T>(doc, is ? want : Ok, is ? model : none, "find(position)", [&] { return found(a.find<T>(1)); });
            mc::check(!o.find<T>("z") && !a.find<T>(7), "find of an absent place");
            if constexpr (std::is_copy_constructible_v<T>) {
                int id = 900;
                const T dflt = X<T>::make(id);
                read_by<T>(doc, is ? want : Ok, is ? model : dflt, "get(key, default)", [&] { return o.get("k", dflt); });
                read_by<T>(doc, is ? want : Ok, is ? model : dflt, "get(position, default)", [&] { return a.get(1, dflt); });
                read_by<T>(doc, Ok, dflt, "get(absent, default)", [&] { return o.get("z", dflt); });
            }
        }
        mc::check(n_moves == 0, [&] { return "reading " + X<T>::name() + " from a named value called a consuming function"; });
        mc::check(ref::readout(v) == doc && ref::readout(nv) == doc, [&] { return "reading " + X<T>::name() + " changed the value " + ref::dump(doc) + " to " + ref::dump(ref::readout(nv)); });
    }
    if constexpr ((F & FROM) || (F & MFROM)) {
        read_by<T>(doc, want, model, "rvalue as", [&] { json::value t = v; return std::move(t).template as<T>(); });
        if constexpr (castable<T>) read_by<T>(doc, want, model, "rvalue cast", [&] { json::value t = v; return static_cast<T>(std::move(t)); });
    }
    mc::check(ref::readout(v) == doc, "reading a copy changed the original");
}
template <unsigned F, typename Fn>
static void each_type(Fn&& f)
{
    using Q = P<F>;
    auto g = [&](auto* p) { f(p, std::integral_constant<unsigned, F> {}); };
    if constexpr (!(F & FROM) && (F & MFROM)) {
        // only at the top level: nested conversions copy
        f(static_cast<Q*>(nullptr), std::integral_constant<unsigned, F> {});
    }
    else {
        fam::List<Q, std::vector<Q>, std::map<S, Q>, std::optional<Q>, std::pair<Q, int>>::each(g);
#ifndef MC_DEEP
        if constexpr (F == (TO | CHK | FROM | MEM) || F == 31)
#endif
            fam::List<std::list<Q>, std::array<Q, 2>, std::pair<int, Q>, std::tuple<Q, Q>, std::unordered_map<S, Q>, std::shared_ptr<Q>, std::unique_ptr<Q>>::each(g);
    }
    if constexpr (F == (TO | CHK | FROM | MEM) || F == 31) {
        fam::List<std::vector<std::optional<Q>>, std::vector<std::vector<Q>>, std::map<S, std::vector<Q>>, std::optional<std::vector<Q>>, std::shared_ptr<std::shared_ptr<Q>>, std::vector<std::pair<Q, Q>>, std::map<S, std::map<S, Q>>, std::list<std::tuple<Q, int>>,
                  std::vector<std::shared_ptr<Q>>, std::pair<std::vector<Q>, std::optional<Q>>>::each(g);
    }
#ifndef MC_DEEP
    if constexpr (F != (TO | CHK | FROM | MEM) && F != 31) return;
    else
#endif
    {
    if constexpr ((F & CHK) && (F & FROM)) fam::List<std::variant<int, Q>, std::variant<Q, int>, std::vector<std::variant<int, Q>>, std::optional<std::variant<Q, int>>>::each(g);
    if constexpr ((F & CHK) && (F & FROM) && (F & TO)) fam::List<W<Q>, std::vector<W<Q>>, W<std::vector<Q>>, W<std::optional<Q>>, W<W<Q>>, std::map<S, W<Q>>, std::variant<int, W<Q>>>::each(g);
    }
}
template <typename Fn, unsigned... Fs>
static void each_flags(Fn&& f, std::integer_sequence<unsigned, Fs...>)
{
    auto one = [&](auto fl) {
        constexpr unsigned F = decltype(fl)::value;
        constexpr bool member = F & MEM;
        if constexpr (F % 32 != 0 && (!member || !(F & (MTO | MFROM))) && (F == 31 ? 1 : F == (TO | CHK | FROM | MEM) ? 2 : (F % 4 + F / 4) % MC_PARTS) == MC_PART) each_type<F>(f);
    };
    (one(std::integral_constant<unsigned, Fs> {}), ...);
}
template <typename Fn>
static void everything(Fn&& f)
{
    each_flags(f, std::make_integer_sequence<unsigned, 64> {});
}

// ------------------------------------------------------------------ conversion functions of unusual signatures and types that resemble others
struct RetArr
{
    int n = 0;
    json::array to_json() const
    {
        json::array a;
        for (int i = 0; i < n; ++i) a.emplace_back(i);
        return a;
    }
    bool from_json(const json::value& v)
    {
        if (!v.is_array()) return false;
        n = int(v.as_array().size());
        return true;
    }
};
struct RetObj
{
    int n = 0;
    json::object to_json() const { return json::object { { "n", n } }; }
    bool check_json(const json::value& v) const { return v.is_object() && v.contains("n"); }
    bool from_json(json::value v)
    {
        if (!check_json(v)) return false;
        n = v["n"].as_integer();
        return true;
    }
};
struct RetInt
{
    int n = 0;
    int to_json() const { return n; }
};
struct RetStr
{
    int n = 0;
    S to_json() const { return S(n, 'x'); }
};
struct RetVec
{
    int n = 0;
    std::vector<RetInt> to_json() const { return std::vector<RetInt>(n, RetInt { n }); }
};
struct RetUser
{
    int n = 0;
    RetObj to_json() const { return RetObj { n }; }
};
struct RetOpt
{
    int n = 0;
    std::optional<int> to_json() const { return n ? std::optional<int>(n) : std::nullopt; }
};
// looks like a vector
struct Bag : std::vector<int>
{
    using std::vector<int>::vector;
    json::value to_json() const { return "bag" + std::to_string(size()); }
    bool check_json(const json::value& v) const { return v.is_string() && v.as_string().substr(0, 3) == "bag"; }
    bool from_json(const json::value& v)
    {
        if (!check_json(v)) return false;
        assign(size_t(atoi(v.as_string().c_str() + 3)), 0);
        return true;
    }
};
struct Dict : std::map<S, int>
{
    json::value to_json() const { return int(size()); }
    bool check_json(const json::value& v) const { return v.is<int>() && v.as_integer() >= 0; }
    bool from_json(const json::value& v)
    {
        if (!check_json(v)) return false;
        clear();
        for (int i = 0; i < v.as_integer(); ++i) emplace("k" + std::to_string(i), i);
        return true;
    }
};
struct Word : S
{
    using S::S;
    json::value to_json() const { return int(size()); }
    bool check_json(const json::value& v) const { return v.is<int>() && v.as_integer() >= 0; }
    bool from_json(const json::value& v)
    {
        if (!check_json(v)) return false;
        assign(size_t(v.as_integer()), 'w');
        return true;
    }
};
struct ToStr
{
    int n = 0;
    operator S() const { return "wrong"; }
    json::value to_json() const { return n; }
    bool check_json(const json::value& v) const { return v.is<int>() && v.as_integer() >= 0; }
    bool from_json(const json::value& v) { return check_json(v) ? (n = v.as_integer(), true) : false; }
};
// standard types with a specialisation of their own
struct K
{
    int n = 0;
};
template <typename T>
struct Spec;
#define SPEC(T, count, fill)                                                                                                    \
    namespace json::ext                                                                                                         \
    {                                                                                                                           \
    template <>                                                                                                                 \
    class jsonization<T>                                                                                                        \
    {                                                                                                                           \
    public:                                                                                                                     \
        json::value to_json(const T& t) const { return "k" + std::to_string(count(t)); }                                        \
        bool check_json(const json::value& v) const { return v.is_string() && !v.as_string().empty() && v.as_string()[0] == 'k'; } \
        bool from_json(const json::value& v, T& t) const { return check_json(v) ? (fill(t, atoi(v.as_string().c_str() + 1)), true) : false; } \
    };                                                                                                                          \
    }
using VK = std::vector<K>;
using LK = std::list<K>;
using AK = std::array<K, 3>;
using PK = std::pair<K, K>;
using TK = std::tuple<K, K, K>;
using MK = std::map<std::string, K>;
using UK = std::unordered_map<std::string, K>;
using OK_ = std::optional<K>;
using SK = std::shared_ptr<K>;
using VA = std::variant<K, int>;
static int cnt(const VK& v) { return int(v.size()); }
static void fil(VK& v, int n) { v.assign(n, K {}); }
static int cnt(const LK& v) { return int(v.size()); }
static void fil(LK& v, int n) { v.assign(n, K {}); }
static int cnt(const AK& v) { return v[2].n; }
static void fil(AK& v, int n) { v[2].n = n; }
static int cnt(const PK& v) { return v.second.n; }
static void fil(PK& v, int n) { v.second.n = n; }
static int cnt(const TK& v) { return std::get<1>(v).n; }
static void fil(TK& v, int n) { std::get<1>(v).n = n; }
static int cnt(const MK& v) { return int(v.size()); }
static void fil(MK& v, int n)
{
    v.clear();
    for (int i = 0; i < n; ++i) v.emplace(std::to_string(i), K {});
}
static int cnt(const UK& v) { return int(v.size()); }
static void fil(UK& v, int n)
{
    v.clear();
    for (int i = 0; i < n; ++i) v.emplace(std::to_string(i), K {});
}
static int cnt(const OK_& v) { return v ? v->n : 0; }
static void fil(OK_& v, int n) { v = K { n }; }
static int cnt(const SK& v) { return v ? v->n : 0; }
static void fil(SK& v, int n) { v = std::make_shared<K>(K { n }); }
static int cnt(const VA& v) { return v.index() ? -1 : std::get<0>(v).n; }
static void fil(VA& v, int n) { v = K { n }; }
SPEC(VK, cnt, fil)
SPEC(LK, cnt, fil)
SPEC(AK, cnt, fil)
SPEC(PK, cnt, fil)
SPEC(TK, cnt, fil)
SPEC(MK, cnt, fil)
SPEC(UK, cnt, fil)

static int cnt(const Bag& v) { return int(v.size()); }
static void fil(Bag& v, int n) { v.assign(n, 0); }
static int cnt(const Dict& v) { return int(v.size()); }
static void fil(Dict& v, int n)
{
    v.clear();
    for (int i = 0; i < n; ++i) v.emplace("k" + std::to_string(i), i);
}
static int cnt(const Word& v) { return int(v.size()); }
static void fil(Word& v, int n) { v.assign(n, 'w'); }
static int cnt(const ToStr& v) { return v.n; }
static void fil(ToStr& v, int n) { v.n = n; }

template <typename T>
static void like(int n, Node (*doc)(int), bool cast, const char* nm)
{
    T x {};
    fil(x, n);
    const T& c = x;
    const Node j = doc(n);
    auto w = [&](const json::value& v, const Node& e, const char* how) {
        mc::step();
        auto g = ref::readout(v);
        if (g != e) mc::fail(S(nm) + ": writing by " + how + " gives " + ref::dump(g) + ", expected " + ref::dump(e));
    };
    w(json::value(x), j, "lvalue");
    w(json::value(c), j, "const lvalue");
    w(json::value(T(c)), j, "rvalue");
    w(json::array { c, x }, ref::arr({ j, j }), "list");
    w(json::value(std::vector<T> { c, x }), ref::arr({ j, j }), "vector");
    w(json::value(std::map<S, T> { { "a", c } }), ref::obj({ { "a", j } }), "map");
    w(json::value(std::pair<T, int>(c, 1)), ref::arr({ j, ref::num("1") }), "pair");
    w(json::value(std::array<T, 1> { c }), ref::arr({ j }), "array");
    w(json::value(std::optional<T>(c)), j, "optional");
    w(json::value(std::make_shared<T>(c)), j, "shared_ptr");
    W<T> ws;
    ws.a = c;
    ws.b = c;
    w(json::value(ws), ref::obj({ { "a", j }, { "n", ref::num("3") }, { "b", j } }), "struct");
    mc::check(cnt(c) == n, "writing changed the source");
    auto r = [&](const T& t, const char* how) {
        mc::step();
        if (cnt(t) != n) mc::fail(S(nm) + ": reading by " + how + " gives " + std::to_string(cnt(t)));
    };
    const json::value v = ref::build(j);
    mc::check(v.is<T>(), [&] { return S(nm) + ": is<> refuses its own document"; });
    r(v.as<T>(), "as");
    r(json::value(v).as<T>(), "rvalue as");
    r(v.as<std::optional<T>>().value(), "optional");
    r(json::value(json::array { v, v }).as<std::vector<T>>().at(1), "vector");
    r(json::value(json::array { v }).as<std::array<T, 1>>()[0], "array");
    r(json::value(json::array { v, 1 }).as<std::pair<T, int>>().first, "pair");
    r(json::value(json::object { { "k", v } }).as<std::map<S, T>>().at("k"), "map");
    r(json::value(json::object { { "a", v }, { "n", 1 } }).as<W<T>>().a, "struct");
    r(json::value(json::object { { "k", v } }).find<T>("k").value(), "find");
    r(json::value(json::object { { "k", v } }).get("k", T {}), "get");
    // the document the type would have had without its own functions
    for (const json::value& bad : std::initializer_list<json::value> { json::array { 1, 2, 3 }, json::object { { "k", 1 } }, json::value(true), json::value("text"), json::array {}, json::object {} }) {
        mc::check(!bad.is<T>(), [&] { return S(nm) + ": is<> accepts " + bad.to_string(); });
        mc::check(!json::value(json::array { v, bad }).is<std::vector<T>>(), [&] { return S(nm) + ": is<vector> accepts " + bad.to_string(); });
        bool threw = false;
        try {
            (void)bad.as<T>();
        }
        catch (const std::exception&) {
            threw = true;
        }
        mc::check(threw, [&] { return S(nm) + ": as<> accepts " + bad.to_string(); });
    }
    mc::validated();
}
static void unusual(uint64_t i)
{
    const int n = int(i);
    auto w = [&](const json::value& v, const Node& e, const char* how) {
        mc::step();
        auto g = ref::readout(v);
        if (g != e) mc::fail(S("writing ") + how + " gives " + ref::dump(g) + ", expected " + ref::dump(e));
    };
    Node an = ref::arr(), vn = ref::arr();
    for (int k = 0; k < n; ++k) an.a.push_back(ref::num(std::to_string(k))), vn.a.push_back(ref::num(std::to_string(n)));
    const Node on = ref::obj({ { "n", ref::num(std::to_string(n)) } });
    const RetArr ra { n };
    const RetObj ro { n };
    w(ra, an, "array result");
    w(json::array(ra), an, "array(array result)");
    w(ro, on, "object result");
    w(json::object(ro), on, "object(object result)");
    w(RetInt { n }, ref::num(std::to_string(n)), "int result");
    w(RetStr { n }, ref::str(S(n, 'x')), "string result");
    w(RetVec { n }, vn, "vector result");
    w(RetUser { n }, on, "chained result");
    w(RetOpt { n }, n ? ref::num(std::to_string(n)) : ref::null(), "optional result");
    w(json::value(std::vector<RetArr>(2, ra)), ref::arr({ an, an }), "vector of array results");
    w(json::value(std::map<S, RetUser> { { "a", RetUser { n } } }), ref::obj({ { "a", on } }), "map of chained results");
    json::array a = ra.to_json();
    json::object o = ro.to_json();
    const json::array& ca = a;
    const json::object& co = o;
    mc::check(static_cast<RetArr>(ca).n == n && static_cast<RetArr>(a).n == n, "cast from array");
    mc::check(static_cast<RetObj>(co).n == n && static_cast<RetObj>(o).n == n, "cast from object");
    mc::check(ref::readout(json::value(a)) == an && ref::readout(json::value(o)) == on, "cast changed its source");
    bool threw = false;
    try {
        (void)static_cast<RetObj>(ca);
    }
    catch (const std::exception&) {
        threw = true;
    }
    mc::check(threw, "cast of an array to an object type must be refused");
    // array and object to types with the full set of functions: lvalues are not consumed
    json::array pa { "x" };
    n_moves = 0;
    try {
        (void)static_cast<P<31>>(pa);
    }
    catch (const std::exception&) {
    }
    mc::check(n_moves == 0 && pa.size() == 1, "cast of a named array consumed it");
    like<Bag>(n, [](int k) { return ref::str("bag" + std::to_string(k)); }, true, "vector-like type");
    like<Dict>(n, [](int k) { return ref::num(std::to_string(k)); }, true, "map-like type");
    like<Word>(n, [](int k) { return ref::num(std::to_string(k)); }, true, "string-like type");
    like<ToStr>(n, [](int k) { return ref::num(std::to_string(k)); }, true, "string-convertible type");
    auto kd = [](int k) { return ref::str("k" + std::to_string(k)); };
    like<VK>(n, kd, true, "specialised vector");
    like<LK>(n, kd, true, "specialised list");
    like<AK>(n, kd, true, "specialised array");
    like<PK>(n, kd, true, "specialised pair");
    like<TK>(n, kd, true, "specialised tuple");
    like<MK>(n, kd, true, "specialised map");
    like<UK>(n, kd, true, "specialised unordered_map");
}

static std::vector<Node> docs;
static void setup(mc::Engine& e)
{
    e.add("writing", 1, [](uint64_t) {
        everything([](auto* p, auto fl) { write_all<std::decay_t<decltype(*p)>, decltype(fl)::value>(); });
        mc::validated();
    });
    std::vector<Node> leaves { ref::str("#1"), ref::str("#22"), ref::str("?5"), ref::str("#!"), ref::str("#t"), ref::str(""), ref::str("x"), ref::num("4"), ref::num("4.5"), ref::null(), ref::boolean(true) };
    docs = tr::flat(tr::trees(3, leaves, { "a", "b" }));
    std::vector<Node> few { ref::str("#1"), ref::str("?5"), ref::str("#!"), ref::num("4"), ref::null() };
    auto more = tr::trees(mc::thorough() ? 5 : 4, few, { "a", "b", "n" });
    for (size_t n = 4; n < more.size(); ++n) docs.insert(docs.end(), more[n].begin(), more[n].end());
    for (auto& a : leaves)
        for (auto& x : { ref::num("4"), ref::str("4") })
            for (size_t b = 0; b <= leaves.size(); ++b) {
                Node o = ref::obj({ { "a", a }, { "n", x } });
                if (b < leaves.size()) o.o["b"] = leaves[b];
                docs.push_back(o);
                docs.push_back(ref::obj({ { "a", o }, { "n", x } }));
                docs.push_back(ref::arr({ o }));
                docs.push_back(ref::obj({ { "z", o } }));
            }
    e.add("reading", docs.size(),
          [](uint64_t i) {
              mc::state(ref::dump(docs[i]));
              everything([&](auto* p, auto fl) { read_all<std::decay_t<decltype(*p)>, decltype(fl)::value>(docs[i]); });
              mc::validated();
          },
          [](uint64_t i) { return ref::dump(docs[i]); });
    // containers of every size whose elements are all accepted, or all but one: refused or throwing
    static std::vector<std::pair<size_t, int>> sized;
    for (size_t n : dm::ladder(mc::thorough() ? 70 : 18, mc::thorough() ? 1u << 10 : 1u << 8))
        for (int k = 0; k < 4; ++k) sized.push_back({ n, k });
    std::reverse(sized.begin(), sized.end());
    e.add("sizes", sized.size(),
          [](uint64_t i) {
              auto [n, k] = sized[i];
              mc::statei(i, 99);
              for (size_t p : std::set<size_t> { 0, n / 2, n - std::min<size_t>(n, 1) }) {
                  if (p >= n || (k == 0 && p)) continue;
                  Node a = ref::arr(), o = ref::obj();
                  for (size_t j = 0; j < n; ++j) {
                      Node x = p != j || k == 0 ? ref::str(j % 2 ? "#1" : "#22") : k == 1 ? ref::num("4") : k == 2 ? ref::str("#!") : ref::str("?5");
                      a.a.push_back(x);
                      o.o[dm::key(j)] = x;
                  }
                  everything([&](auto* t, auto fl) {
                      read_all<std::decay_t<decltype(*t)>, decltype(fl)::value>(a);
                      read_all<std::decay_t<decltype(*t)>, decltype(fl)::value>(o);
                  });
              }
              mc::validated();
          },
          [](uint64_t i) { return "size " + std::to_string(sized[i].first) + " kind " + std::to_string(sized[i].second); }, 1);
    if constexpr (MC_PART == 0) e.add("types that resemble others", 40, unusual, {}, 1);
}
MC_MAIN(setup)
