// Enumerations behind a type-erased interface: the generated source registers one Impl per enumeration.
#pragma once
#include "fam.hpp"
#include <map>

namespace en
{
using ref::Node;
using S = std::string;
using V = __int128;

struct Name
{
    S name;
    V value;
};
inline S str(V v) { return v < 0 ? "-" + str(-v) : v >= 10 ? str(v / 10) + char('0' + int(v % 10)) : S(1, char('0' + int(v))); }

constexpr int kReads = 11;
constexpr int kWrites = 9;
inline const char* const kReadName[] = { "as", "const as", "rvalue as", "static_cast", "as vector", "as map", "as optional", "as array", "as pair", "get with default", "as unique_ptr" };
inline const char* const kWriteName[] = { "value(e)", "value = e", "vector", "map", "array::emplace_back", "object[]", "optional", "shared_ptr", "init list" };

struct Case
{
    S name;
    std::vector<Name> names;
    V lo, hi;         // declared reflection range
    V umin, umax;     // the underlying type
    int reads, writes;
    virtual ~Case() = default;
    virtual bool is(const json::value&) = 0;
    virtual bool is_nested(const json::value&, int) = 0;
    virtual V read(const json::value&, int route) = 0; // throws if refused
    virtual json::value write(V, int route) = 0;
};

template <typename E, bool Deep>
struct Impl : Case
{
    using U = std::underlying_type_t<E>;
    static V num(E e) { return V(static_cast<U>(e)); }
    Impl(S n, V l, V h, std::vector<Name> ns)
    {
        name = std::move(n);
        names = std::move(ns);
        lo = l, hi = h;
        reads = Deep ? kReads : 5, writes = Deep ? kWrites : 3;
        umin = V(std::numeric_limits<U>::min()), umax = V(std::numeric_limits<U>::max());
    }
    bool is(const json::value& v) override { return v.is<E>(); }
    bool is_nested(const json::value& v, int r) override
    {
        switch (r) {
        case 0: return json::value(json::array { v }).is<std::vector<E>>();
        default: break;
        }
        if constexpr (!Deep) return is(v);
        else switch (r) {
        case 1: return json::value(json::object { { "k", v } }).is<std::map<S, E>>();
        case 2: return json::value(json::array { v, 1 }).is<std::pair<E, int>>();
        default: return json::array { v }.all<E>();
        }
    }
    V read(const json::value& v, int r) override
    {
        switch (r) {
        case 0: {
            json::value c(v);
            return num(c.as<E>());
        }
        case 1: return num(std::as_const(v).template as<E>());
        case 2: return num(json::value(v).as<E>());
        case 3: return num(static_cast<E>(v));
        case 4: return num(json::value(json::array { v }).as<std::vector<E>>().at(0));
        default: break;
        }
        if constexpr (!Deep) std::abort();
        else switch (r) {
        case 5: return num(json::value(json::object { { "k", v } }).as<std::map<S, E>>().at("k"));
        case 6: return num(v.as<std::optional<E>>().value());
        case 7: return num(json::value(json::array { v, v }).as<std::array<E, 2>>()[1]);
        case 8: return num(json::value(json::array { 1, v }).as<std::pair<int, E>>().second);
        case 9: {
            json::value o(json::object { { "k", v } });
            // two different defaults: the answer is the member exactly if both agree
            E a = o.get("k", static_cast<E>(1)), b = o.get("k", static_cast<E>(2));
            if (a != b) throw std::runtime_error("defaults");
            return num(a);
        }
        default: return num(*v.as<std::unique_ptr<E>>());
        }
    }
    json::value write(V x, int r) override
    {
        E e = static_cast<E>(static_cast<U>(x));
        switch (r) {
        case 0: return json::value(e);
        case 1: {
            json::value v = "old";
            v = e;
            return v;
        }
        case 2: return json::value(std::vector<E> { e })[0];
        default: break;
        }
        if constexpr (!Deep) std::abort();
        else switch (r) {
        case 3: return json::value(std::map<S, E> { { "k", e } })["k"];
        case 4: {
            json::array a;
            a.emplace_back(e);
            return a[0];
        }
        case 5: {
            json::object o;
            o["k"] = e;
            return o["k"];
        }
        case 6: return json::value(std::optional<E>(e));
        case 7: return json::value(std::make_shared<E>(e));
        default: return json::value(json::array { 1, e })[1];
        }
    }
};

inline std::vector<std::unique_ptr<Case>>& cases()
{
    static std::vector<std::unique_ptr<Case>> v;
    return v;
}
template <typename E, bool Deep = false>
void reg(S title, V lo, V hi, std::vector<Name> names)
{
    cases().push_back(std::make_unique<Impl<E, Deep>>(std::move(title), lo, hi, std::move(names)));
}
void register_all(); // generated
}
