// Reflected structs behind a type-erased interface: the generated source registers one Impl per struct.
#pragma once
#include "fam.hpp"
#include <memory>
#include <typeinfo>

namespace rf
{
using ref::Node;
using S = std::string;
enum class Color
{
    red,
    green,
    blue = 7
};
struct Inner
{
    int p = -1;
    std::string q = "dq";
    MEO_JSONIZATION(p, MEO_OPT q)
};

// The field types, numbered; fields are accessed through these pointers.
using Types = std::tuple<int, S, bool, double, std::vector<int>, std::optional<int>, std::map<S, S>, json::value, Inner, json::array, json::object, Color>;
constexpr int kTypes = std::tuple_size_v<Types>;

template <int I = 0, typename F>
void with_type(int t, F&& f)
{
    if constexpr (I < kTypes) {
        if (t == I) f(static_cast<std::tuple_element_t<I, Types>*>(nullptr));
        else with_type<I + 1>(t, f);
    }
    else std::abort();
}




struct Field
{
    S key;
    bool opt;
    int type;
};
struct Case
{
    S name;
    std::vector<Field> f;
    virtual ~Case() = default;
    virtual std::shared_ptr<void> make() = 0;
    virtual std::vector<void*> fields(void*) = 0;
    virtual bool from(void*, const json::value&, S*) = 0;
    virtual bool check(const void*, const json::value&, S*) = 0;
    virtual bool is(const json::value&) = 0;
    virtual int reads() = 0;
    virtual bool reads_is(const json::value&, int route) = 0;
    virtual std::shared_ptr<void> read(const json::value&, int route) = 0; // a fresh S; throws if refused
    virtual int writes() = 0;
    virtual json::value write(void*, int route) = 0;
};
// how many wrapping levels each read and write route uses: 0 plain, 1 in an array, 2 in an object
inline const char* const kReads[] = { "as", "const as", "rvalue as", "static_cast", "object to map", "as vector", "as map", "as optional", "as pair" };
inline const char* const kWrites[] = { "to_json", "value(lvalue)", "value(const lvalue)", "value(copy rvalue)", "vector", "map", "array::emplace_back", "object[]", "optional" };

template <typename T, bool Deep>
struct Impl : Case
{
    Impl(S n, std::vector<Field> fs)
    {
        name = std::move(n);
        f = std::move(fs);
    }
    std::shared_ptr<void> make() override { return std::make_shared<T>(); }
    std::vector<void*> fields(void* p) override { return static_cast<T*>(p)->ptrs(); }
    bool from(void* p, const json::value& v, S* err) override { return err ? static_cast<T*>(p)->from_json(v, *err) : static_cast<T*>(p)->from_json(v); }
    bool check(const void* p, const json::value& v, S* err) override { return err ? static_cast<const T*>(p)->check_json(v, *err) : static_cast<const T*>(p)->check_json(v); }
    bool is(const json::value& v) override { return v.is<T>(); }
    int reads() override { return Deep ? 9 : 1; }
    bool reads_is(const json::value& v, int r) override
    {
        if constexpr (Deep) {
            if (r == 5) return json::value(json::array { v, v }).is<std::vector<T>>();
            if (r == 6) return json::value(json::object { { "k", v } }).is<std::map<S, T>>();
            if (r == 7) return v.is_null() || v.is<std::optional<T>>();
            if (r == 8) return json::value(json::array { v, 3 }).is<std::pair<T, int>>();
        }
        return v.is<T>();
    }
    std::shared_ptr<void> read(const json::value& v, int r) override
    {
        json::value c = v;
        if (r == 0) return std::make_shared<T>(c.as<T>());
        if constexpr (Deep) {
            if (r == 1) return std::make_shared<T>(v.as<T>());
            if (r == 2) return std::make_shared<T>(std::move(c).template as<T>());
            if (r == 3) return std::make_shared<T>(static_cast<T>(v));
            if (r == 4) return std::make_shared<T>(static_cast<std::map<S, T>>(json::object { { "k", v } }).at("k"));
            if (r == 5) return std::make_shared<T>(json::value(json::array { v, v }).as<std::vector<T>>().at(1));
            if (r == 6) return std::make_shared<T>(json::value(json::object { { "k", v } }).as<std::map<S, T>>().at("k"));
            if (r == 7) return std::make_shared<T>(v.as<std::optional<T>>().value());
            if (r == 8) return std::make_shared<T>(json::value(json::array { v, 3 }).as<std::pair<T, int>>().first);
        }
        std::abort();
    }
    int writes() override { return Deep ? 9 : 2; }
    json::value write(void* p, int r) override
    {
        T& x = *static_cast<T*>(p);
        const T& c = x;
        if (r == 0) return c.to_json();
        if (r == 1) return json::value(x);
        if constexpr (Deep) {
            if (r == 2) return json::value(c);
            if (r == 3) return json::value(T(c));
            if (r == 4) return json::value(std::vector<T> { c, c }).at(1);
            if (r == 5) return json::value(std::map<S, T> { { "k", c } }).at("k");
            if (r == 6) {
                json::array a { 1 };
                a.emplace_back(c);
                return a.at(1);
            }
            if (r == 7) {
                json::object o;
                o["z"] = c;
                return o.at("z");
            }
            if (r == 8) return json::value(std::optional<T>(c));
        }
        std::abort();
    }
};
inline std::vector<Case*>& registry()
{
    static std::vector<Case*> r;
    return r;
}
template <typename T, bool Deep>
void reg(S name, std::vector<Field> fs)
{
    registry().push_back(new Impl<T, Deep>(std::move(name), std::move(fs)));
}
void register_all();
} // namespace rf
namespace fam
{
template <>
struct M<rf::Color>
{
    static std::string name() { return "Color"; }
    static bool fits(const Node& n) { return n.k == ref::Str ? n.s == "red" || n.s == "green" || n.s == "blue" : n.k == ref::Num; }
    static rf::Color of(const Node& n) { return n.s == "red" ? rf::Color::red : n.s == "green" ? rf::Color::green : rf::Color::blue; }
    static Node json(rf::Color c) { return ref::str(c == rf::Color::red ? "red" : c == rf::Color::green ? "green" : "blue"); }
};
template <>
struct M<rf::Inner>
{
    static std::string name() { return "Inner"; }
    static bool fits(const Node& n)
    {
        if (n.k != ref::Obj) return false;
        auto p = n.o.find("p"), q = n.o.find("q");
        return p != n.o.end() && M<int>::fits(p->second) && (q == n.o.end() || q->second.k == ref::Str);
    }
    static rf::Inner of(const Node& n)
    {
        rf::Inner i;
        i.p = M<int>::of(n.o.at("p"));
        auto q = n.o.find("q");
        if (q != n.o.end()) i.q = q->second.s;
        return i;
    }
    static Node json(const rf::Inner& i) { return ref::obj({ { "p", M<int>::json(i.p) }, { "q", ref::str(i.q) } }); }
};
} // namespace fam
