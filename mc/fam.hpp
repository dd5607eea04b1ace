// A family of C++ types with independent definitions of "this tree has the shape of T", "the T it denotes" and
// "the tree of this T".
#pragma once
#include "ref.hpp"
#include <array>
#include <cmath>
#include <deque>
#include <limits>
#include <list>
#include <memory>
#include <optional>
#include <set>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#ifdef MEOJSON_FS_PATH_EXTENSION
#include <filesystem>
#endif

namespace fam
{
using ref::Node;

template <typename T, typename = void>
struct M;

template <>
struct M<bool>
{
    static std::string name() { return "bool"; }
    static bool fits(const Node& n) { return n.k == ref::Bool; }
    static bool of(const Node& n) { return n.s == "true"; }
    static Node json(bool b) { return ref::boolean(b); }
    static bool eq(bool a, bool b) { return a == b; }
};
template <typename T>
struct M<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>>
{
    static std::string name() { return (std::is_signed_v<T> ? "int" : "uint") + std::to_string(sizeof(T) * 8) + (std::is_same_v<T, long long> || std::is_same_v<T, unsigned long long> ? "ll" : ""); }
    static bool parse(const std::string& t, __int128& v)
    {
        size_t i = t[0] == '-';
        if (i == t.size() || t.size() > 30) return false;
        v = 0;
        for (size_t j = i; j < t.size(); ++j) {
            if (t[j] < '0' || t[j] > '9') return false;
            v = v * 10 + (t[j] - '0');
        }
        if (i) v = -v;
        return true;
    }
    static bool fits(const Node& n)
    {
        __int128 v;
        return n.k == ref::Num && parse(n.s, v) && v >= __int128(std::numeric_limits<T>::min()) && v <= __int128(std::numeric_limits<T>::max());
    }
    static T of(const Node& n)
    {
        __int128 v = 0;
        parse(n.s, v);
        return T(v);
    }
    static Node json(T t)
    {
        __int128 v = t;
        bool neg = v < 0;
        if (neg) v = -v;
        std::string s;
        do s.insert(s.begin(), char('0' + int(v % 10)));
        while (v /= 10);
        return ref::num(neg ? "-" + s : s);
    }
    static bool eq(T a, T b) { return a == b; }
};
template <typename T>
struct M<T, std::enable_if_t<std::is_floating_point_v<T>>>
{
    static std::string name() { return "float" + std::to_string(sizeof(T) * 8); }
    static T of(const Node& n)
    {
        if constexpr (sizeof(T) == 4) return strtof(n.s.c_str(), nullptr);
        else if constexpr (sizeof(T) == 8) return strtod(n.s.c_str(), nullptr);
        else return strtold(n.s.c_str(), nullptr);
    }
    static bool fits(const Node& n) { return n.k == ref::Num && !std::isinf(of(n)); }
    static Node json(T t)
    {
        char b[5200];
        snprintf(b, sizeof b, "%Lf", (long double)t);
        return ref::num(b);
    }
    static bool eq(T a, T b) { return a == b; }
};
template <>
struct M<std::string>
{
    static std::string name() { return "string"; }
    static bool fits(const Node& n) { return n.k == ref::Str; }
    static std::string of(const Node& n) { return n.s; }
    static Node json(const std::string& s) { return ref::str(s); }
    static bool eq(const std::string& a, const std::string& b) { return a == b; }
};
template <>
struct M<std::string_view>
{
    static std::string name() { return "string_view"; }
    static bool fits(const Node& n) { return n.k == ref::Str; }
    static std::string_view of(const Node& n) { return n.s; }
    static Node json(std::string_view s) { return ref::str(std::string(s)); }
    static bool eq(std::string_view a, std::string_view b) { return a == b; }
};
template <>
struct M<std::monostate>
{
    static std::string name() { return "monostate"; }
    static bool fits(const Node& n) { return n.k == ref::Null; }
    static std::monostate of(const Node&) { return {}; }
    static Node json(std::monostate) { return ref::null(); }
    static bool eq(std::monostate, std::monostate) { return true; }
};
template <>
struct M<std::nullptr_t>
{
    static std::string name() { return "nullptr"; }
    static bool fits(const Node& n) { return n.k == ref::Null; }
    static std::nullptr_t of(const Node&) { return nullptr; }
    static Node json(std::nullptr_t) { return ref::null(); }
    static bool eq(std::nullptr_t, std::nullptr_t) { return true; }
};
template <>
struct M<json::value>
{
    static std::string name() { return "value"; }
    static bool fits(const Node&) { return true; }
    static json::value of(const Node& n) { return ref::build(n); }
    static Node json(const json::value& v) { return ref::readout(v); }
    static bool eq(const json::value& a, const json::value& b) { return ref::readout(a) == ref::readout(b); }
};
template <>
struct M<json::array>
{
    static std::string name() { return "json::array"; }
    static bool fits(const Node& n) { return n.k == ref::Arr; }
    static json::array of(const Node& n) { return ref::build(n).as_array(); }
    static Node json(const json::array& v)
    {
        Node n = ref::arr();
        for (auto& e : v) n.a.push_back(ref::readout(e));
        return n;
    }
    static bool eq(const json::array& a, const json::array& b) { return json(a) == json(b); }
};
template <>
struct M<json::object>
{
    static std::string name() { return "json::object"; }
    static bool fits(const Node& n) { return n.k == ref::Obj; }
    static json::object of(const Node& n) { return ref::build(n).as_object(); }
    static Node json(const json::object& v)
    {
        Node n = ref::obj();
        for (auto& [k, e] : v) n.o[k] = ref::readout(e);
        return n;
    }
    static bool eq(const json::object& a, const json::object& b) { return json(a) == json(b); }
};
#ifdef MEOJSON_FS_PATH_EXTENSION
template <>
struct M<std::filesystem::path>
{
    static std::string name() { return "path"; }
    static bool fits(const Node& n) { return n.k == ref::Str; }
    static std::filesystem::path of(const Node& n) { return n.s; }
    static Node json(const std::filesystem::path& v) { return ref::str(v.native()); }
    static bool eq(const std::filesystem::path& a, const std::filesystem::path& b) { return a.native() == b.native(); }
};
#endif

// kinds of standard containers
template <typename T, typename = void>
constexpr bool iterable = false;
template <typename T>
constexpr bool iterable<T, std::void_t<typename T::value_type, decltype(std::declval<const T&>().begin())>> = true;
template <typename T, typename = void>
constexpr bool keyed = false;
template <typename T>
constexpr bool keyed<T, std::void_t<typename T::mapped_type>> = true;
template <typename T, typename = void>
constexpr bool tuple_like = false;
template <typename T>
constexpr bool tuple_like<T, std::void_t<decltype(std::tuple_size<T>::value)>> = true;
template <typename T>
constexpr bool textual = std::is_convertible_v<T, std::string_view>;
#ifdef MEOJSON_FS_PATH_EXTENSION
template <>
constexpr bool textual<std::filesystem::path> = true;
#endif
template <typename T>
constexpr bool jsonish = std::is_same_v<T, json::array> || std::is_same_v<T, json::object> || std::is_same_v<T, json::value>;
template <typename T>
constexpr bool sequence = iterable<T> && !keyed<T> && !textual<T> && !jsonish<T>;

template <typename T>
struct Seq
{
    using E = typename T::value_type;
    static bool fits(const Node& n)
    {
        if (n.k != ref::Arr) return false;
        for (auto& e : n.a)
            if (!M<E>::fits(e)) return false;
        return true;
    }
    static T of(const Node& n)
    {
        T t;
        for (auto& e : n.a) t.insert(t.end(), M<E>::of(e));
        return t;
    }
    static Node json(const T& t)
    {
        Node n = ref::arr();
        for (const auto& e : t) n.a.push_back(M<E>::json(e));
        return n;
    }
    static bool eq(const T& a, const T& b)
    {
        if (a.size() != b.size()) return false;
        auto j = b.begin();
        for (auto i = a.begin(); i != a.end(); ++i, ++j)
            if (!M<E>::eq(*i, *j)) return false;
        return true;
    }
};
#define MC_SEQ(templ)                                                          \
    template <typename E>                                                      \
    struct M<std::templ<E>> : Seq<std::templ<E>>                               \
    {                                                                          \
        static std::string name() { return #templ "<" + M<E>::name() + ">"; }  \
    }
MC_SEQ(vector);
MC_SEQ(list);
MC_SEQ(deque);
MC_SEQ(set);
MC_SEQ(multiset);
#define MC_USEQ(templ)                                                        \
    template <typename E>                                                     \
    struct M<std::templ<E>> : Seq<std::templ<E>>                              \
    {                                                                         \
        static std::string name() { return #templ "<" + M<E>::name() + ">"; } \
        static std::templ<E> of(const Node& n)                                \
        {                                                                     \
            std::templ<E> t;                                                  \
            for (auto& e : n.a) t.insert(M<E>::of(e));                        \
            return t;                                                         \
        }                                                                     \
        static bool eq(const std::templ<E>& a, const std::templ<E>& b) { return a == b; } \
    }
MC_USEQ(unordered_set);
MC_USEQ(unordered_multiset);

template <typename E, size_t N>
struct M<std::array<E, N>>
{
    using T = std::array<E, N>;
    static std::string name() { return "array<" + M<E>::name() + "," + std::to_string(N) + ">"; }
    static bool fits(const Node& n)
    {
        if (n.k != ref::Arr || n.a.size() != N) return false;
        for (auto& e : n.a)
            if (!M<E>::fits(e)) return false;
        return true;
    }
    static T of(const Node& n)
    {
        T t {};
        for (size_t i = 0; i < N; ++i) t[i] = M<E>::of(n.a[i]);
        return t;
    }
    static Node json(const T& t)
    {
        Node n = ref::arr();
        for (const auto& e : t) n.a.push_back(M<E>::json(e));
        return n;
    }
    static bool eq(const T& a, const T& b)
    {
        for (size_t i = 0; i < N; ++i)
            if (!M<E>::eq(a[i], b[i])) return false;
        return true;
    }
};
template <typename T, typename... E>
struct Tup
{
    static std::string names()
    {
        std::string s;
        ((s += (s.empty() ? "" : ",") + M<E>::name()), ...);
        return s;
    }
    template <size_t... I>
    static bool fits_(const Node& n, std::index_sequence<I...>)
    {
        return (M<E>::fits(n.a[I]) && ...);
    }
    static bool fits(const Node& n) { return n.k == ref::Arr && n.a.size() == sizeof...(E) && fits_(n, std::index_sequence_for<E...> {}); }
    template <size_t... I>
    static void fill(T& t, const Node& n, std::index_sequence<I...>)
    {
        ((std::get<I>(t) = M<E>::of(n.a[I])), ...);
    }
    static T of(const Node& n)
    {
        T t {};
        fill(t, n, std::index_sequence_for<E...> {});
        return t;
    }
    template <size_t... I>
    static Node json_(const T& t, std::index_sequence<I...>)
    {
        Node n = ref::arr();
        (n.a.push_back(M<E>::json(std::get<I>(t))), ...);
        return n;
    }
    static Node json(const T& t) { return json_(t, std::index_sequence_for<E...> {}); }
    template <size_t... I>
    static bool eq_(const T& a, const T& b, std::index_sequence<I...>)
    {
        return (M<E>::eq(std::get<I>(a), std::get<I>(b)) && ...);
    }
    static bool eq(const T& a, const T& b) { return eq_(a, b, std::index_sequence_for<E...> {}); }
};
template <typename A, typename B>
struct M<std::pair<A, B>> : Tup<std::pair<A, B>, A, B>
{
    static std::string name() { return "pair<" + M::names() + ">"; }
};
template <typename... E>
struct M<std::tuple<E...>> : Tup<std::tuple<E...>, E...>
{
    static std::string name() { return "tuple<" + M::names() + ">"; }
};
template <typename T>
struct Map
{
    using E = typename T::mapped_type;
    static bool fits(const Node& n)
    {
        if (n.k != ref::Obj) return false;
        for (auto& [k, e] : n.o)
            if (!M<E>::fits(e)) return false;
        return true;
    }
    static T of(const Node& n)
    {
        T t;
        for (auto& [k, e] : n.o) t.emplace(k, M<E>::of(e));
        return t;
    }
    static Node json(const T& t)
    {
        Node n = ref::obj();
        for (auto& [k, e] : t) n.o[k] = M<E>::json(e);
        return n;
    }
    static bool eq(const T& a, const T& b)
    {
        if (a.size() != b.size()) return false;
        for (auto& [k, e] : a) {
            auto it = b.find(k);
            if (it == b.end() || !M<E>::eq(e, it->second)) return false;
        }
        return true;
    }
};
template <typename E>
struct M<std::map<std::string, E>> : Map<std::map<std::string, E>>
{
    static std::string name() { return "map<" + M<E>::name() + ">"; }
};
template <typename E, typename C>
struct M<std::map<std::string, E, C>> : Map<std::map<std::string, E, C>>
{
    static std::string name() { return "map<" + M<E>::name() + ">, another order"; }
};
template <typename E>
struct M<std::unordered_map<std::string, E>> : Map<std::unordered_map<std::string, E>>
{
    static std::string name() { return "unordered_map<" + M<E>::name() + ">"; }
};
template <typename T, typename E>
struct Nullable
{
    static bool fits(const Node& n) { return n.k == ref::Null || M<E>::fits(n); }
    static Node json(const T& t) { return t ? M<E>::json(*t) : ref::null(); }
    static bool eq(const T& a, const T& b) { return bool(a) == bool(b) && (!a || M<E>::eq(*a, *b)); }
};
template <typename E>
struct M<std::optional<E>> : Nullable<std::optional<E>, E>
{
    static std::string name() { return "optional<" + M<E>::name() + ">"; }
    static std::optional<E> of(const Node& n)
    {
        std::optional<E> r;
        if (n.k != ref::Null) r.emplace(M<E>::of(n));
        return r;
    }
};
template <typename E>
struct M<std::shared_ptr<E>> : Nullable<std::shared_ptr<E>, E>
{
    static std::string name() { return "shared_ptr<" + M<E>::name() + ">"; }
    static std::shared_ptr<E> of(const Node& n) { return n.k == ref::Null ? nullptr : std::make_shared<E>(M<E>::of(n)); }
};
template <typename E>
struct M<std::unique_ptr<E>> : Nullable<std::unique_ptr<E>, E>
{
    static std::string name() { return "unique_ptr<" + M<E>::name() + ">"; }
    static std::unique_ptr<E> of(const Node& n) { return n.k == ref::Null ? nullptr : std::make_unique<E>(M<E>::of(n)); }
};
template <typename... E>
struct M<std::variant<E...>>
{
    using T = std::variant<E...>;
    static std::string name() { return "variant<" + Tup<std::tuple<E...>, E...>::names() + ">"; }
    static bool fits(const Node& n) { return (M<E>::fits(n) || ...); }
    template <size_t... I>
    static T of_(const Node& n, std::index_sequence<I...>)
    {
        T t;
        ((M<E>::fits(n) ? (t.template emplace<I>(M<E>::of(n)), true) : false) || ...);
        return t;
    }
    static T of(const Node& n) { return of_(n, std::index_sequence_for<E...> {}); }
    static Node json(const T& t)
    {
        return std::visit([](const auto& x) { return M<std::decay_t<decltype(x)>>::json(x); }, t);
    }
    static bool eq(const T& a, const T& b)
    {
        return a.index() == b.index()
            && std::visit(
                   [](const auto& x, const auto& y) {
                       if constexpr (std::is_same_v<decltype(x), decltype(y)>) return M<std::decay_t<decltype(x)>>::eq(x, y);
                       else return false;
                   },
                   a, b);
    }
};

template <typename... T>
struct List
{
    template <typename F>
    static void each(F&& f)
    {
        (f(static_cast<T*>(nullptr)), ...);
    }
};
template <typename... A, typename... B>
List<A..., B...> operator+(List<A...>, List<B...>);

using S = std::string;
template <typename T>
using SMap = std::map<S, T>;
template <typename T>
using UMap = std::unordered_map<S, T>;

using Scalars = List<bool, int, unsigned, long, unsigned long, long long, unsigned long long, float, double, long double, S, json::value, json::array, json::object
#ifdef MEOJSON_FS_PATH_EXTENSION
                     ,
                     std::filesystem::path
#endif
                     >;
using Containers1 = List<
    std::vector<int>, std::list<S>, std::set<int>, std::unordered_multiset<int>, std::set<std::vector<S>>,
    std::array<bool, 3>, std::pair<S, bool>, std::tuple<std::vector<S>, int>, std::vector<std::tuple<S>>, UMap<S>,
    SMap<SMap<S>>, std::pair<SMap<S>, int>, SMap<json::array>>;
using Containers2 = List<
    std::vector<bool>, std::list<bool>, std::set<S>, std::vector<json::value>, std::array<int, 0>,
    std::array<std::array<S, 1>, 2>, std::tuple<int>, std::tuple<json::value, json::value>, SMap<int>, UMap<int>,
    UMap<std::array<int, 1>>, std::array<SMap<S>, 1>, SMap<json::object>>;
using Containers3 = List<
    std::vector<S>, std::deque<int>, std::multiset<int>, std::vector<std::vector<S>>, std::array<int, 1>,
    std::array<std::vector<S>, 2>, std::tuple<S, S>, std::tuple<std::pair<S, S>, std::tuple<S>>, SMap<S>, SMap<json::value>,
    std::vector<SMap<S>>, std::vector<json::array>, std::tuple<json::array, json::object>>;
using Containers4 = List<
    std::vector<double>, std::deque<S>, std::unordered_set<S>, std::list<std::vector<int>>, std::array<S, 2>,
    std::pair<int, S>, std::tuple<int, S, bool>, std::vector<std::pair<S, int>>, SMap<bool>, SMap<std::vector<S>>,
    std::list<UMap<int>>, std::vector<json::object>>;
// every collection of every plain element
using Matrix1 = List<std::deque<bool>, std::deque<double>, std::list<int>, std::list<double>, std::set<bool>, std::set<double>, std::multiset<bool>, std::multiset<S>, std::multiset<double>,
                     std::vector<long long>, std::vector<float>>;
using Matrix2 = List<std::unordered_set<bool>, std::unordered_set<int>, std::unordered_set<double>, std::unordered_multiset<bool>, std::unordered_multiset<S>, std::unordered_multiset<double>,
                     SMap<double>, UMap<bool>, UMap<double>, std::map<S, int, std::greater<S>>, std::map<S, S, std::less<>>, std::vector<unsigned>>;
using Containers = decltype(Containers1 {} + Containers2 {} + Containers3 {} + Containers4 {});
// wider fixed sizes
using Wide = List<std::array<int, 4>, std::array<S, 5>, std::array<int, 6>, std::array<int, 7>, std::array<S, 8>, std::array<bool, 9>, std::array<int, 16>, std::array<int, 17>,
                  std::array<int, 33>, std::tuple<int, S, int, S>, std::tuple<int, S, int, S, int>, std::tuple<int, int, int, int, int, int>, std::tuple<int, S, int, S, int, S, int>,
                  std::tuple<S, S, S, S, S, S, S, S, S>, std::array<std::pair<int, S>, 5>>;
using Nullables1 = List<
    std::monostate, std::optional<S>, std::optional<json::object>, std::optional<std::pair<int, S>>, std::shared_ptr<std::vector<S>>,
    std::optional<std::shared_ptr<S>>, std::unique_ptr<std::unique_ptr<S>>, SMap<std::optional<int>>, std::array<std::unique_ptr<S>, 1>, std::variant<S, int>,
    std::variant<int, double>, std::variant<json::object, json::array, S>, std::variant<S, std::optional<bool>>, SMap<std::variant<S, std::monostate>>, std::variant<unsigned, int>>;
using Nullables2 = List<
    std::nullptr_t, std::optional<double>, std::optional<std::vector<S>>, std::optional<std::array<S, 1>>, std::shared_ptr<json::value>,
    std::unique_ptr<int>, std::vector<std::optional<S>>, SMap<std::shared_ptr<S>>, std::pair<std::optional<int>, std::optional<S>>, std::variant<std::monostate, int, S>,
    std::variant<std::vector<int>, std::vector<S>>, std::variant<std::monostate, json::value>, std::variant<std::shared_ptr<S>, int>, std::variant<std::variant<int, S>, bool>, std::variant<std::optional<int>, std::monostate>>;
using Nullables3 = List<
    std::optional<int>, std::optional<json::value>, std::optional<std::optional<int>>, std::shared_ptr<int>, std::shared_ptr<std::shared_ptr<S>>,
    std::unique_ptr<S>, std::vector<std::shared_ptr<S>>, UMap<std::unique_ptr<S>>, std::tuple<std::shared_ptr<S>, std::optional<bool>>, std::variant<bool, double>,
    std::variant<std::vector<S>, std::vector<int>, SMap<S>>, std::optional<std::variant<int, S>>, std::variant<std::unique_ptr<S>, int>, std::tuple<std::variant<int, S>, std::monostate>, std::variant<std::monostate, std::optional<S>, int>, std::variant<int, std::monostate, std::shared_ptr<S>>>;
using Nullables4 = List<
    std::optional<bool>, std::optional<json::array>, std::optional<SMap<S>>, std::shared_ptr<S>, std::shared_ptr<std::optional<S>>,
    std::unique_ptr<SMap<S>>, std::list<std::unique_ptr<int>>, std::array<std::optional<S>, 2>, std::variant<int, S>, std::variant<double, int>,
    std::variant<std::tuple<int, S>, std::pair<S, S>, std::vector<S>>, std::variant<std::optional<int>, S>, std::vector<std::variant<int, S>>, std::variant<std::array<S, 1>, std::array<S, 2>, SMap<int>>>;
using Nullables = decltype(Nullables1 {} + Nullables2 {} + Nullables3 {} + Nullables4 {});
} // namespace fam
