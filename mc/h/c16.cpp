// C16: integers.
#include "dims.hpp"
#include "ref.hpp"
#include <climits>
#include <limits>
using i128 = __int128;
using u128 = unsigned __int128;

static std::string str(i128 v)
{
    if (v == 0) return "0";
    bool neg = v < 0;
    u128 u = neg ? u128(0) - u128(v) : u128(v);
    std::string s;
    for (; u; u /= 10) s.insert(s.begin(), char('0' + int(u % 10)));
    return neg ? "-" + s : s;
}
struct Int // a decimal literal of any length, judged by text
{
    bool literal = false, neg = false, zero = false, padded = false, huge = false;
    i128 v = 0;
};
static Int judge(const std::string& t)
{
    Int r;
    size_t i = 0;
    if (i < t.size() && t[i] == '-') r.neg = true, ++i;
    if (i == t.size()) return r;
    size_t first = i;
    for (size_t j = i; j < t.size(); ++j)
        if (t[j] < '0' || t[j] > '9') return r;
    r.literal = true;
    r.padded = t[first] == '0' && t.size() - first > 1;
    while (i < t.size() && t[i] == '0') ++i;
    r.zero = i == t.size();
    if (t.size() - i > 30) {
        r.huge = true;
        return r;
    }
    for (; i < t.size(); ++i) r.v = r.v * 10 + (t[i] - '0');
    if (r.neg) r.v = -r.v;
    return r;
}

template <typename T, typename F>
static void read_one(const json::value& v, const Int& n, const std::string& t, const char* how, F&& f)
{
    const bool fits = n.literal && !n.huge && n.v >= i128(std::numeric_limits<T>::min()) && n.v <= i128(std::numeric_limits<T>::max());
    // whether "-0" is an unsigned number and whether a padded raw literal is acceptable is left open
    const bool open = fits && ((n.neg && n.zero && std::is_unsigned_v<T>) || n.padded);
    const bool is = v.is<T>();
    mc::step();
    try {
        T r = f();
        if (!fits) mc::fail(std::string(how) + " read " + t + " as " + str(r));
        if (i128(r) != n.v) mc::fail(std::string(how) + " read " + t + " as " + str(r));
        if (!is) mc::fail(std::string(how) + " converts although the type query says no: " + t);
    }
    catch (const std::exception& ex) {
        if (fits && !open) mc::fail(std::string(how) + " refused " + t + ": " + ex.what());
        if (is) mc::fail(std::string(how) + " refuses although the type query says yes: " + t);
    }
    if (is != fits && !open) mc::fail(std::string("is<T>() is ") + (is ? "true" : "false") + " for " + t + " before " + how);
}
template <typename T>
static void read_as(const json::value& v, const Int& n, const std::string& t, const char* type)
{
    auto name = [&](const char* how) { return std::string(how) + "<" + type + ">"; };
    read_one<T>(v, n, t, name("as").c_str(), [&] { return v.as<T>(); });
    read_one<T>(v, n, t, name("cast").c_str(), [&] { return static_cast<T>(v); });
    read_one<T>(v, n, t, name("rvalue as").c_str(), [&] { return json::value(v).as<T>(); });
    const bool is = v.is<T>();
    json::array a { v };
    json::object o { { "k", v } };
    auto fa = a.find<T>(0), fo = o.find<T>("k");
    if (fa.has_value() != is || fo.has_value() != is) mc::fail(name("find") + " disagrees with the type query for " + t);
    if (is && (*fa != v.as<T>() || *fo != v.as<T>())) mc::fail(name("find") + " gives another number for " + t);
    const T def = T(41);
    if (a.get(0, def) != (is ? v.as<T>() : def) || o.get("k", def) != (is ? v.as<T>() : def)) mc::fail(name("get") + " gives another number for " + t);
    if (a.all<T>() != is || o.all<T>() != is) mc::fail(name("all") + " disagrees for " + t);
}
template <typename T>
static void query(const json::value& v, const Int& n, const std::string& t, const char* type)
{
    const bool fits = n.literal && !n.huge && n.v >= i128(std::numeric_limits<T>::min()) && n.v <= i128(std::numeric_limits<T>::max());
    const bool open = fits && ((n.neg && n.zero && std::is_unsigned_v<T>) || n.padded);
    if (v.is<T>() != fits && !open) mc::fail(std::string("is<") + type + ">() is " + (v.is<T>() ? "true" : "false") + " for " + t);
}
static void check_read(const json::value& v, const std::string& t)
{
    const Int n = judge(t);
    read_one<int>(v, n, t, "as_integer", [&] { return v.as_integer(); });
    read_one<unsigned>(v, n, t, "as_unsigned", [&] { return v.as_unsigned(); });
    read_one<long>(v, n, t, "as_long", [&] { return v.as_long(); });
    read_one<unsigned long>(v, n, t, "as_unsigned_long", [&] { return v.as_unsigned_long(); });
    read_one<long long>(v, n, t, "as_long_long", [&] { return v.as_long_long(); });
    read_one<unsigned long long>(v, n, t, "as_unsigned_long_long", [&] { return v.as_unsigned_long_long(); });
    read_as<int>(v, n, t, "int");
    read_as<unsigned>(v, n, t, "unsigned");
    read_as<long>(v, n, t, "long");
    read_as<unsigned long>(v, n, t, "unsigned long");
    read_as<long long>(v, n, t, "long long");
    read_as<unsigned long long>(v, n, t, "unsigned long long");
    query<short>(v, n, t, "short");
    query<unsigned short>(v, n, t, "unsigned short");
    query<signed char>(v, n, t, "signed char");
    query<unsigned char>(v, n, t, "unsigned char");
    if (ref::readout(v) != ref::num(t)) mc::fail("reading changed the value");
    mc::validated();
    mc::state(t);
    mc::outcome((n.literal ? 1 : 0) | (v.is<int>() ? 2 : 0) | (v.is<unsigned>() ? 4 : 0) | (v.is<long>() ? 8 : 0) | (v.is<unsigned long>() ? 16 : 0)
                | (v.is<short>() ? 32 : 0) | (v.is<unsigned char>() ? 64 : 0));
}
template <typename T>
static void build_from(i128 n, const char* type)
{
    if (n < i128(std::numeric_limits<T>::min()) || n > i128(std::numeric_limits<T>::max())) return;
    mc::step();
    const T t = T(n);
    json::value v = t;
    if (!v.is_number() || v.to_string() != str(n)) mc::fail(std::string("value(") + type + " " + str(n) + ") is " + v.to_string());
    T m = t;
    json::value w(m), x;
    x = m;
    if (w != v || x != v || m != t) mc::fail(std::string("building from an lvalue ") + type + " differs for " + str(n));
    json::array a { t };
    a.emplace_back(t);
    json::value y = std::vector<T> { t, t };
    if (a != y.as_array() || a[0] != v) mc::fail(std::string("building in a container from ") + type + " differs for " + str(n));
}
static void check_number(i128 n)
{
    const std::string s = str(n);
    build_from<int>(n, "int");
    build_from<unsigned>(n, "unsigned");
    build_from<long>(n, "long");
    build_from<unsigned long>(n, "unsigned long");
    build_from<long long>(n, "long long");
    build_from<unsigned long long>(n, "unsigned long long");
    build_from<short>(n, "short");
    build_from<unsigned short>(n, "unsigned short");
    build_from<signed char>(n, "signed char");
    build_from<unsigned char>(n, "unsigned char");
    auto p = json::parse("[" + s + "]");
    if (!p) mc::fail("does not parse: " + s);
    check_read(p->as_array()[0], s);
    if (n >= std::numeric_limits<long long>::min() && n <= std::numeric_limits<long long>::max()) check_read(json::value((long long)n), s);
    else if (n >= 0 && n <= i128(std::numeric_limits<unsigned long long>::max())) check_read(json::value((unsigned long long)n), s);
}

static std::vector<i128> g_bound;
static std::vector<std::string> g_spell, g_digits;
static void spellings(unsigned max)
{
    // all number texts of the grammar, by depth first search over its automaton
    std::function<void(std::string, int)> rec = [&](std::string s, int st) {
        // 0 start, 1 after minus, 2 zero, 3 int digits, 4 after point, 5 fraction, 6 after e, 7 after e sign, 8 exponent
        if (st == 2 || st == 3 || st == 5 || st == 8) g_spell.push_back(s);
        if (s.size() == max) return;
        const char* digits = max > 6 ? "01289" : "0159";
        auto many = [&](int to, bool zero = true) {
            for (const char* d = digits; *d; ++d)
                if (zero || *d != '0') rec(s + *d, to);
        };
        switch (st) {
        case 0: rec(s + "-", 1); [[fallthrough]];
        case 1:
            rec(s + "0", 2);
            many(3, false);
            break;
        case 3: many(3); [[fallthrough]];
        case 2:
            rec(s + ".", 4);
            rec(s + "e", 6);
            rec(s + "E", 6);
            break;
        case 5: rec(s + "e", 6); [[fallthrough]];
        case 4: many(5); break;
        case 6:
            rec(s + "-", 7);
            rec(s + "+", 7);
            [[fallthrough]];
        case 7:
        case 8: many(8); break;
        }
    };
    rec("", 0);
}

static void setup(mc::Engine& e)
{
    const bool th = mc::thorough();
    e.add("all-16-bit", 65536 + 32768, [](uint64_t i) { check_number(i128(i) - 32768); }, [](uint64_t i) { return str(i128(i) - 32768); });
    const int d = th ? 300 : 40;
    std::set<std::string> seen;
    auto put = [&](i128 c) {
        for (int j = -d; j <= d; ++j)
            if (seen.insert(str(c + j)).second) g_bound.push_back(c + j);
    };
    for (int k = 0; k <= 80; ++k) put(i128(1) << k), put(-(i128(1) << k));
    i128 p = 1;
    for (int k = 0; k <= 25; ++k, p *= 10)
        for (int m = 1; m <= 9; ++m) put(p * m), put(-p * m);
    e.add("boundaries", g_bound.size(), [](uint64_t i) { check_number(g_bound[i]); }, [](uint64_t i) { return str(g_bound[i]); });
    spellings(th ? 7 : 6);
    e.add("spellings", g_spell.size(),
          [](uint64_t i) {
              auto r = json::parse("[" + g_spell[i] + "]");
              if (!r) mc::fail("does not parse");
              check_read(r->as_array()[0], g_spell[i]);
              check_read(json::value(json::value::value_type::number, g_spell[i]), g_spell[i]);
          },
          [](uint64_t i) { return g_spell[i]; });
    // every single-digit change, insertion and deletion of every limit
    {
        std::set<std::string> s;
        for (i128 l : { i128(INT_MAX), i128(INT_MIN), i128(UINT_MAX), i128(LLONG_MAX), i128(LLONG_MIN), i128(ULLONG_MAX), i128(127), i128(-128), i128(255), i128(32767),
                        i128(-32768), i128(65535) }) {
            std::string t = str(l);
            for (size_t k = 0; k <= t.size(); ++k)
                for (char c = '0'; c <= '9'; ++c) {
                    std::string u = t;
                    u.insert(k, 1, c);
                    s.insert(u);
                    if (k < t.size()) u = t, u[k] = c, s.insert(u), u = t, u.erase(k, 1), s.insert(u);
                    for (char x : { '.', 'e', '-', '+', ' ', 'x', '\0', ',' }) u = t, u.insert(k, 1, x), s.insert(u);
                }
            s.insert(t + ".0");
            s.insert(t + "e0");
            s.insert("-" + t);
            s.insert("+" + t);
        }
        g_digits.assign(s.begin(), s.end());
        e.add("edited-limits", g_digits.size(), [](uint64_t i) { check_read(json::value(json::value::value_type::number, g_digits[i]), g_digits[i]); },
              [](uint64_t i) { return mc::show(g_digits[i]); });
    }
    {
        static const std::string ab = "0179-+.eE x";
        static const unsigned L = th ? 6 : 5;
        static uint64_t total = 0;
        static std::vector<uint64_t> from;
        for (unsigned l = 0; l <= L; ++l) from.push_back(total), total += mc::ipow(ab.size(), l);
        static auto text = [](uint64_t i) {
            unsigned l = L;
            while (from[l] > i) --l;
            mc::Dec dd(i - from[l]);
            std::string s;
            for (unsigned j = 0; j < l; ++j) s += ab[dd(ab.size())];
            return s;
        };
        e.add("raw-texts", total, [](uint64_t i) { check_read(json::value(json::value::value_type::number, text(i)), text(i)); },
              [](uint64_t i) { return mc::show(text(i)); });
    }
    static const unsigned N = th ? 2000 : 400;
    e.add("long-literals", N * 12,
          [](uint64_t i) {
              mc::Dec dd(i);
              std::string t = dd(2) ? "-" : "";
              unsigned kind = dd(6), n = dd(N) + 1;
              t += kind == 0 ? std::string(n, '9') : kind == 1 ? "1" + std::string(n, '0') : kind == 2 ? std::string(n, '1') : kind == 3 ? "0." + std::string(n, '0') : kind == 4 ? "1." + std::string(n, '0') : "1e" + std::string(n, '0');
              auto r = json::parse("[" + t + "]");
              if (!r) mc::fail("does not parse");
              check_read(r->as_array()[0], t);
          },
          [](uint64_t i) { return "long literal " + std::to_string(i); });
    dm::add_sizes(e, "every-size", dm::ladder(th ? 5000 : 600, th ? 1u << 18 : 1u << 16), [](size_t n) {
        for (std::string t : { std::string(n, '0') + "5", std::string(n + 1, '9'), "1." + std::string(n, '0') + "1", "1e" + std::string(n, '0') + "1", "7" + std::string(n, '1') + "x", "0." + std::string(n, '0') }) {
            check_read(json::value(json::value::value_type::number, t), t);
            check_read(json::value(json::value::value_type::number, "-" + t), "-" + t);
        }
    });
}
MC_MAIN(setup)
