// C17: floating-point numbers.
#include "dims.hpp"
#include "ref.hpp"
#include <cmath>
#include <limits>

template <typename T>
static T oracle(const char* s)
{
    if constexpr (std::is_same_v<T, float>) return strtof(s, nullptr);
    else if constexpr (std::is_same_v<T, double>) return strtod(s, nullptr);
    else return strtold(s, nullptr);
}
template <typename T>
constexpr const char* name_of()
{
    return std::is_same_v<T, float> ? "float" : std::is_same_v<T, double> ? "double" : "long double";
}
template <typename T>
static bool same(T a, T b)
{
    return a == b && std::signbit(a) == std::signbit(b);
}
static std::string show(long double v)
{
    char b[64];
    snprintf(b, sizeof b, "%La (%.21Lg)", v, v);
    return b;
}
template <typename T>
static T named(const json::value& v)
{
    if constexpr (std::is_same_v<T, float>) return v.as_float();
    else if constexpr (std::is_same_v<T, double>) return v.as_double();
    else return v.as_long_double();
}
template <typename T>
static void read_is(const json::value& v, bool fits, T want, std::string_view t, bool all_routes)
{
    auto one = [&](const char* how, auto&& f) {
        mc::step();
        try {
            T r = f();
            if (!fits) mc::fail(std::string(how) + " read " + mc::show(t) + " as " + name_of<T>() + " " + show(r));
            if (!same(r, want)) mc::fail(std::string(how) + " read " + mc::show(t) + " as " + name_of<T>() + " " + show(r) + ", expected " + show(want));
        }
        catch (const std::exception& ex) {
            if (fits) mc::fail(std::string(how) + " refused " + mc::show(t) + " as " + name_of<T>() + ": " + ex.what());
        }
    };
    one("as_", [&] { return named<T>(v); });
    mc::outcome((fits ? 1 : 0) + (fits && want == 0 ? 2 : 0) + (fits && std::signbit(want) ? 4 : 0) + (fits && std::fpclassify(want) == FP_SUBNORMAL ? 8 : 0) + 16 * (std::is_same_v<T, float> ? 1 : std::is_same_v<T, double> ? 2 : 3));
    if (v.is<T>() != fits) mc::fail(std::string("is<") + name_of<T>() + "> is " + (fits ? "false" : "true") + " for " + mc::show(t));
    if (!all_routes) return;
    one("as<>", [&] { return v.as<T>(); });
    one("cast", [&] { return static_cast<T>(v); });
    one("rvalue", [&] { return json::value(v).as<T>(); });
    json::array a { v };
    auto f = a.find<T>(0);
    if (f.has_value() != fits || (fits && !same(*f, want))) mc::fail("find disagrees for " + mc::show(t));
    if (!same(a.get(0, T(0.5)), fits ? want : T(0.5))) mc::fail("get disagrees for " + mc::show(t));
    if (a.all<T>() != fits) mc::fail("all disagrees for " + mc::show(t));
}
template <typename T>
static void read_text(const json::value& v, const std::string& t, bool all_routes = true)
{
    T want = oracle<T>(t.c_str());
    read_is<T>(v, !std::isinf(want), want, t, all_routes);
}
static void check_text(const std::string& t, bool all_routes = true)
{
    auto r = json::parse("[" + t + "]");
    if (!r) mc::fail("does not parse: " + mc::show(t));
    const json::value& v = r->as_array()[0];
    mc::state(t);
    mc::validated();
    read_text<float>(v, t, all_routes);
    read_text<double>(v, t, all_routes);
    read_text<long double>(v, t, all_routes);
    if (v.to_string() != t) mc::fail("reading changed the value");
}

template <typename T>
static void check_built(T x)
{
    mc::step();
    mc::validated();
    json::value v = x;
    const std::string t = v.to_string();
    if (!v.is_number()) mc::fail("not a number: " + show(x));
    auto p = ref::parse("[" + t + "]");
    if (!p || p->a.size() != 1 || p->a[0] != ref::num(t)) mc::fail("building " + show(x) + " gives " + mc::show(t) + ", not a JSON number");
    auto q = json::parse("[" + t + "]");
    if (!q || (*q)[0] != v) mc::fail("does not parse back: " + mc::show(t));
    json::array a { x };
    json::value w;
    w = x;
    if (a[0] != v || w != v || json::value(std::vector<T> { x }).as_array()[0] != v) mc::fail("another construction route gives another text for " + show(x));
#ifdef MEOJSON_KEEP_FLOATING_PRECISION
    read_is<T>(v, true, x, t, false);
    read_is<T>((*q)[0], true, x, t, false);
#else
    char b[6000];
    if constexpr (std::is_same_v<T, long double>) snprintf(b, sizeof b, "%Lf", x);
    else snprintf(b, sizeof b, "%f", double(x));
    if (t != b) mc::fail("building " + show(x) + " gives " + mc::show(t) + ", expected " + mc::show(b));
    if (mc::hash(t) % 64 == 0 || std::fabs(x) < 1e10) read_text<T>(v, t, false);
#endif
}

// exact decimal text of a finite number as digits and exponent: value = 0.d1d2... * 10^e
static std::string exact(long double m, int bump)
{
    static thread_local char b[20000];
    snprintf(b, sizeof b, "%.11600Le", m);
    std::string s = b;
    size_t e = s.find('e');
    std::string exp = s.substr(e), dig = s.substr(0, e);
    while (dig.back() == '0') dig.pop_back();
    if (dig.back() == '.') dig += "0";
    if (bump > 0) dig += "0000001";
    if (bump < 0) { // just below: decrement the last digit and append nines
        size_t k = dig.size() - 1;
        while (dig[k] == '0' || dig[k] == '.') {
            if (dig[k] == '0') dig[k] = '9';
            --k;
        }
        dig[k]--;
        dig += "9999999";
    }
    return dig + exp;
}
template <typename T>
static void check_half(T lo, T hi, bool hi_even)
{
    // lo and hi are neighbours; the midpoint is exact in long double
    long double mid = ((long double)lo + (std::isinf(hi) ? (long double)0 : (long double)hi)) / 2;
    if (std::isinf(hi)) mid = (long double)lo + ((long double)lo - (long double)std::nextafter(lo, T(0))) / 2;
    for (int neg = 0; neg < 2; ++neg)
        for (int bump = -1; bump <= 1; ++bump) {
            T want = bump < 0 ? lo : bump > 0 ? hi : hi_even ? hi : lo;
            std::string t = (neg ? "-" : "") + exact(mid, bump);
            json::value v(json::value::value_type::number, t);
            mc::state(t);
            mc::validated();
            read_is<T>(v, !std::isinf(want), neg ? -want : want, t, false);
        }
}

// structured mantissas of `bits` bits: up to `n` bits set (or cleared), and low/high runs
static std::vector<uint64_t> mantissas(unsigned bits, unsigned n)
{
    std::set<uint64_t> s;
    const uint64_t all = bits == 64 ? ~0ull : (1ull << bits) - 1;
    s.insert(0);
    for (unsigned a = 0; a < bits; ++a) {
        s.insert(1ull << a);
        s.insert((1ull << a) - 1);
        if (n > 1)
            for (unsigned b = 0; b < a; ++b) s.insert(1ull << a | 1ull << b);
    }
    std::vector<uint64_t> r(s.begin(), s.end());
    for (auto x : s) r.push_back(all & ~x);
    std::sort(r.begin(), r.end());
    r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
}
static float mkf(uint32_t u)
{
    float f;
    memcpy(&f, &u, 4);
    return f;
}
static double mkd(uint64_t u)
{
    double f;
    memcpy(&f, &u, 8);
    return f;
}

static std::vector<std::string> g_spell;
static void spellings(unsigned max, const char* digits)
{
    std::function<void(std::string, int)> rec = [&](std::string s, int st) {
        if (st == 2 || st == 3 || st == 5 || st == 8) g_spell.push_back(s);
        if (s.size() == max) return;
        auto many = [&](int to, bool zero = true) {
            for (const char* d = digits; *d; ++d)
                if (zero || *d != '0') rec(s + *d, to);
        };
        switch (st) {
        case 0: rec(s + "-", 1); [[fallthrough]];
        case 1:
            rec(s + "0", 2);
            many(3, false);
            break;
        case 3: many(3); [[fallthrough]];
        case 2:
            rec(s + ".", 4);
            rec(s + "e", 6);
            if (s.size() < 4) rec(s + "E", 6);
            break;
        case 5: rec(s + "e", 6); [[fallthrough]];
        case 4: many(5); break;
        case 6:
            rec(s + "-", 7);
            rec(s + "+", 7);
            [[fallthrough]];
        case 7:
        case 8: many(8); break;
        }
    };
    rec("", 0);
}

static std::vector<uint64_t> g_fm, g_dm, g_lm;
static std::vector<unsigned> g_le;

static void setup(mc::Engine& e)
{
    const bool th = mc::thorough();
    if (th) {
        e.add("all-floats", 1ull << 16,
              [](uint64_t i) {
                  for (uint32_t lo = 0; lo < 65536; ++lo) {
                      float f = mkf(uint32_t(i << 16 | lo));
                      if (std::isfinite(f)) check_built(f);
                  }
                  mc::statei(i, 1);
              },
              [](uint64_t i) { return "floats with high half " + std::to_string(i); }, 4, 300);
    }
    g_fm = mantissas(23, 2);
    g_dm = mantissas(52, th ? 2 : 1);
    e.add("floats", 510 * g_fm.size(),
          [](uint64_t i) {
              float f = mkf(uint32_t(i % 255 << 23 | (i / 255 % 2) << 31 | g_fm[i / 510]));
              mc::statei(i, 2);
              check_built(f);
          },
          [](uint64_t i) { return show(mkf(uint32_t(i % 255 << 23 | (i / 255 % 2) << 31 | g_fm[i / 510]))); });
    auto dbl = [](uint64_t i) { return mkd(i % 2047 << 52 | (i / 2047 % 2) << 63 | g_dm[i / 4094]); };
    e.add("doubles", 4094 * g_dm.size(),
          [dbl](uint64_t i) {
              mc::statei(i, 3);
              check_built(dbl(i));
          },
          [dbl](uint64_t i) { return show(dbl(i)); });
    // doubles near decimal ties of the six-decimal rendering and of short decimals
    e.add("decimal-doubles", 4000 * 23 * 2,
          [](uint64_t i) {
              mc::Dec d(i);
              bool neg = d(2);
              int k = int(d(23)) - 12, n = int(d(4000));
              double x = (neg ? -1.0 : 1.0) * n * std::pow(10.0, k);
              mc::statei(i, 4);
              check_built(x);
              check_built(float(x));
              check_built((long double)x);
              check_built(std::nextafter(x, 1e30));
              check_built((n + 0.5) * 1e-6);
          },
          [](uint64_t i) { return "decimal case " + std::to_string(i); });
    g_lm = { 0, 1, 2, 0x3fffffffffffffff, 0x7fffffffffffffff, 0x7ffffffffffffffe, 0x4000000000000000, 0x5555555555555555, 0x2aaaaaaaaaaaaaaa, 0x7ffffffffffff800, 0x400, 0x7fffffffffffffbf };
    for (unsigned x = 0; x < 32767; ++x)
        if (th || x < 40 || x > 32767 - 40 || (x > 16383 - 200 && x < 16383 + 200) || (x > 16383 - 1100 && x < 16383 - 1000) || (x > 16383 + 1000 && x < 16383 + 1040) || x % 128 == 0) g_le.push_back(x);
    auto ld = [](uint64_t i) {
        mc::Dec d(i);
        bool neg = d(2);
        uint64_t m = g_lm[d(g_lm.size())];
        unsigned x = g_le[d(g_le.size())];
        long double r = 0;
        uint64_t mant = m | (x ? 1ull << 63 : 0);
        uint16_t se = uint16_t(x | (neg ? 0x8000 : 0));
        memcpy(&r, &mant, 8);
        memcpy(reinterpret_cast<char*>(&r) + 8, &se, 2);
        return r;
    };
    e.add("long-doubles", g_le.size() * g_lm.size() * 2,
          [ld](uint64_t i) {
              mc::statei(i, 5);
              check_built(ld(i));
          },
          [ld](uint64_t i) { return show(ld(i)); });
    spellings(th ? 8 : 7, "019");
    e.add("spellings", g_spell.size(), [](uint64_t i) { check_text(g_spell[i], g_spell[i].size() < 6); }, [](uint64_t i) { return g_spell[i]; });
    // rounding ties: the exact midpoint of neighbours and texts just beside it
    static auto hm = mantissas(23, 1), hd = mantissas(52, 1);
    e.add("float-ties", 255 * hm.size(),
          [](uint64_t i) {
              float lo = mkf(uint32_t(i % 255 << 23 | hm[i / 255])), hi = mkf(uint32_t(i % 255 << 23 | hm[i / 255]) + 1);
              check_half(lo, hi, (hm[i / 255] + 1) % 2 == 0);
          },
          [](uint64_t i) { return "above " + show(mkf(uint32_t(i % 255 << 23 | hm[i / 255]))); });
    static std::vector<unsigned> de;
    for (unsigned x = 0; x < 2047; ++x)
        if (th || x < 20 || x > 2027 || (x > 1000 && x < 1100) || x % 64 == 0) de.push_back(x);
    e.add("double-ties", de.size() * hd.size(),
          [](uint64_t i) {
              uint64_t u = uint64_t(de[i % de.size()]) << 52 | hd[i / de.size()];
              check_half(mkd(u), mkd(u + 1), (u + 1) % 2 == 0);
          },
          [](uint64_t i) { return "above " + show(mkd(uint64_t(de[i % de.size()]) << 52 | hd[i / de.size()])); });
    // magnitudes: every exponent, written in several shapes
    static const char* heads[] = { "1", "9", "0", "0.0", "1.7976931348623157", "1.7976931348623159", "3.4028235", "3.4028236", "1.18973149535723176502", "1.18973149535723176506", "4.9", "2.4703282292062327", "2.4703282292062328", "1.4", "0.7", "7.0064923216240853", "7.0064923216240854", "3.6", "1.8" };
    e.add("exponents", 10401 * (sizeof heads / sizeof *heads) * 2,
          [](uint64_t i) {
              mc::Dec d(i);
              int k = int(d(10401)) - 5200;
              std::string t = d(2) ? "-" : "";
              t += heads[d(sizeof heads / sizeof *heads)];
              check_text(t + "e" + std::to_string(k), false);
          },
          [](uint64_t i) { return "exponent case " + std::to_string(i); });
    static std::vector<unsigned> len;
    for (unsigned n = 0; n <= (th ? 400 : 60); ++n) len.push_back(n);
    for (unsigned c : { 127u, 128u, 256u, 307u, 308u, 323u, 324u, 325u, 766u, 767u, 768u, 769u, 1023u, 1024u, 4932u, 4950u, 4951u, 4966u }) len.push_back(c);
    static std::vector<int> del;
    for (int c : { 0, -37, 38, -45, 308, -308, -323, 4932, -4932, -4951 })
        for (int j = -2; j <= 2; ++j) del.push_back(c + j);
    e.add("shifted", len.size() * del.size() * 4,
          [](uint64_t i) {
              mc::Dec d(i);
              int n = int(len[d(len.size())]), k = del[d(del.size())];
              std::string t;
              switch (d(4)) {
              case 0: t = "0." + std::string(n, '0') + "1e" + std::to_string(k + n + 1); break;                    // 1e k
              case 1: t = "1" + std::string(n, '0') + "e" + std::to_string(k - n); break;                           // 1e k
              case 2: t = "-" + std::string(n + 1, '9') + "." + std::string(n + 1, '9') + "e" + std::to_string(k - n - 1); break; // about 1e k
              default: t = "1" + std::string(n, '0') + "." + std::string(n, '0') + "1E+" + std::string(n % 30, '0') + "1"; break;
              }
              check_text(t, false);
          },
          [](uint64_t i) { return "shifted case " + std::to_string(i); });
    e.add("huge-exponents", 40 * 2 * 2 * 4,
          [](uint64_t i) {
              mc::Dec d(i);
              std::string t = d(2) ? "-" : "";
              const char* h[] = { "0", "1", "0.0", "0.00001" };
              bool neg = d(2);
              unsigned n = d(40) + 1;
              t += h[d(4)];
              check_text(t + (neg ? "e-" : "e") + std::string(n, '9'));
              check_text(t + (neg ? "e-" : "e+") + std::string(n, '0') + "1");
          },
          [](uint64_t i) { return "huge exponent case " + std::to_string(i); });
    static const unsigned Z = th ? 6000 : 1500;
    e.add("long-digits", Z * 4,
          [](uint64_t i) {
              unsigned n = i / 4;
              switch (i % 4) {
              case 0: check_text("0." + std::string(n, '0') + "1", false); break;
              case 1: check_text("1" + std::string(n, '0'), false); break;
              case 2: check_text("-0." + std::string(n + 1, '0'), false); break;
              default: check_text("0." + std::string(n + 1, '3'), false); break;
              }
          },
          [](uint64_t i) { return "long digits case " + std::to_string(i); });
    dm::add_sizes(e, "every-size", dm::ladder(th ? 2000 : 300, th ? 1u << 18 : 1u << 16), [](size_t n) {
        for (std::string t : { "0." + std::string(n, '0') + "25e" + std::to_string(n), "-1" + std::string(n, '0') + ".5", "3.5" + std::string(n, '1'), "12345" + std::string(n, '0') + "e-" + std::to_string(n), "1e" + std::string(n, '0') + "2", "0.1e-" + std::string(n, '0') + "7" }) check_text(t, false);
    });
}
MC_MAIN(setup)
