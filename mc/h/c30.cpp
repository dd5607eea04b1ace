// C30: every operation gives the same bytes under every locale, whenever it is set.
#include "dims.hpp"
#include "fam.hpp"
#include "spaces.hpp"
#include "trees.hpp"
#include <clocale>
#include <cmath>
#include <fstream>
#include <locale>
#include <sstream>
using fam::M;
using json::value;
using ref::Node;
using S = std::string;

// ---- locales ----

struct Punct : std::numpunct<char>
{
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    S do_grouping() const override { return "\1"; }
    S do_truename() const override { return "wahr"; }
    S do_falsename() const override { return "falsch"; }
};
struct Put : std::num_put<char>
{
    template <typename T>
    iter_type any(iter_type o, T) const
    {
        for (char c : S("#NUM#")) *o++ = c;
        return o;
    }
    iter_type do_put(iter_type o, std::ios_base&, char, bool v) const override { return any(o, v); }
    iter_type do_put(iter_type o, std::ios_base&, char, long v) const override { return any(o, v); }
    iter_type do_put(iter_type o, std::ios_base&, char, unsigned long v) const override { return any(o, v); }
    iter_type do_put(iter_type o, std::ios_base&, char, long long v) const override { return any(o, v); }
    iter_type do_put(iter_type o, std::ios_base&, char, unsigned long long v) const override { return any(o, v); }
    iter_type do_put(iter_type o, std::ios_base&, char, double v) const override { return any(o, v); }
    iter_type do_put(iter_type o, std::ios_base&, char, long double v) const override { return any(o, v); }
    iter_type do_put(iter_type o, std::ios_base&, char, const void* v) const override { return any(o, v); }
};
struct Get : std::num_get<char>
{
    iter_type do_get(iter_type b, iter_type, std::ios_base&, std::ios_base::iostate& e, double& v) const override { v = 42; e = std::ios_base::goodbit; return b; }
    iter_type do_get(iter_type b, iter_type, std::ios_base&, std::ios_base::iostate& e, float& v) const override { v = 42; e = std::ios_base::goodbit; return b; }
    iter_type do_get(iter_type b, iter_type, std::ios_base&, std::ios_base::iostate& e, long double& v) const override { v = 42; e = std::ios_base::goodbit; return b; }
    iter_type do_get(iter_type b, iter_type, std::ios_base&, std::ios_base::iostate& e, long& v) const override { v = 42; e = std::ios_base::goodbit; return b; }
    iter_type do_get(iter_type b, iter_type, std::ios_base&, std::ios_base::iostate& e, unsigned long& v) const override { v = 42; e = std::ios_base::goodbit; return b; }
};
// Every character is of every class, and changing case swaps characters.
struct Types : std::ctype<char>
{
    static const mask* table()
    {
        static mask t[256];
        for (auto& m : t) m = space | digit | alpha | upper | lower | xdigit;
        return t;
    }
    Types() : std::ctype<char>(table()) {}
    char do_toupper(char c) const override { return char(c ^ 1); }
    char do_tolower(char c) const override { return char(c ^ 1); }
};
struct Conv : std::codecvt<char, char, std::mbstate_t>
{
    bool do_always_noconv() const noexcept override { return false; }
    int do_encoding() const noexcept override { return 1; }
    result do_in(state_type&, const char* f, const char* fe, const char*& fn, char* t, char* te, char*& tn) const override
    {
        while (f < fe && t < te) *t++ = *f == '1' ? '2' : *f, ++f;
        fn = f;
        tn = t;
        return f < fe ? partial : ok;
    }
    result do_out(state_type&, const char* f, const char* fe, const char*& fn, char* t, char* te, char*& tn) const override
    {
        while (f < fe && t < te) *t++ = *f == '1' ? '3' : *f, ++f;
        fn = f;
        tn = t;
        return f < fe ? partial : ok;
    }
};

struct Loc
{
    S name;
    std::function<bool()> set;
};
static std::vector<Loc> g_locs;

static void locales(bool th)
{
    const S dir = mc::g_scratch + "/locales";
    mkdir(dir.c_str(), 0755);
    setenv("LOCPATH", dir.c_str(), 1);
    struct N
    {
        const char *src, *map;
    };
    std::vector<N> ns = { { "de_DE", "UTF-8" }, { "fr_FR", "UTF-8" }, { "ps_AF", "UTF-8" }, { "tr_TR", "ISO-8859-9" }, { "hi_IN", "UTF-8" }, { "de_CH", "ISO-8859-1" }, { "ru_RU", "KOI8-R" }, { "zh_CN", "GB18030" } };
    if (th)
        for (N n : { N { "fa_IR", "UTF-8" }, N { "ar_EG", "UTF-8" }, N { "en_US", "UTF-8" }, N { "pt_BR", "ISO-8859-1" }, N { "ja_JP", "EUC-JP" }, N { "th_TH", "TIS-620" }, N { "el_GR", "ISO-8859-7" }, N { "bg_BG", "CP1251" }, N { "az_AZ", "UTF-8" }, N { "sv_SE", "UTF-8" } }) ns.push_back(n);
    std::vector<pid_t> kids;
    for (auto& n : ns) {
        S cmd = "localedef -c -i " + S(n.src) + " -f " + n.map + " '" + dir + "/" + n.src + "." + n.map + "' >/dev/null 2>&1";
        pid_t p = fork();
        if (!p) _exit(system(cmd.c_str()) ? 1 : 0);
        kids.push_back(p);
    }
    for (auto p : kids) waitpid(p, nullptr, 0);
    for (auto& n : ns) {
        const S name = S(n.src) + "." + n.map;
        if (access((dir + "/" + name + "/LC_NUMERIC").c_str(), R_OK)) continue;
        g_locs.push_back({ "setlocale(" + name + ")", [name] { return setlocale(LC_ALL, name.c_str()) != nullptr; } });
        g_locs.push_back({ "locale::global(" + name + ")", [name] {
                              try {
                                  std::locale::global(std::locale(name));
                                  return true;
                              }
                              catch (const std::runtime_error&) {
                                  return false;
                              }
                          } });
        g_locs.push_back({ "uselocale(" + name + ")", [name] {
                              auto l = newlocale(LC_ALL_MASK, name.c_str(), nullptr);
                              return l && uselocale(l);
                          } });
    }
    auto custom = [](const char* name, auto make) {
        g_locs.push_back({ name, [make] { std::locale::global(make()); return true; } });
    };
    custom("global numpunct", [] { return std::locale(std::locale::classic(), new Punct); });
    custom("global num_put", [] { return std::locale(std::locale::classic(), new Put); });
    custom("global num_get", [] { return std::locale(std::locale::classic(), new Get); });
    custom("global ctype", [] { return std::locale(std::locale::classic(), new Types); });
    custom("global codecvt", [] { return std::locale(std::locale::classic(), new Conv); });
    custom("everything", [] { return std::locale(std::locale(std::locale(std::locale(std::locale(std::locale::classic(), new Punct), new Put), new Get), new Types), new Conv); });
}

// ---- operations ----

enum class Color
{
    red,
    I_i = 1,
    ZEBRA = 2,
};
struct Rec
{
    double d = 0;
    int i = 0;
    std::vector<float> f;
    Color c = Color::red;
    MEO_JSONIZATION(d, i, f, MEO_OPT c);
};
struct Log
{
    S s;
    template <typename T>
    void bits(T t)
    {
        unsigned char b[sizeof(T)] = {};
        memcpy(b, &t, std::is_same_v<T, long double> ? 10 : sizeof(T));
        s.append(reinterpret_cast<char*>(b), sizeof b);
        s += '|';
    }
    void text(std::string_view t) { s.append(t).append("|"); }
    template <typename F>
    void run(F&& f)
    {
        try {
            f();
        }
        catch (const std::exception&) {
            s += "!|";
        }
        mc::step();
    }
};
static void convert(Log& l, const value& v)
{
    l.run([&] { l.bits(v.as_integer()); });
    l.run([&] { l.bits(v.as_unsigned_long_long()); });
    l.run([&] { l.bits(v.as_long()); });
    l.run([&] { l.bits(v.as_float()); });
    l.run([&] { l.bits(v.as_double()); });
    l.run([&] { l.bits(v.as_long_double()); });
    l.run([&] { l.bits(v.as<double>()); });
    l.run([&] { l.bits(static_cast<float>(v)); });
    l.bits(v.is<int>());
    l.bits(v.is<unsigned long>());
    l.bits(v.is<float>());
    l.bits(v.is<double>());
    l.bits(v.is<long double>());
}
static void show(Log& l, const value& v)
{
    l.run([&] { l.text(v.to_string()); });
    l.run([&] { l.text(v.format()); });
    l.run([&] { l.text(v.dumps(2)); });
    l.run([&] {
        std::ostringstream o;
        o << v;
        if (v.is_array()) o << v.as_array();
        if (v.is_object()) o << v.as_object();
        l.text(o.str());
    });
    l.run([&] {
        std::ostringstream o;
        o.imbue(std::locale(std::locale::classic(), new Punct));
        o << std::hex << std::showpos << std::boolalpha << v << v;
        l.text(o.str());
    });
    l.run([&] { l.text(v.value_info()); });
}
template <typename T>
static void number(Log& l, T t)
{
    l.run([&] {
        value v = t;
        show(l, v);
        convert(l, v);
    });
    l.run([&] {
        value v;
        v = t;
        l.text(v.to_string());
        json::array a { t, 1 };
        a.emplace_back(t);
        json::object o { { "k", t } };
        o.emplace("l", t);
        o["m"] = t;
        l.text(a.to_string());
        l.text(o.format());
    });
    l.run([&] {
        l.text(value(std::vector<T> { t, t }).to_string());
        l.text(value(std::map<S, T> { { "k", t } }).to_string());
        l.text(value(std::make_tuple(t, 1.5)).to_string());
        l.text(value(std::optional<T>(t)).to_string());
        l.text(value(std::variant<S, T>(t)).to_string());
        l.bits(value(std::list<T> { t }).template as<std::vector<double>>()[0]);
        l.bits(json::value(json::object { { "k", t } }).get("k", 7.25));
        l.bits(json::value(json::array { t }).get(0, 7));
    });
    if constexpr (std::is_same_v<T, double>)
        l.run([&] {
            Rec r { t, int(123456), { float(t), 1234567.f }, Color::ZEBRA };
            value v = r;
            show(l, v);
            Rec q = v.as<Rec>();
            l.bits(q.d);
            l.bits(q.f[0]);
        });
}

// The inputs, by index.
static std::vector<double> g_d;
static std::vector<long long> g_i;
static std::vector<S> g_num, g_doc;
static S g_file;

static size_t inputs() { return g_d.size() + g_i.size() + g_num.size() + g_doc.size(); }
static S name(size_t i)
{
    char b[64];
    if (i < g_d.size()) {
        snprintf(b, sizeof b, "number %a", g_d[i]);
        return b;
    }
    if ((i -= g_d.size()) < g_i.size()) return "integer " + std::to_string(g_i[i]);
    if ((i -= g_i.size()) < g_num.size()) return "number text " + mc::show(g_num[i]);
    return "text " + mc::show(g_doc[i - g_num.size()]);
}
static S transcript(size_t i)
{
    Log l;
    if (i < g_d.size()) {
        number(l, g_d[i]);
        number(l, float(g_d[i]));
        number(l, (long double)g_d[i]);
        return l.s;
    }
    if ((i -= g_d.size()) < g_i.size()) {
        number(l, g_i[i]);
        number(l, (unsigned long long)g_i[i]);
        number(l, int(g_i[i]));
        number(l, unsigned(g_i[i]));
        number(l, bool(g_i[i] & 1));
        return l.s;
    }
    if ((i -= g_i.size()) < g_num.size()) {
        const S& t = g_num[i];
        l.run([&] { convert(l, value(value::value_type::number, t)); });
        auto p = json::parse("[" + t + "]");
        l.bits(bool(p));
        if (p) {
            l.text(p->to_string());
            if (!p->as_array().empty()) convert(l, p->at(0));
        }
        l.run([&] { l.bits(int(value(t).as<Color>())); });
        return l.s;
    }
    const S& t = g_doc[i - g_num.size()];
    for (bool c : { false, true }) {
        auto p = c ? json::parsec(t) : json::parse(t);
        l.bits(bool(p));
        if (p) show(l, *p);
        l.run([&] {
            std::istringstream s(t);
            auto q = json::parse(s, false, c);
            l.text(q ? q->to_string() : "-");
        });
        {
            FILE* f = fopen(g_file.c_str(), "wb");
            fwrite(t.data(), 1, t.size(), f);
            fclose(f);
        }
        l.run([&] {
            auto q = json::open(g_file, true, c);
            l.text(q ? q->to_string() : "-");
        });
        l.run([&] {
            if (p && p->is_object()) {
                for (auto& [k, x] : p->as_object()) {
                    l.text(k);
                    convert(l, x);
                }
                l.bits(p->is<Rec>());
                l.bits(p->as<Rec>().d);
            }
        });
        l.run([&] {
            if (p && p->is_array()) l.text(value(p->as<std::vector<double>>()).to_string());
        });
    }
    return l.s;
}

// ---- exploration: every run in a process of its own, so that the first use of the library is under the locale ----

struct Box
{
    uint64_t h[4096];
    int status; // 1: compared, 2: the locale cannot be set
    size_t bad;
    char what[64];
    char text[3000];
};
static Box* g_box;

template <typename F>
static void in_child(F&& f)
{
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) mc::fail("fork failed");
    if (p == 0) {
        f();
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (st) mc::fail("a run died with status " + std::to_string(st));
}
static void put(size_t i, const char* when)
{
    g_box->bad = i;
    snprintf(g_box->what, sizeof g_box->what, "%s", when);
    S t = mc::show(transcript(i), 2000);
    snprintf(g_box->text, sizeof g_box->text, "%s", t.c_str());
}
static void explore(const Loc& loc, size_t from, size_t to)
{
    if (!g_box) g_box = static_cast<Box*>(mmap(nullptr, sizeof(Box), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    g_file = mc::g_scratch + "/f" + std::to_string(getpid());
    static size_t have_from = size_t(-1), have_to = 0;
    if (have_from != from || have_to != to) {
        in_child([&] {
            for (size_t i = from; i < to; ++i) g_box->h[i - from] = mc::hash(transcript(i));
        });
        have_from = from;
        have_to = to;
    }
    g_box->status = 0;
    g_box->bad = size_t(-1);
    in_child([&] {
        if (!loc.set()) {
            g_box->status = 2;
            return;
        }
        g_box->status = 1;
        for (size_t i = from; i < to; ++i) {
            S t = transcript(i);
            mc::state(t, 30);
            if (mc::hash(t) != g_box->h[i - from]) return put(i, "under the locale");
        }
        // values and any cached state from before stay good when the locale goes back
        setlocale(LC_ALL, "C");
        uselocale(LC_GLOBAL_LOCALE);
        std::locale::global(std::locale::classic());
        for (size_t i = from; i < to; i += 7)
            if (mc::hash(transcript(i)) != g_box->h[i - from]) return put(i, "back in the classic locale");
    });
    if (g_box->status == 2) {
        g_box->status = 0;
        mc::fail("the locale cannot be set");
    }
    if (g_box->bad != size_t(-1)) {
        S got = g_box->text, when = g_box->what;
        size_t i = g_box->bad;
        in_child([&] { put(i, "classic"); });
        mc::fail(name(i) + " " + when + ": " + got + "\n  classic locale: " + g_box->text);
    }
    mc::validated(to - from);
    mc::outcome(mc::hash(loc.name, from));
    unlink(g_file.c_str());
}

static void setup(mc::Engine& e)
{
    const bool th = mc::thorough();
    locales(th);
    // no use of the library in here
    for (int ex : { -1074, -1050, -1022, -300, -60, -24, -23, -10, -4, -3, -2, -1, 0, 1, 2, 3, 4, 7, 10, 13, 17, 20, 23, 24, 30, 31, 32, 40, 52, 53, 60, 63, 64, 100, 127, 128, 300, 900, 1023 })
        for (double m : { 1.0, 1.5, 1.25, 1.9999999999999998, 1.1, 1.7320508075688772 })
            for (int s : { 1, -1 }) g_d.push_back(s * std::ldexp(m, ex));
    for (double x : { 0.0, -0.0, 0.1, 1234.5, 1234567.891, 999999.9999995, 0.0000005, 12345678901234567890.0, 1e6, 1e15, 1e16, 1e17, 123456.7 }) g_d.push_back(x);
    for (int k = 0; k < 63; ++k)
        for (int d : { -1, 0, 1 }) {
            g_i.push_back((1ll << k) + d);
            g_i.push_back(-((1ll << k) + d));
        }
    for (long long p = 1; p < 1000000000000000000ll; p *= 10)
        for (int d : { -1, 0, 1, 233 }) g_i.push_back(p + d), g_i.push_back(-p - d);
    const S al = "01.,-e\xa0'+";
    for (unsigned len = 0; len <= (th ? 6u : 4u); ++len)
        for (uint64_t i = 0; i < mc::ipow(al.size(), len); ++i) {
            mc::Dec d(i);
            S s;
            for (unsigned k = 0; k < len; ++k) s += al[d(al.size())];
            g_num.push_back(s);
        }
    for (const char* s : { "1234.5", "1234,5", "1.234,5", "1,234.5", "1'234.5", "1234567.891", "1e3", "1,5e3", "1\xd9\xab" "5", "1\xc2\xa0" "234", "1\xe2\x80\xaf" "234", "\xd9\xa1\xd9\xa2", "0x1p3", "0x1.8p3", "nan", "inf", "infinity", "1e400", "1e-400", "4.9e-324", "1e-320", "3.5e38", "1e-45", "RED",
                           "i_I", "I_I", "\xc4\xb1_I", "\xc4\xb0_i", "\xfd_I", "zebra", "Zebra\xa0", "1.5", "1,5", "true" })
        g_num.push_back(s);
    for (unsigned c = 0; c < 256; ++c)
        for (const char* f : { "[1?2]", "[?1]", "[1.?5]", "[1e?5]", "[\"?\"]", "[\"\\?\"]", "[\"\\u00?1\"]", "?[1]", "[1]?", "{\"a?\":1}", "{?\"a\":1}", "[tru?]", "[-?]", "[0?]" }) {
            S s = f;
            s.replace(s.find('?'), 1, 1, char(c));
            g_doc.push_back(s);
        }
    for (auto& n : tr::flat(tr::trees(th ? 4 : 3, { ref::boolean(true), ref::num("1234567.25"), ref::num("-1"), ref::str("1.234,5") }, { "1.5", "a" }))) g_doc.push_back(ref::format(n));
    for (const char* s : { "{\"d\":1234.5,\"i\":-1234567,\"f\":[1.5,1234567.125,1e-40]}", "{\"d\":1e-320,\"i\":7,\"f\":[],\"c\":\"zebra\"}", "{\"d\":1,\"i\":7,\"f\":[],\"c\":\"I_I\"}", "// c\n[1 /* 1,5 */ ,2.5]", "[\"\xe4\xb8\xad\xe6\x96\x87\", \"\xb0\xa1\", 1.5]", "[\"\\u4e2d\\u20ac\\ud83d\\ude00\"]" }) g_doc.push_back(s);
    // of every size
    for (size_t n : dm::ladder(th ? 200 : 50, th ? 16384 : 2048)) {
        g_num.push_back(dm::digits(n + 1, 1));
        g_num.push_back("-0." + dm::digits(n + 1, 2));
        g_num.push_back(dm::digits(n + 1, 3) + ".5e-" + std::to_string(n));
        g_num.push_back("1" + S(n, '0') + "," + "5");
        g_doc.push_back("[\"" + S(n, 'x') + "\\u00e9\xe4\xb8\xad\xff\",1.5]");
        g_doc.push_back("{\"" + S(n, 'I') + "\":" + dm::digits(n + 1, 4) + "." + dm::digits(n + 1, 5) + "}");
        Node a = ref::arr();
        for (size_t i = 0; i < n; ++i) a.a.push_back(ref::num(std::to_string(i * 1237) + ".25"));
        g_doc.push_back(ref::format(a));
    }
    const size_t step = 512, chunks = (inputs() + step - 1) / step;
    e.add("locales", chunks * g_locs.size(), [step](uint64_t i) {
        size_t from = i / g_locs.size() * step;
        explore(g_locs[i % g_locs.size()], from, std::min(inputs(), from + step));
    }, [step](uint64_t i) { return g_locs[i % g_locs.size()].name + ", inputs from " + std::to_string(i / g_locs.size() * step); }, g_locs.size() > 8 ? g_locs.size() / 2 : 1, 60);
    S all;
    for (auto& l : g_locs) all += l.name + "; ";
    e.notes.push_back(std::to_string(inputs()) + " inputs under: " + all);
    if (g_locs.size() < 10) e.notes.push_back("localedef could not build the named locales; only facets were explored");
}
MC_MAIN(setup)
