// C32: work grows in proportion to size, for every pumped text, edit history, shape and conversion.
#include "cost.hpp"
#include "dims.hpp"
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
using cost::Cost;
using cost::grows;
using json::array;
using json::object;
using json::value;
using S = std::string;

static S num(size_t i, int width = 6)
{
    char b[32];
    snprintf(b, sizeof b, "%0*zu", width, i);
    return b;
}

// ---- pumped texts ----

struct Token
{
    S text;
    bool numbered; // '#' stands for a number of its own
};
static const std::vector<Token>& tokens()
{
    static const std::vector<Token> t = {
        { "[", false }, { "]", false }, { "{", false }, { "}", false }, { ",", false }, { ":", false }, { " ", false }, { "\n", false }, { "\"", false },
        { "a", false }, { "\\", false }, { "\\n", false }, { "\\u00e9", false }, { "\\ud83d\\ude00", false }, { "\xc3\xa9", false },
        { "1", false }, { "0", false }, { "-", false }, { ".", false }, { "e", false }, { "true", false }, { "null", false }, { "/", false }, { "*", false },
        { "//", false }, { "/*", false }, { "*/", false }, { "\"\"", false }, { "\"#\":", true }, { "\"#\":0", true }, { "\"k\":", false }, { S(1, '\0'), false },
    };
    return t;
}
struct Word
{
    std::vector<int> t;
    void put(S& out, size_t i, bool down = false) const
    {
        for (int k : t) {
            auto& x = tokens()[size_t(k)];
            if (x.numbered) {
                S s = x.text;
                s.replace(s.find('#'), 1, num(down ? 900000 - i : i));
                out += s;
            }
            else out += x.text;
        }
    }
    S show() const
    {
        S s;
        for (int k : t) s += tokens()[size_t(k)].text;
        return mc::show(s);
    }
};
static Word word(uint64_t i) // all words, short ones first; 0 is the empty one
{
    const uint64_t n = tokens().size();
    unsigned len = 0;
    for (uint64_t c = 1; i >= c; c *= n) i -= c, ++len;
    Word w;
    for (unsigned k = 0; k < len; ++k) w.t.push_back(int(i % n)), i /= n;
    return w;
}
static uint64_t words(unsigned len)
{
    uint64_t c = 0;
    for (unsigned k = 0; k <= len; ++k) c += mc::ipow(tokens().size(), k);
    return c;
}
struct Frame
{
    S open, mid, unclose, close;
};
struct Pump
{
    S open;
    Word u;
    S mid, v, close;
    S text(size_t n, bool down = false) const
    {
        S s = open;
        for (size_t i = 0; i < n; ++i) u.put(s, i, down);
        s += mid;
        for (size_t i = 0; i < n; ++i) s += v;
        return s + close;
    }
    S show() const { return mc::show(open) + " (" + u.show() + ")^n " + mc::show(mid) + " (" + mc::show(v) + ")^n " + mc::show(close); }
};

// What is done to an accepted document.
struct Uses
{
    std::vector<Cost> c;
    size_t compact = 0, pretty = 0;
};
static Uses uses(value& v)
{
    Uses u;
    S t;
    u.c.push_back(cost::of([&] { t = v.to_string(); }));
    u.compact = t.size();
    u.c.push_back(cost::of([&] { t = v.dumps(); }));
    u.c.push_back(cost::of([&] { t = v.format(0); }));
    u.pretty = t.size();
    u.c.push_back(cost::of([&] { t = v.format(1); }));
    u.pretty = std::max(u.pretty, t.size());
    std::optional<value> copy;
    u.c.push_back(cost::of([&] { copy.emplace(v); }));
    u.c.push_back(cost::of([&] { if (!(*copy == v)) mc::fail("a copy differs"); }));
    u.c.push_back(cost::of([&] { if (v != *copy) mc::fail("a copy differs"); }));
    u.c.push_back(cost::of([&] { value w; w = *copy; w.clear(); }));
    u.c.push_back(cost::of([&] { copy.reset(); }));
    u.c.push_back(cost::of([&] {
        value w(std::move(v));
        v = std::move(w);
    }));
    return u;
}
static const char* const use_names[] = { "to_string", "dumps", "format(0)", "format(1)", "copy", "==", "!=", "assign and clear", "destroy", "move there and back" };

static void check_uses(const Uses& a, const Uses& b, double ratio, const S& what)
{
    for (size_t i = 0; i < a.c.size(); ++i) {
        double r = ratio;
        if (i == 9) r = 1;
        else if (i < 2) r = std::max(r, double(b.compact) / double(std::max<size_t>(a.compact, 1)));
        else if (i < 4) r = std::max(r, double(b.pretty) / double(std::max<size_t>(a.pretty, 1)));
        grows(a.c[i], b.c[i], r, what + use_names[i]);
    }
}

template <typename Parse>
static bool pump(const Parse& parse, const S& a, const S& b, const S& what, bool deep_uses = true)
{
    const double ratio = double(b.size()) / double(a.size());
    std::optional<value> v[2];
    Cost p[2], d[2];
    Uses u[2];
    const S* t[2] = { &a, &b };
    for (int i = 0; i < 2; ++i) {
        p[i] = cost::of([&] { v[i] = parse(*t[i]); });
        if (v[i] && deep_uses) u[i] = uses(*v[i]);
    }
    const bool ok = bool(v[0]);
    if (ok != bool(v[1])) mc::fail(what + ": accepted at one size only");
    for (int i = 0; i < 2; ++i) d[i] = cost::of([&] { v[i].reset(); });
    grows(p[0], p[1], ratio, what + ": parse");
    grows(d[0], d[1], ratio, what + ": destroy");
    if (ok && deep_uses) check_uses(u[0], u[1], ratio, what + ": ");
    mc::validated();
    return ok;
}

static std::optional<value> strict(const S& t) { return json::parse(t); }
static std::optional<value> lenient(const S& t) { return json::parsec(t); }
static std::optional<value> from_stream(const S& t)
{
    std::istringstream in(t);
    return json::parse(in, true, true);
}
// A source of one byte at a time that cannot be rewound.
struct Drip : std::streambuf
{
    const S& t;
    size_t at = 0;
    char c = 0;
    explicit Drip(const S& s) : t(s) {}
    int_type underflow() override
    {
        if (at == t.size()) return traits_type::eof();
        c = t[at++];
        setg(&c, &c, &c + 1);
        return traits_type::to_int_type(c);
    }
};
static std::optional<value> from_drip(const S& t)
{
    Drip d(t);
    std::istream in(&d);
    return json::parse(in, false, true);
}
static std::optional<value> from_chars(const S& t)
{
    return json::parsec(std::vector<char>(t.begin(), t.end()));
}
static std::optional<value> from_cstr(const S& t) { return json::parsec(t.c_str()); }
static std::optional<value> from_view(const S& t) { return json::parse(std::string_view(t)); }
static std::optional<value> from_deque(const S& t) { return json::parsec(std::deque<char>(t.begin(), t.end())); }
struct Source
{
    const char* name;
    std::optional<value> (*parse)(const S&);
};
static const Source sources[] = { { "parse", strict }, { "parsec", lenient }, { "stream", from_stream }, { "unseekable stream", from_drip },
                                  { "vector<char>", from_chars }, { "char*", from_cstr }, { "string_view", from_view }, { "deque<char>", from_deque } };

static const std::vector<S> opens = { "", "[", "{", "[\"", "{\"", "[1", "[/*", "[//", "[-0.", "{\"a\":[" };
struct Tail
{
    S mid, v, close;
};
static const std::vector<Tail> tails = {
    { "", "", "" }, { "", "", "]" }, { "", "", "}" }, { "", "", "\"]" }, { "", "", "\":0}" }, { "0", "", "]" }, { "0", "", "}" }, { "", "", "*/0]" }, { "", "", "\n0]" }, { "", "", "]}" },
    { "", "]", "" }, { "", "}", "" }, { "0", "]", "" }, { "0", "}", "" }, { "0", "]", "]" }, { "0", "}", "]" }, { "0", "}]", "" }, { "0", "]}", "" }, { "0", "]}", "]" }, { "", " ]", "]" },
    { "0", ",0]", "]" }, { "0", ",\"z\":0}", "]" }, { "0", ",]", "" }, { "0", ",}", "" }, { "0", "\n", "" }, { "\"", "]", "" }, { "\n\"", "]", "]" },
};

// ---- edit histories ----

struct World
{
    value v;
    array a;
    object o;
    array a2;
    object o2;
    S s;
};
struct Op
{
    S name;
    std::function<void(World&, size_t)> run;
};
static S key(size_t i) { return "k" + num(i); }
static const std::vector<Op>& array_ops()
{
    static const std::vector<Op> r = {
        { "push_back(i)", [](World& w, size_t i) { w.a.push_back(int(i)); } },
        { "push_back(copy)", [](World& w, size_t) { const value x("t"); w.a.push_back(x); } },
        { "emplace_back(string)", [](World& w, size_t) { w.a.emplace_back("some text that is long enough to be kept apart"); } },
        { "emplace_back()", [](World& w, size_t) { w.a.emplace_back(); } },
        { "emplace_back(array)", [](World& w, size_t) { w.a.emplace_back(array { 1 }); } },
        { "+= {i}", [](World& w, size_t i) { w.a += array { int(i) }; } },
        { "+= lvalue", [](World& w, size_t) { const array x { "x", nullptr }; w.a += x; } },
        { "+= {}", [](World& w, size_t) { w.a += array(); } },
        { "+= empty lvalue", [](World& w, size_t) { const array x; w.a += x; } },
        { "= move + {i}", [](World& w, size_t i) { w.a = std::move(w.a) + array { int(i) }; } },
        { "= move + lvalue", [](World& w, size_t) { const array x { true }; w.a = std::move(w.a) + x; } },
        { "erase last", [](World& w, size_t) { if (w.a.size()) w.a.erase(w.a.size() - 1); } },
        { "erase last iter", [](World& w, size_t) { if (w.a.size()) w.a.erase(w.a.end() - 1); } },
        { "erase out of range", [](World& w, size_t) { w.a.erase(w.a.size()); } },
        { "erase end", [](World& w, size_t) { w.a.erase(w.a.end()); } },
        { "clear", [](World& w, size_t) { w.a.clear(); } },
        { "[0] =", [](World& w, size_t i) { if (w.a.size()) w.a[0] = int(i); } },
        { "[mid] =", [](World& w, size_t) { if (w.a.size()) w.a[w.a.size() / 2] = "m"; } },
        { "[last].emplace", [](World& w, size_t i) { if (w.a.size() && w.a[w.a.size() - 1].empty()) w.a[w.a.size() - 1].emplace(int(i)); } },
        { "at", [](World& w, size_t i) { if (w.a.size()) (void)std::as_const(w.a).at(i % w.a.size()); } },
        { "get", [](World& w, size_t i) { (void)w.a.get(i, 0); } },
        { "find", [](World& w, size_t i) { (void)w.a.find<int>(i); (void)w.a.find_value(w.a.size()); } },
        { "contains", [](World& w, size_t i) { (void)(w.a.contains(i) || w.a.exists(i + 1)); } },
        { "swap through a temporary", [](World& w, size_t) { array t = std::move(w.a); w.a = std::move(t); } },
        { "there and back as a value", [](World& w, size_t) { value t = std::move(w.a); w.a = std::move(t.as_array()); } },
        { "begin/end/size", [](World& w, size_t) { (void)(w.a.begin() != w.a.end() || w.a.rbegin() != w.a.rend() || w.a.size() || w.a.empty()); } },
        { "wrap", [](World& w, size_t) { array t; t.push_back(std::move(w.a)); w.a = std::move(t); } },
        { "wrap behind", [](World& w, size_t) { array t { 1 }; t.emplace_back(std::move(w.a)); w.a = std::move(t); } },
        { "append to the second", [](World& w, size_t i) { w.a2 += array { int(i) }; } },
        { "append and take over the second", [](World& w, size_t) { w.a += std::move(w.a2); w.a2 = array(); } },
    };
    return r;
}
static const std::vector<Op>& object_ops()
{
    static const std::vector<Op> r = {
        { "emplace up", [](World& w, size_t i) { w.o.emplace(key(i), int(i)); } },
        { "emplace down", [](World& w, size_t i) { w.o.emplace(key(99999 - i), "t"); } },
        { "emplace same", [](World& w, size_t i) { w.o.emplace("same", int(i)); } },
        { "emplace array", [](World& w, size_t i) { w.o.emplace(key(7 * i % 65537), array { 1 }); } },
        { "insert up", [](World& w, size_t i) { w.o.insert(key(i), value("x")); } },
        { "[new] =", [](World& w, size_t i) { w.o["n" + num(i)] = 1; } },
        { "[new lvalue] =", [](World& w, size_t i) { const S k = "m" + num(99999 - i); w.o[k] = "v"; } },
        { "[same].emplace", [](World& w, size_t i) { if (w.o["arr"].empty() || w.o["arr"].is_array()) w.o["arr"].emplace(int(i)); } },
        { "[same][new] =", [](World& w, size_t i) { w.o["obj"][key(i)] = 1; } },
        { "|= {i}", [](World& w, size_t i) { w.o |= object { { key(i), int(i) } }; } },
        { "|= lvalue", [](World& w, size_t i) { const object x { { "l" + num(99999 - i), 1 }, { "same", nullptr } }; w.o |= x; } },
        { "|= {}", [](World& w, size_t) { w.o |= object(); } },
        { "|= empty lvalue", [](World& w, size_t) { const object x; w.o |= x; } },
        { "= move | {i}", [](World& w, size_t i) { w.o = std::move(w.o) | object { { key(i), 2 } }; } },
        { "= move | lvalue", [](World& w, size_t i) { const object x { { key(i), 2 } }; w.o = std::move(w.o) | x; } },
        { "erase own", [](World& w, size_t i) { w.o.erase(key(i)); } },
        { "erase previous", [](World& w, size_t i) { w.o.erase(key(i - 1)); } },
        { "erase first", [](World& w, size_t) { if (w.o.size()) w.o.erase(w.o.begin()); } },
        { "erase last", [](World& w, size_t) { if (w.o.size()) w.o.erase(std::prev(w.o.end())); } },
        { "erase missing", [](World& w, size_t) { w.o.erase("none"); w.o.erase(w.o.end()); } },
        { "clear", [](World& w, size_t) { w.o.clear(); } },
        { "at", [](World& w, size_t i) { if (w.o.contains(key(i))) (void)w.o.at(key(i)); } },
        { "get", [](World& w, size_t i) { (void)w.o.get(key(i / 2), 0); } },
        { "find", [](World& w, size_t i) { (void)w.o.find<int>(key(i)); (void)w.o.find_value("zz"); } },
        { "exists", [](World& w, size_t i) { (void)(w.o.exists(key(i)) || w.o.contains("none")); } },
        { "swap through a temporary", [](World& w, size_t) { object t = std::move(w.o); w.o = std::move(t); } },
        { "there and back as a value", [](World& w, size_t) { value t = std::move(w.o); w.o = std::move(t.as_object()); } },
        { "begin/end/size", [](World& w, size_t) { (void)(w.o.begin() != w.o.end() || w.o.size() || w.o.empty()); } },
        { "wrap", [](World& w, size_t) { object t; t.emplace("w", std::move(w.o)); w.o = std::move(t); } },
        { "wrap beside", [](World& w, size_t) { object t { { "a", 1 } }; t["b"] = std::move(w.o); w.o = std::move(t); } },
        { "collect in the second", [](World& w, size_t i) { w.o2 |= object { { "s" + num(i), 1 } }; } },
        { "take over the second", [](World& w, size_t) { w.o |= std::move(w.o2); w.o2 = object(); } },
    };
    return r;
}
static const std::vector<Op>& value_ops()
{
    static const std::vector<Op> r = {
        { "emplace(i)", [](World& w, size_t i) { w.v.emplace(int(i)); } },
        { "emplace(string)", [](World& w, size_t) { w.v.emplace("some text that is long enough to be kept apart"); } },
        { "emplace(key, i)", [](World& w, size_t i) { w.v.emplace(key(i), int(i)); } },
        { "emplace(same, i)", [](World& w, size_t i) { w.v.emplace("same", int(i)); } },
        { "[key] =", [](World& w, size_t i) { w.v["n" + num(99999 - i)] = 1; } },
        { "[same].emplace", [](World& w, size_t i) { w.v["arr"].emplace(int(i)); } },
        { "[same][key] =", [](World& w, size_t i) { w.v["obj"][key(i)] = 1; } },
        { "[0].emplace", [](World& w, size_t i) { if (w.v.is_array() && w.v.contains(size_t(0))) w.v[0].emplace(int(i)); } },
        { "+= {i}", [](World& w, size_t i) { w.v += array { int(i) }; } },
        { "+= lvalue", [](World& w, size_t) { const array x { "x" }; w.v += x; } },
        { "= move + {i}", [](World& w, size_t i) { w.v = std::move(w.v) + array { int(i) }; } },
        { "= move + lvalue", [](World& w, size_t) { const array x { nullptr }; w.v = std::move(w.v) + x; } },
        { "|= {i}", [](World& w, size_t i) { w.v |= object { { key(i), int(i) } }; } },
        { "|= lvalue", [](World& w, size_t i) { const object x { { key(i), "x" } }; w.v |= x; } },
        { "= move | {i}", [](World& w, size_t i) { w.v = std::move(w.v) | object { { key(i), 2 } }; } },
        { "= move | lvalue", [](World& w, size_t i) { const object x { { key(i), 2 } }; w.v = std::move(w.v) | x; } },
        { "erase last", [](World& w, size_t) { auto& a = w.v.as_array(); if (a.size()) w.v.erase(a.size() - 1); } },
        { "erase own", [](World& w, size_t i) { w.v.erase(key(i)); } },
        { "erase missing", [](World& w, size_t) { if (w.v.is_object()) w.v.erase("none"); else w.v.erase(size_t(-1)); } },
        { "clear", [](World& w, size_t) { w.v.clear(); } },
        { "as_array().push_back", [](World& w, size_t i) { w.v.as_array().push_back(int(i)); } },
        { "as_object()[key] =", [](World& w, size_t i) { w.v.as_object()[key(i)] = "z"; } },
        { "get", [](World& w, size_t i) { (void)w.v.get(i, 0); (void)w.v.get(key(i), 0); } },
        { "get path", [](World& w, size_t i) { (void)w.v.get("obj", key(i), "s"); (void)w.v.get("arr", i, 1); } },
        { "find", [](World& w, size_t i) { (void)w.v.find<int>(i); (void)w.v.find<S>(key(i)); } },
        { "contains", [](World& w, size_t i) { (void)(w.v.contains(i) || w.v.contains(key(i)) || w.v.exists("none")); } },
        { "is / type", [](World& w, size_t) { (void)(w.v.is<int>() || w.v.is<S>() || w.v.is_array() || w.v.empty() || w.v.valid() || w.v.type() == value::value_type::null); (void)w.v.value_info(); } },
        { "refused reads", [](World& w, size_t) {
             try { (void)w.v.as_integer(); } catch (const std::exception&) {}
             try { (void)w.v.at("none"); } catch (const std::exception&) {}
             try { (void)w.v.at(size_t(-1)); } catch (const std::exception&) {}
             try { (void)w.v.as_string_view(); } catch (const std::exception&) {}
         } },
        { "swap through a temporary", [](World& w, size_t) { value t = std::move(w.v); w.v = std::move(t); } },
        { "wrap in an array", [](World& w, size_t) { array t; t.push_back(std::move(w.v)); w.v = std::move(t); } },
        { "wrap in an object", [](World& w, size_t) { object t; t.emplace("w", std::move(w.v)); w.v = std::move(t); } },
        { "wrap through a value", [](World& w, size_t) { value t; t["a"] = 1; t["b"] = std::move(w.v); w.v = std::move(t); } },
        { "= literal", [](World& w, size_t) { w.v = 1; } },
        { "== literal", [](World& w, size_t) { (void)(w.v == value(1) || w.v != value("a") || w.v == value(array()) || w.v == value(object())); } },
    };
    return r;
}
static Cost play(const std::vector<const Op*>& h, size_t n)
{
    Cost c {};
    {
        std::optional<World> w;
        w.emplace();
        c = cost::of([&] {
            for (size_t i = 0; i < n; ++i)
                for (auto x : h) {
                    try {
                        x->run(*w, i);
                    }
                    catch (const std::exception&) {
                    }
                }
        });
        c = c + cost::of([&] { w.reset(); });
    }
    return c;
}
static std::vector<const Op*> history(const std::vector<Op>& ops, uint64_t i, unsigned depth)
{
    mc::Dec d(i);
    std::vector<const Op*> h;
    for (unsigned k = 0; k < depth; ++k) h.push_back(&ops[d(ops.size())]);
    return h;
}
static S show(const std::vector<const Op*>& h)
{
    S s;
    for (auto x : h) s += (s.empty() ? "(" : "; ") + x->name;
    return s + ")^n";
}

// ---- lookups ----

struct Look
{
    S name;
    std::function<void(const value&, value&, size_t)> run; // the container, a changeable one, a position
};
static const std::vector<Look>& array_looks()
{
    static const std::vector<Look> r = {
        { "at", [](const value& v, value&, size_t i) { (void)v.at(i); (void)v.as_array().at(i); } },
        { "[]", [](const value& v, value& m, size_t i) { (void)v[i]; (void)m[i]; (void)v.as_array()[i]; (void)m.as_array()[i]; } },
        { "get", [](const value& v, value&, size_t i) { (void)v.get(i, 0); (void)v.get(int(i), S()); (void)v.get(-1, 0); (void)v.as_array().get(i, 2.0); } },
        { "find", [](const value& v, value&, size_t i) { (void)v.find<int>(i); (void)v.find<value>(i); (void)v.find_value(i); (void)v.as_array().find<S>(i); (void)v.as_array().find_value(i); } },
        { "contains", [](const value& v, value&, size_t i) { (void)v.contains(i); (void)v.exists(i); (void)v.as_array().contains(i); (void)v.as_array().exists(i); } },
        { "get beyond", [](const value& v, value&, size_t i) { (void)v.get(i + 1000000, 0); (void)v.get(i + 1000000, "d"); (void)v.get("key", 0); (void)v.get(i, i, 0); } },
        { "find beyond", [](const value& v, value&, size_t i) { (void)v.find<int>(i + 1000000); (void)v.find_value(i + 1000000); (void)v.find<int>("key"); (void)v.contains(i + 1000000); (void)v.contains("key"); } },
        { "replace", [](const value&, value& m, size_t i) { m[i] = int(i); m.as_array()[i] = "text"; } },
        { "erase beyond", [](const value&, value& m, size_t i) { (void)m.erase(i + 1000000); } },
        { "size", [](const value& v, value& m, size_t) { (void)(v.as_array().size() + m.as_array().size()); (void)(v.empty() || v.as_array().empty()); } },
        { "iterators", [](const value& v, value& m, size_t) { (void)v.as_array().begin(); (void)v.as_array().rbegin(); (void)m.as_array().end(); (void)m.as_array().rend(); } },
    };
    return r;
}
static const std::vector<Look>& object_looks()
{
    static const std::vector<Look> r = {
        { "at", [](const value& v, value&, size_t i) { (void)v.at(key(i)); (void)v.as_object().at(key(i)); } },
        { "[]", [](const value&, value& m, size_t i) { (void)m[key(i)]; (void)m.as_object()[key(i)]; } },
        { "get", [](const value& v, value&, size_t i) { (void)v.get(key(i), 0); (void)v.get(key(i), S()); (void)v.as_object().get(key(i), 2.0); } },
        { "find", [](const value& v, value&, size_t i) { (void)v.find<int>(key(i)); (void)v.find<value>(key(i)); (void)v.find_value(key(i)); (void)v.as_object().find<S>(key(i)); (void)v.as_object().find_value(key(i)); } },
        { "contains", [](const value& v, value&, size_t i) { (void)v.contains(key(i)); (void)v.exists(key(i)); (void)v.as_object().contains(key(i)); (void)v.as_object().exists(key(i)); } },
        { "get missing", [](const value& v, value&, size_t i) { (void)v.get(key(i) + "x", 0); (void)v.get("", "d"); (void)v.get(i, 0); (void)v.get(key(i), "b", 0); } },
        { "find missing", [](const value& v, value&, size_t i) { (void)v.find<int>(key(i) + "x"); (void)v.find_value("~"); (void)v.find<int>(i); (void)v.contains(""); (void)v.contains(i); } },
        { "replace", [](const value&, value& m, size_t i) { m[key(i)] = int(i); m.as_object()[key(i)] = "text"; m.emplace(key(i), 3); m.as_object().insert(key(i), value()); } },
        { "add and erase", [](const value&, value& m, size_t i) { m.emplace(key(i) + "x", 1); (void)m.erase(key(i) + "x"); m[key(i) + "y"] = 1; (void)m.as_object().erase(key(i) + "y"); } },
        { "erase missing", [](const value&, value& m, size_t i) { (void)m.erase(key(i) + "x"); (void)m.as_object().erase("~"); } },
        { "size", [](const value& v, value& m, size_t) { (void)(v.as_object().size() + m.as_object().size()); (void)(v.empty() || v.as_object().empty()); } },
        { "iterators", [](const value& v, value& m, size_t) { (void)v.as_object().begin(); (void)m.as_object().end(); } },
        { "merge one", [](const value&, value& m, size_t i) { m |= object { { key(i), 1 } }; const object x { { key(i), "q" } }; m |= x; m.as_object() |= object { { key(i), 2 } }; } },
    };
    return r;
}
// These must not depend on the size at all.
static const std::vector<Look>& moves()
{
    static const std::vector<Look> r = {
        { "move a value", [](const value&, value& m, size_t) { value t(std::move(m)); m = std::move(t); } },
        { "move into an array", [](const value&, value& m, size_t) { array t; t.push_back(std::move(m)); t.emplace_back(1); m = std::move(t[0]); } },
        { "move into an object", [](const value&, value& m, size_t) { object t; t.emplace("a", std::move(m)); m = std::move(t["a"]); } },
        { "move through []", [](const value&, value& m, size_t) { value t; t["a"] = std::move(m); m = std::move(t["a"]); } },
        { "move through emplace", [](const value&, value& m, size_t) { value t; t.emplace(std::move(m)); m = std::move(t[0]); } },
        { "move the container", [](const value&, value& m, size_t) {
             if (m.is_array()) { array t = std::move(m.as_array()); m = value(std::move(t)); }
             else if (m.is_object()) { object t = std::move(m.as_object()); m = value(std::move(t)); }
         } },
        { "move assign the container", [](const value&, value& m, size_t) {
             if (m.is_array()) { array t { 1 }; t = std::move(m.as_array()); m = std::move(t); }
             else if (m.is_object()) { object t; t = std::move(m.as_object()); m = std::move(t); }
         } },
        { "as<value>() &&", [](const value&, value& m, size_t) { value t = std::move(m).as<value>(); m = std::move(t); } },
        { "std::swap", [](const value&, value& m, size_t) { value t(1); std::swap(m, t); std::swap(m, t); } },
        { "vector<value>", [](const value&, value& m, size_t) { std::vector<value> t; t.push_back(std::move(m)); t.reserve(9); m = std::move(t[0]); } },
        { "array of vector<value> &&", [](const value&, value& m, size_t) { std::vector<value> t; t.push_back(std::move(m)); value u(std::move(t)); m = std::move(u.as_array()[0]); } },
        { "object of map<string, value> &&", [](const value&, value& m, size_t) { std::map<S, value> t; t.emplace("a", std::move(m)); value u(std::move(t)); m = std::move(u["a"]); } },
        { "optional<value> &&", [](const value&, value& m, size_t) { std::optional<value> t(std::move(m)); value u(std::move(t)); m = std::move(u); } },
        { "unique_ptr<value> &&", [](const value&, value& m, size_t) { auto t = std::make_unique<value>(std::move(m)); value u(std::move(t)); m = std::move(u); } },
        { "tuple<value, int> &&", [](const value&, value& m, size_t) { std::tuple<value, int> t(std::move(m), 1); value u(std::move(t)); m = std::move(u.as_array()[0]); } },
        { "array<value, 2> &&", [](const value&, value& m, size_t) { std::array<value, 2> t { std::move(m), value(1) }; value u(std::move(t)); m = std::move(u.as_array()[0]); } },
        { "array + {container} &&", [](const value&, value& m, size_t) { array t, u; t.push_back(std::move(m)); u += std::move(t); m = std::move(u[0]); } },
        { "object |= {container} &&", [](const value&, value& m, size_t) { object t, u; t.emplace("a", std::move(m)); u |= std::move(t); m = std::move(u["a"]); } },
        { "vector<value> from a value &&", [](const value&, value& m, size_t) { array t; t.push_back(std::move(m)); auto u = static_cast<std::vector<value>>(value(std::move(t))); m = std::move(u[0]); } },
        { "map<string, value> from a value &&", [](const value&, value& m, size_t) { object t; t.emplace("a", std::move(m)); auto u = static_cast<std::map<S, value>>(value(std::move(t))); m = std::move(u["a"]); } },
        { "get from another kind", [](const value&, value& m, size_t) { (void)m.is<bool>(); (void)m.is<std::nullptr_t>(); (void)m.is<double>(); (void)(m == value(true)); (void)(m != value()); } },
        { "type_name and value_info", [](const value&, value& m, size_t) { (void)m.type_name(); if (m.is_array() || m.is_object()) (void)m.value_info(); } },
    };
    return r;
}
// contents of size n
struct Shape
{
    S name;
    int kind; // 0 other, 1 array, 2 object
    std::function<value(size_t)> make;
};
static const std::vector<Shape>& shapes()
{
    static const std::vector<Shape> r = {
        { "array of numbers", 1, [](size_t n) { array a; for (size_t i = 0; i < n; ++i) a.push_back(int(i)); return value(std::move(a)); } },
        { "array of strings", 1, [](size_t n) { array a; for (size_t i = 0; i < n; ++i) a.push_back("some text that is long enough to be kept apart " + num(i)); return value(std::move(a)); } },
        { "array of arrays", 1, [](size_t n) { array a; for (size_t i = 0; i < n; ++i) a.push_back(array { int(i), "a" }); return value(std::move(a)); } },
        { "array of objects", 1, [](size_t n) { array a; for (size_t i = 0; i < n; ++i) a.push_back(object { { "x", int(i) }, { "y", true } }); return value(std::move(a)); } },
        { "array of nulls", 1, [](size_t n) { array a; for (size_t i = 0; i < n; ++i) a.push_back(nullptr); return value(std::move(a)); } },
        { "object of numbers", 2, [](size_t n) { object o; for (size_t i = 0; i < n; ++i) o.emplace(key(i), int(i)); return value(std::move(o)); } },
        { "object of arrays", 2, [](size_t n) { object o; for (size_t i = 0; i < n; ++i) o.emplace(key(i), array { 1, "two" }); return value(std::move(o)); } },
        { "object of strings", 2, [](size_t n) { object o; for (size_t i = 0; i < n; ++i) o.emplace(key(i), "some text that is long enough to be kept apart"); return value(std::move(o)); } },
        { "nested arrays", 0, [](size_t n) { value v; for (size_t i = 0; i < n; ++i) { array t; t.push_back(std::move(v)); v = std::move(t); } return v; } },
        { "nested objects", 0, [](size_t n) { value v; for (size_t i = 0; i < n; ++i) { object t; t.emplace("a", std::move(v)); v = std::move(t); } return v; } },
        { "comb", 0, [](size_t n) { value v; for (size_t i = 0; i < n; ++i) { array t { 1 }; t.push_back(std::move(v)); t.push_back("x"); v = std::move(t); } return v; } },
        { "rows", 0, [](size_t n) { array a; size_t k = 1; while (k * k < n) ++k; for (size_t i = 0; i < k; ++i) { array t; for (size_t j = 0; j < k; ++j) t.push_back(int(j)); a.push_back(std::move(t)); } return value(std::move(a)); } },
        { "string", 0, [](size_t n) { return value(S(8 * n, 'x')); } },
        { "string of quotes", 0, [](size_t n) { return value(S(8 * n, '"')); } },
        { "array of one string", 0, [](size_t n) { return value(array { S(8 * n, 'x') }); } },
        { "member of a long name", 0, [](size_t n) { return value(object { { S(8 * n, 'x'), 1 } }); } },
    };
    return r;
}

// ---- conversions ----

struct Point
{
    int x = 0, y = 0;
    S name;
    MEO_JSONIZATION(x, y, MEO_OPT name);
    bool operator==(const Point& r) const { return x == r.x && y == r.y && name == r.name; }
    bool operator<(const Point& r) const { return x < r.x; }
};
struct Bag
{
    std::vector<int> v;
    std::map<S, S> m;
    std::vector<Point> p;
    MEO_JSONIZATION(v, m, p);
};
enum class Color
{
    red,
    green,
    blue
};
struct Own
{
    S s;
    value to_json() const { return s; }
    bool check_json(const value& v) const { return v.is_string(); }
    bool from_json(const value& v)
    {
        if (!v.is_string()) return false;
        s = v.as_string();
        return true;
    }
};
struct Link
{
    int x = 0;
    std::vector<Link> next;
    MEO_JSONIZATION(x, next);
};
struct Tree
{
    int x = 0;
    std::map<S, Tree> kids;
    MEO_JSONIZATION(x, MEO_OPT kids);
};

struct Conv
{
    S name;
    std::function<std::vector<Cost>(size_t)> run;
    double power = 1;
};
static const char* const conv_steps[] = { "from const&", "from &&", "is", "as const&", "as &&", "destroy", "to_string" };
template <typename T>
static std::vector<Cost> convert(const std::function<T(size_t)>& make, size_t n)
{
    std::vector<Cost> c;
    T src = make(n);
    std::optional<value> a, b;
    if constexpr (std::is_copy_constructible_v<T>) c.push_back(cost::of([&] { a.emplace(static_cast<const T&>(src)); }));
    else c.push_back({});
    c.push_back(cost::of([&] { b.emplace(std::move(src)); }));
    const value& v = *b;
    c.push_back(cost::of([&] { if (!v.is<T>()) mc::fail("is<T>() refuses what was built from T"); }));
    c.push_back(cost::of([&] { T t = v.as<T>(); }));
    const Cost text = cost::of([&] { (void)v.to_string(); });
    c.push_back(cost::of([&] { T t = std::move(*b).template as<T>(); }));
    c.push_back(cost::of([&] { a.reset(), b.reset(); }));
    c.push_back(text);
    return c;
}
template <typename T>
static std::vector<T> many(size_t n, const std::function<T(size_t)>& f)
{
    std::vector<T> r;
    r.reserve(n);
    for (size_t i = 0; i < n; ++i) r.push_back(f(i));
    return r;
}
static std::vector<Conv> convs;
template <typename T>
static void conv(const char* name, std::function<T(size_t)> make, double power = 1)
{
    convs.push_back({ name, [make](size_t n) { return convert<T>(make, n); }, power });
}
template <typename C, typename F>
static C fill(size_t n, F f)
{
    C c;
    for (size_t i = 0; i < n; ++i) c.insert(c.end(), f(i));
    return c;
}
static void make_convs()
{
    auto i2 = [](size_t i) { return int(i); };
    auto s2 = [](size_t i) { return "some text that is long enough to be kept apart " + num(i); };
    auto p2 = [](size_t i) { Point p; p.x = int(i); p.name = "n"; return p; };
#define CONV(T, ...) conv<T>(#T, [=](size_t n) { return __VA_ARGS__; })
    using MapI = std::map<S, int>;
    using UMapI = std::unordered_map<S, int>;
    using MapV = std::map<S, std::vector<int>>;
    using Pair = std::pair<int, S>;
    using Tup = std::tuple<int, bool, S>;
    using Var = std::variant<int, S, std::vector<int>>;
    using Var2 = std::variant<std::vector<int>, std::vector<S>, std::map<S, int>>;
    CONV(std::vector<int>, fill<std::vector<int>>(n, i2));
    CONV(std::vector<S>, fill<std::vector<S>>(n, s2));
    CONV(std::vector<bool>, fill<std::vector<bool>>(n, [](size_t i) { return i % 3 == 0; }));
    CONV(std::vector<double>, fill<std::vector<double>>(n, [](size_t i) { return double(i) + 0.5; }));
    CONV(std::list<int>, fill<std::list<int>>(n, i2));
    CONV(std::deque<S>, fill<std::deque<S>>(n, s2));
    CONV(std::set<int>, fill<std::set<int>>(n, i2));
    CONV(std::set<S>, fill<std::set<S>>(n, s2));
    CONV(std::multiset<int>, fill<std::multiset<int>>(n, [](size_t i) { return int(i / 3); }));
    CONV(std::unordered_set<int>, fill<std::unordered_set<int>>(n, i2));
    CONV(std::unordered_set<S>, fill<std::unordered_set<S>>(n, s2));
    CONV(MapI, [&] { MapI m; for (size_t i = 0; i < n; ++i) m.emplace(key(i), int(i)); return m; }());
    CONV(UMapI, [&] { UMapI m; for (size_t i = 0; i < n; ++i) m.emplace(key(i), int(i)); return m; }());
    CONV(MapV, [&] { MapV m; for (size_t i = 0; i < n; ++i) m.emplace(key(i), std::vector<int> { 1, 2 }); return m; }());
    CONV(std::vector<std::vector<int>>, fill<std::vector<std::vector<int>>>(n, [](size_t i) { return std::vector<int>(i % 4, 1); }));
    CONV(std::vector<MapI>, fill<std::vector<MapI>>(n, [](size_t i) { return MapI { { "a", int(i) }, { "b", 1 } }; }));
    CONV(std::vector<Pair>, fill<std::vector<Pair>>(n, [](size_t i) { return Pair { int(i), "x" }; }));
    CONV(std::vector<Tup>, fill<std::vector<Tup>>(n, [](size_t i) { return Tup { int(i), true, "x" }; }));
    CONV(std::vector<std::optional<int>>, fill<std::vector<std::optional<int>>>(n, [](size_t i) { return i % 2 ? std::optional<int>(1) : std::nullopt; }));
    CONV(std::vector<std::shared_ptr<S>>, fill<std::vector<std::shared_ptr<S>>>(n, [](size_t i) { return std::make_shared<S>(num(i)); }));
    CONV(std::vector<std::unique_ptr<int>>, fill<std::vector<std::unique_ptr<int>>>(n, [](size_t i) { return std::make_unique<int>(int(i)); }));
    CONV(std::vector<Var>, fill<std::vector<Var>>(n, [](size_t i) { return i % 3 == 0 ? Var(1) : i % 3 == 1 ? Var(S("s")) : Var(std::vector<int> { 1 }); }));
    CONV(Var2, Var2(fill<std::vector<S>>(n, s2)));
    CONV(std::optional<std::vector<int>>, std::optional<std::vector<int>>(fill<std::vector<int>>(n, i2)));
    CONV(std::unique_ptr<std::vector<S>>, std::make_unique<std::vector<S>>(fill<std::vector<S>>(n, s2)));
    CONV(S, S(8 * n, 'x'));
    CONV(std::vector<Point>, fill<std::vector<Point>>(n, p2));
    CONV(std::vector<Color>, fill<std::vector<Color>>(n, [](size_t i) { return Color(i % 3); }));
    CONV(std::vector<Own>, fill<std::vector<Own>>(n, [](size_t i) { return Own { num(i) }; }));
    using MapP = std::map<S, Point>;
    CONV(MapP, [&] { MapP m; for (size_t i = 0; i < n; ++i) m.emplace(key(i), p2(i)); return m; }());
    CONV(Bag, [&] { Bag b; for (size_t i = 0; i < n; ++i) { b.v.push_back(1); b.m.emplace(key(i), "v"); b.p.push_back(p2(i)); } return b; }());
    using TupV = std::tuple<std::vector<int>, std::map<S, S>>;
    CONV(TupV, [&] { TupV b; for (size_t i = 0; i < n; ++i) { std::get<0>(b).push_back(1); std::get<1>(b).emplace(key(i), "v"); } return b; }());
    using Arr = std::array<std::vector<int>, 3>;
    CONV(Arr, [&] { Arr b; for (auto& x : b) x = fill<std::vector<int>>(n, i2); return b; }());
    CONV(std::vector<value>, fill<std::vector<value>>(n, [](size_t i) { return value(int(i)); }));
    using MapVal = std::map<S, value>;
    CONV(MapVal, [&] { MapVal m; for (size_t i = 0; i < n; ++i) m.emplace(key(i), array { 1 }); return m; }());
    CONV(array, [&] { array a; for (size_t i = 0; i < n; ++i) a.push_back(int(i)); return a; }());
    using Grid = std::map<S, std::vector<MapI>>;
    CONV(Grid, [&] { Grid m; for (size_t i = 0; i < n; ++i) m[key(i)] = { MapI { { "a", 1 } }, MapI() }; return m; }());
    using PairV = std::pair<std::vector<S>, std::map<S, int>>;
    CONV(PairV, [&] { PairV p; for (size_t i = 0; i < n; ++i) p.first.push_back("x"), p.second.emplace(key(i), 1); return p; }());
    using SharedM = std::shared_ptr<std::map<S, std::vector<int>>>;
    CONV(SharedM, [&] { auto p = std::make_shared<std::map<S, std::vector<int>>>(); for (size_t i = 0; i < n; ++i) p->emplace(key(i), std::vector<int>(3)); return p; }());
    using Deep = std::vector<std::optional<std::map<S, std::vector<Var>>>>;
    CONV(Deep, [&] { Deep v; for (size_t i = 0; i < n; ++i) { v.emplace_back(); if (i % 2) v.back() = std::map<S, std::vector<Var>> { { "a", { Var(1), Var(S("s")) } } }; } return v; }());
    CONV(object, [&] { object o; for (size_t i = 0; i < n; ++i) o.emplace(key(i), int(i)); return o; }());
}

static void setup(mc::Engine& e)
{
    const bool th = mc::thorough();
    // every pumped text
    auto texts = [&](const char* name, unsigned len, std::vector<Source> src, size_t n0, size_t n1, bool use, bool down) {
        const uint64_t W = words(len);
        auto pick = [=](uint64_t i) {
            mc::Dec d(i);
            Pump p;
            const Tail& t = tails[d(tails.size())];
            p.open = opens[d(opens.size())];
            p.u = word(1 + d(W - 1));
            p.mid = t.mid, p.v = t.v, p.close = t.close;
            return p;
        };
        e.add(
            name, tails.size() * opens.size() * (W - 1),
            [=](uint64_t i) {
                const Pump p = pick(i);
                const S a = p.text(n0, down), b = p.text(n1, down);
                auto go = [&] {
                    for (auto& s : src) {
                        const bool ok = pump(s.parse, a, b, s.name, use);
                        if (ok) mc::outcome(p.show());
                    }
                };
                if (n1 > 1000) dm::roomy(go);
                else go();
            },
            [=](uint64_t i) { return pick(i).show(); });
    };
    const std::vector<Source> two = { sources[0], sources[1] }, all(std::begin(sources), std::end(sources));
    texts("texts-1-all-sources", 1, all, 64, 4096, true, true);
    texts("texts-2", 2, two, 32, 2048, true, false);
    // every word inside a repeated unit
    static const std::vector<std::pair<S, S>> units = {
        { "\"", "\"," }, { "{\"", "\":1}," }, { "[\"", "\"]," }, { "[", "]," }, { "{\"k\":", "}," }, { "[[", "]]," }, { "/*", "*/1," }, { "//", "\n1," }, { "1/*", "*/," },
        { "1", "," }, { "-0.", "," }, { "1.5e", "," }, { "0,", "1," }, { "\"a", "\\n\"," }, { "\"\\ud83d", "\"," }, { "[{\"a\":\"", "\"}]," }, { " ", ", " }, { "", "," },
    };
    auto in_units = [&](const char* name, unsigned len, std::vector<std::pair<S, S>> us) {
        const uint64_t W = words(len);
        auto text = [=](uint64_t i, size_t n, bool member) {
            mc::Dec d(i);
            const auto& u = us[d(us.size())];
            const Word w = word(d(W));
            S s(1, member ? '{' : '[');
            for (size_t k = 0; k < n; ++k) {
                if (member) s += '"' + num(k) + "\":";
                s += u.first;
                w.put(s, k);
                s += u.second;
            }
            return s + (member ? "\"\":0}" : "0]");
        };
        e.add(
            name, us.size() * W,
            [=](uint64_t i) {
                for (bool member : { false, true })
                    for (int k = 0; k < 2; ++k)
                        if (pump(sources[k].parse, text(i, 24, member), text(i, 1024, member), sources[k].name, false)) mc::outcome(text(i, 1, member));
            },
            [=](uint64_t i) { return mc::show(text(i, 1, false)) + " with n of these elements"; });
    };
    in_units("texts-in-units-2", 2, units);
    in_units("texts-in-units-3", 3, th ? units : std::vector<std::pair<S, S>>(units.begin(), units.begin() + 1));
    // every short number text
    e.add(
        "numbers", mc::ipow(7, th ? 7 : 6),
        [=](uint64_t i) {
            mc::Dec d(i);
            S t;
            for (int k = 0; k < (th ? 7 : 6); ++k) t += "01-.e+,"[d(7)];
            S a = "[1", b = a;
            for (int k = 0; k < 32; ++k) a += "," + t;
            for (int k = 0; k < 2048; ++k) b += "," + t;
            if (pump(strict, a + "]", b + "]", "parse", false)) mc::outcome(t);
        },
        [=](uint64_t i) {
            mc::Dec d(i);
            S t;
            for (int k = 0; k < (th ? 7 : 6); ++k) t += "01-.e+,"[d(7)];
            return "[1 (," + t + ")^n ]";
        });
    // large texts from every source
    e.add(
        "large-texts", 6 * std::size(sources),
        [](uint64_t i) {
            const Source& s = sources[i / 6];
            auto make = [&](size_t n) {
                S t = i % 6 == 5 ? "\xef\xbb\xbf[" : "[";
                switch (i % 6) {
                case 0: t += '"' + S(n, 'x') + '"'; break;
                case 1: t += S(n, ' ') + "1"; break;
                case 2: t += S(n, '7'); break;
                case 3: for (size_t k = 0; k < n / 16; ++k) t += "\"some text 1234\","; t += "1"; break;
                case 4: for (size_t k = 0; k < n / 12; ++k) t += "\\" + S(10, 'y'); break; // refused
                default: t += '"' + S(n, 'z') + '"';
                }
                return t + "]";
            };
            pump(s.parse, make(1 << 16), make(1 << 22), s.name, false);
        },
        [](uint64_t i) { return S(sources[i / 6].name) + " content " + std::to_string(i % 6); });
    // every pumped string content, as text written and as a key
    static const std::vector<S> bits = { "a", "\"", "\\", "/", "\n", S(1, '\0'), "\x1f", "\x7f", "\xc3\xa9", "\xf0\x9f\x98\x80", "\xff", "0123456789abcdef", "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcde\t" };
    e.add(
        "string-contents", (bits.size() + 1) * bits.size() * bits.size() * 3,
        [](uint64_t i) {
            mc::Dec d(i);
            const unsigned how = unsigned(d(3));
            const S x = bits[d(bits.size())], y = bits[d(bits.size())];
            const auto k = d(bits.size() + 1);
            const S z = k ? bits[k - 1] : S();
            auto make = [&](size_t n) {
                S s;
                for (size_t j = 0; j < n; ++j) s += x + y + z;
                if (how == 0) return value(s);
                if (how == 1) return value(array { s, s });
                return value(object { { s, 1 } });
            };
            value a = make(64), b = make(1024);
            const Uses u = uses(a), v = uses(b);
            check_uses(u, v, 16, "");
            auto reads = [&](const value& w) {
                return cost::of([&] {
                    (void)w.is<int>();
                    if (how == 0) {
                        (void)w.as_string();
                        (void)w.as_string_view();
                        (void)w.as<S>();
                        (void)w.is_number();
                        (void)w.value_info();
                        try { (void)w.as_integer(); } catch (const std::exception&) {}
                        try { (void)w.as_double(); } catch (const std::exception&) {}
                    }
                    std::ostringstream os;
                    os << w;
                });
            };
            const S ta = a.format(), tb = b.format();
            grows(reads(a), reads(b), std::max(16.0, double(tb.size()) / double(ta.size())), "reads");
            mc::validated();
        },
        [](uint64_t i) {
            mc::Dec d(i);
            auto how = d(3);
            const S x = bits[d(bits.size())], y = bits[d(bits.size())];
            const auto k = d(bits.size() + 1);
            return "(" + mc::show(x + y + (k ? bits[k - 1] : S())) + ")^n as " + (how == 0 ? "a string" : how == 1 ? "two elements" : "a key");
        });
    // every bounded edit history, repeated
    auto hist = [&](const char* name, const std::vector<Op>& ops, unsigned depth, size_t n0, size_t n1) {
        e.add(
            name, mc::ipow(ops.size(), depth),
            [&ops, depth, n0, n1](uint64_t i) {
                const auto h = history(ops, i, depth);
                dm::roomy([&] { grows(play(h, n0), play(h, n1), double(n1) / double(n0), "the history"); });
                mc::validated();
            },
            [&ops, depth](uint64_t i) { return show(history(ops, i, depth)); });
    };
    for (unsigned k = 1; k <= (th ? 4u : 3u); ++k) {
        const size_t n0 = k == 1 ? 128 : k == 2 ? 64 : 32, n1 = 64 * n0;
        hist(("array-edits-" + std::to_string(k)).c_str(), array_ops(), k, n0, n1);
        hist(("object-edits-" + std::to_string(k)).c_str(), object_ops(), k, n0, n1);
        hist(("value-edits-" + std::to_string(k)).c_str(), value_ops(), k, n0, n1);
    }
    // lookups and moves do not grow with the container
    static std::vector<size_t> sizes = { 16, 64, 256, 1024, 4096 };
    e.add("lookups", shapes().size() * sizes.size(), [](uint64_t i) {
        mc::Dec d(i);
        const Shape& s = shapes()[d(shapes().size())];
        const size_t n0 = sizes[d(sizes.size())], n1 = 16 * n0;
        dm::roomy([&] {
            const value a = s.make(n0), b = s.make(n1);
            value ma = a, mb = b;
            auto run = [&](const std::vector<Look>& looks, double grow, bool pos) {
                for (auto& l : looks)
                    for (int at = 0; at < (pos ? 3 : 1); ++at) {
                        const size_t pa = at == 0 ? 0 : at == 1 ? n0 / 2 : n0 - 1, pb = at == 0 ? 0 : at == 1 ? n1 / 2 : n1 - 1;
                        const Cost c = cost::of([&] { l.run(a, ma, pa); }), g = cost::of([&] { l.run(b, mb, pb); });
                        grows(c, g, grow, s.name + " of " + std::to_string(n0) + " and " + std::to_string(n1) + ": " + l.name + " at place " + std::to_string(at), n0 < 200 ? 2048 : 600);
                    }
            };
            run(moves(), 1, false);
            if (s.kind == 1) run(array_looks(), 1, true);
            if (s.kind == 2) run(object_looks(), 1.5, true);
        });
        mc::validated();
    });
    // whole values of every shape
    e.add("shapes", shapes().size() * sizes.size(), [](uint64_t i) {
        mc::Dec d(i);
        const Shape& s = shapes()[d(shapes().size())];
        const bool nested = s.kind == 0 && (s.name.compare(0, 6, "nested") == 0 || s.name == "comb");
        const size_t n0 = std::min<size_t>(sizes[d(sizes.size())], nested ? 128 : 1024), n1 = 16 * n0;
        dm::roomy([&] {
            std::optional<value> a, b;
            const Cost m0 = cost::of([&] { a.emplace(s.make(n0)); }), m1 = cost::of([&] { b.emplace(s.make(n1)); });
            const double r = s.name == "rows" ? 17 * 17 / 16. : 16;
            grows(m0, m1, r, s.name + ": build");
            const Uses u = uses(*a), v = uses(*b);
            check_uses(u, v, r, s.name + " of " + std::to_string(n0) + " and " + std::to_string(n1) + ": ");
            auto path = [&](value& w) {
                return cost::of([&] {
                    (void)w.all<int>();
                    (void)w.all<value>();
                    (void)w.all<S>();
                    (void)w.is<std::vector<int>>();
                    (void)w.is<std::vector<value>>();
                    (void)w.is<std::map<S, int>>();
                    (void)w.is<std::vector<std::vector<S>>>();
                    (void)w.is<std::variant<int, std::vector<S>, std::map<S, S>>>();
                    (void)w.is<Point>();
                    (void)w.is<Link>();
                    (void)w.is<Tree>();
                    (void)w.get(0, 1, 2, "d");
                    (void)w.get("a", "a", "a", 0);
                });
            };
            grows(path(*a), path(*b), r, s.name + ": queries");
            // the difference is at the very end or the very start
            value x = *a, y = *b;
            grows(cost::of([&] { (void)(x == value(1) || *a != x); }), cost::of([&] { (void)(y == value(1) || *b != y); }), r, s.name + ": comparison");
            std::ostringstream o0, o1;
            const size_t p0 = a->format().size(), p1 = b->format().size();
            grows(cost::of([&] { o0 << *a; }), cost::of([&] { o1 << *b; }), std::max(r, double(p1) / double(p0)), s.name + ": <<");
        });
        mc::validated();
    });
    // concatenation and merging of containers of every size
    e.add("joins", sizes.size() * 12, [](uint64_t i) {
        mc::Dec d(i);
        const unsigned how = unsigned(d(12));
        const size_t n0 = std::min<size_t>(sizes[d(sizes.size())], 1024), n1 = 16 * n0;
        auto run = [&](size_t n) {
            array a, b;
            object o, p;
            for (size_t k = 0; k < n; ++k) a.push_back(int(k)), b.push_back("x"), o.emplace(key(2 * k), 1), p.emplace(key(2 * k + how % 2), 2);
            return cost::of([&] {
                switch (how) {
                case 0: { array c = a + b; break; }
                case 1: { array c = a + std::move(b); break; }
                case 2: { array c = std::move(a) + b; break; }
                case 3: { array c = std::move(a) + std::move(b); break; }
                case 4: { object c = o | p; break; }
                case 5: { object c = o | std::move(p); break; }
                case 6: { object c = std::move(o) | p; break; }
                case 7: { object c = std::move(o) | std::move(p); break; }
                case 8: a += b, a += a; break;
                case 9: o |= p, o |= o; break;
                case 10: a += std::move(b); break;
                default: o |= std::move(p);
                }
            });
        };
        grows(run(n0), run(n1), 16, "join " + std::to_string(how) + " of " + std::to_string(n0));
        mc::validated();
    });
    // conversions
    make_convs();
    e.add(
        "conversions", convs.size() * sizes.size(),
        [](uint64_t i) {
            mc::Dec d(i);
            auto& c = convs[d(convs.size())];
            const size_t n0 = std::min<size_t>(sizes[d(sizes.size())], 1024);
            const auto a = c.run(n0), b = c.run(16 * n0);
            for (size_t k = 0; k < a.size(); ++k) grows(a[k], b[k], 16, c.name + ": " + conv_steps[k]);
            mc::validated();
        },
        [](uint64_t i) {
            mc::Dec d(i);
            auto& c = convs[d(convs.size())];
            return c.name + " of " + std::to_string(sizes[d(sizes.size())]);
        });
    // containers that can only be written
    e.add("written-only", sizes.size(), [](uint64_t i) {
        const size_t n0 = std::min<size_t>(sizes[i], 1024), n1 = 16 * n0;
        auto go = [&](auto make, const char* name) {
            auto a = make(n0), b = make(n1);
            grows(cost::of([&] { (void)value(a); }), cost::of([&] { (void)value(b); }), 16, S(name) + " to value");
            grows(cost::of([&] { (void)array(a); }), cost::of([&] { (void)array(b); }), 16, S(name) + " to array");
            grows(cost::of([&] { (void)array(std::move(a)); }), cost::of([&] { (void)array(std::move(b)); }), 16, S(name) + " moved to array");
        };
        go([](size_t n) { return std::forward_list<int>(n, 1); }, "forward_list<int>");
        go([](size_t n) { return std::forward_list<S>(n, "text"); }, "forward_list<string>");
        go([](size_t n) { return std::forward_list<std::vector<int>>(n, std::vector<int>(2)); }, "forward_list<vector<int>>");
        mc::validated();
    });
    // recursive reflected types: the nesting depth is allowed as a factor
    e.add("recursive-types", 6, [](uint64_t i) {
        const size_t d0 = i < 3 ? 16 : 4, d1 = 8 * d0;
        auto chain = [](size_t n) { Link l; for (size_t k = 0; k < n; ++k) { Link m; m.x = int(k); m.next.push_back(std::move(l)); l = std::move(m); } return l; };
        auto tree = [](size_t n) { Tree l; for (size_t k = 0; k < n; ++k) { Tree m; m.kids.emplace("a", std::move(l)); m.kids.emplace("b", Tree()); l = std::move(m); } return l; };
        dm::roomy([&] {
            auto go = [&](auto make) {
                using T = decltype(make(size_t(1)));
                const auto a = convert<T>(make, d0), b = convert<T>(make, d1);
                for (size_t k = 0; k < a.size(); ++k) grows(a[k], b[k], k == 2 || k >= 5 ? 8 : 64, S("recursive type: ") + conv_steps[k]);
            };
            if (i % 3 == 0) go(std::function<Link(size_t)>(chain));
            else if (i % 3 == 1) go(std::function<Tree(size_t)>(tree));
            else go(std::function<std::vector<Link>(size_t)>([&](size_t n) { std::vector<Link> v; for (size_t k = 0; k < n; ++k) v.push_back(chain(4)); return v; }));
        });
        mc::validated();
    });
    if (th) texts("texts-3", 3, two, 32, 2048, true, false);
    if (th) texts("texts-2-all-sources", 2, all, 64, 4096, true, true);
    e.notes.push_back("tokens: " + std::to_string(tokens().size()) + ", histories over " + std::to_string(array_ops().size()) + " array, " + std::to_string(object_ops().size()) + " object and " + std::to_string(value_ops().size()) + " value operations, conversions: " + std::to_string(convs.size()));
}
MC_MAIN(setup)
