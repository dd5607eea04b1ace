// C29: reading the same values and working on separate ones from several threads: no data race, and the results of
// working alone, under every schedule.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0 // instantiate the standard library's templates here, where they are instrumented
#include "dims.hpp"
#include "fam.hpp"
#include "race.hpp"
#include "trees.hpp"
#include <sstream>
using fam::M;
using json::value;
using ref::Node;
using S = std::string;

enum class Color
{
    red,
    green = 5,
    BLUE = 9,
};
enum Plain : unsigned char
{
    none,
    some = 3,
};
struct Leaf
{
    int x = 0;
    std::optional<S> s;
    Color c = Color::red;
    MEO_JSONIZATION(x, MEO_OPT s, MEO_OPT c);
};
struct Rec
{
    double d = 0;
    int i = 0;
    std::vector<float> f;
    Color c = Color::red;
    std::map<S, Leaf> leaves;
    std::variant<int, S> v;
    std::shared_ptr<Leaf> p;
    MEO_JSONIZATION(d, MEO_KEY("ii") i, f, MEO_OPT c, MEO_OPT leaves, MEO_OPT v, MEO_OPT p);
};
struct Own
{
    S s;
    value to_json() const { return json::object { { "own", s } }; }
    bool check_json(const value& v) const { return v.is_object() && v.contains("own"); }
    bool from_json(const value& v)
    {
        s = v.at("own").as_string();
        return true;
    }
};
struct Far
{
    int a = 0, b = 0;
};
namespace json::ext
{
template <>
class jsonization<Far>
{
public:
    value to_json(const Far& t) const { return json::array { t.a, t.b }; }
    bool check_json(const value& v) const { return v.is_array() && v.as_array().size() == 2; }
    bool from_json(const value& v, Far& t) const
    {
        t.a = v.get(0, 0);
        t.b = v.get(1, 0);
        return true;
    }
};
} // namespace json::ext

extern char __executable_start;
struct Log
{
    S s;
    void text(std::string_view t) { s.append(t).append("|"); }
    template <typename T>
    void num(T t)
    {
        if constexpr (std::is_floating_point_v<T>) {
            char b[16] = {};
            memcpy(b, &t, sizeof(T) > 8 ? 10 : sizeof(T));
            for (unsigned char c : b) s += "0123456789abcdef"[c >> 4], s += "0123456789abcdef"[c & 15];
        }
        else {
            unsigned long long u = static_cast<unsigned long long>(t);
            for (int i = 60; i >= 0; i -= 4) s += "0123456789abcdef"[(u >> i) & 15];
        }
        s += '|';
    }
    template <typename F>
    void run(F&& f)
    {
        try {
            f();
        }
        catch (const std::exception& e) {
            text(e.what());
        }
    }
};
struct Op
{
    S name;
    bool shared; // looks at the shared value
    std::function<void(Log&, const value&)> f;
    std::function<void(const value&)> prepare; // makes other shared objects
};
static std::vector<Op> g_ops;
static std::vector<Node> g_trees;
static Node g_rich;
static size_t g_size = 24; // of the operands of operations on larger values

template <typename F>
static void walk(const value& v, F&& f)
{
    f(v);
    if (v.is_array())
        for (const auto& x : v.as_array()) walk(x, f);
    else if (v.is_object())
        for (const auto& [k, x] : v.as_object()) walk(x, f);
}
static void on_shared(S name, std::function<void(Log&, const value&)> each)
{
    g_ops.push_back({ std::move(name), true, [each](Log& l, const value& v) {
                         walk(v, [&](const value& x) { l.run([&] { each(l, x); }); });
                     }, {} });
}
static void alone(S name, std::function<void(Log&)> f)
{
    g_ops.push_back({ std::move(name), false, [f](Log& l, const value&) { l.run([&] { f(l); }); }, {} });
}

#ifdef MC_PART
template <typename T>
struct Made
{
    static std::vector<T>& all()
    {
        static std::vector<T> v;
        return v;
    }
};
static void type_ops()
{
    MC_PART::each([](auto* p) {
        using T = std::decay_t<decltype(*p)>;
        on_shared("is<" + M<T>::name() + ">", [](Log& l, const value& v) { l.num(v.is<T>()); });
        on_shared("as<" + M<T>::name() + ">", [](Log& l, const value& v) {
            if (v.is<T>()) l.text(value(v.as<T>()).to_string());
            else l.num(0);
        });
        on_shared("refused " + M<T>::name(), [](Log& l, const value& v) {
            if (v.is<T>()) return;
            if constexpr (!std::is_same_v<T, value>) {
                T t = static_cast<T>(v);
                l.text(value(std::move(t)).to_string());
            }
        });
        on_shared("all<" + M<T>::name() + ">", [](Log& l, const value& v) { l.num(v.all<T>()); });
        g_ops.push_back({ "make value from a shared " + M<T>::name(), true,
                          [](Log& l, const value&) {
                              if constexpr (std::is_copy_constructible_v<T> && std::is_constructible_v<value, const T&>)
                                  for (const T& t : Made<T>::all()) l.run([&] { l.text(value(t).to_string()); });
                          },
                          [](const value& tree) {
                              auto& a = Made<T>::all();
                              a.clear();
                              walk(tree, [&](const value& v) {
                                  Node n = ref::readout(v);
                                  if (M<T>::fits(n)) a.push_back(M<T>::of(n));
                              });
                          } });
        alone("make " + M<T>::name(), [](Log& l) {
            for (const Node& n : g_trees)
                if (M<T>::fits(n)) {
                    T t = M<T>::of(n);
                    value v = std::move(t);
                    l.text(v.to_string());
                    if (l.s.size() > 2000) break;
                }
        });
    });
}
#endif

static void base_ops()
{
    on_shared("to_string", [](Log& l, const value& v) { l.text(v.to_string()); });
    on_shared("dumps", [](Log& l, const value& v) { l.text(v.dumps()); l.text(v.dumps(3)); });
    on_shared("format", [](Log& l, const value& v) { l.text(v.format()); l.text(v.format(2)); });
    on_shared("container format", [](Log& l, const value& v) {
        if (v.is_array()) l.text(v.as_array().format()), l.text(v.as_array().to_string()), l.text(v.as_array().dumps(1));
        if (v.is_object()) l.text(v.as_object().format()), l.text(v.as_object().to_string()), l.text(v.as_object().dumps(1));
    });
    on_shared("<<", [](Log& l, const value& v) {
        std::ostringstream o;
        o << v;
        if (v.is_array()) o << v.as_array();
        if (v.is_object()) o << v.as_object();
        l.text(o.str());
    });
    on_shared("type queries", [](Log& l, const value& v) {
        l.num(int(v.type()));
        l.num(v.is_null() + 2 * v.is_string() + 4 * v.is_boolean() + 8 * v.is_number() + 16 * v.is_array() + 32 * v.is_object());
        l.num(v.empty());
        l.num(v.valid());
        l.num(bool(v.is<int>()));
        l.num(v.is<S>());
        l.num(v.is<std::vector<int>>());
        l.num(v.is<Rec>());
        l.num(v.is<Color>());
    });
#define ACC(name) on_shared(#name, [](Log& l, const value& v) { l.num(v.name()); })
    ACC(as_boolean);
    ACC(as_integer);
    ACC(as_unsigned);
    ACC(as_long);
    ACC(as_unsigned_long);
    ACC(as_long_long);
    ACC(as_unsigned_long_long);
    ACC(as_float);
    ACC(as_double);
    ACC(as_long_double);
    on_shared("as_string", [](Log& l, const value& v) { l.text(v.as_string()); l.text(v.as_string_view()); });
    on_shared("as_array", [](Log& l, const value& v) { l.num(v.as_array().size()); });
    on_shared("as_object", [](Log& l, const value& v) { l.num(v.as_object().size()); });
    on_shared("value_info", [](Log& l, const value& v) { l.text(v.value_info()); });
    on_shared("copy", [](Log& l, const value& v) {
        value a = v, b;
        b = a;
        l.text(b.to_string());
    });
    on_shared("copy containers", [](Log& l, const value& v) {
        if (v.is_array()) {
            json::array a = v.as_array(), b;
            b = a;
            b.emplace_back(1);
            l.text(b.to_string());
        }
        else if (v.is_object()) {
            json::object a = v.as_object(), b;
            b = a;
            b["z"] = 1;
            l.text(b.to_string());
        }
    });
    on_shared("copy and edit", [](Log& l, const value& v) {
        value a = v;
        if (a.is_array()) a.emplace("more"), a += json::array { 1, 2 };
        else if (a.is_object()) a.emplace("more", 1), a["k"] = nullptr, a.erase("a");
        else a = value(7);
        l.text(a.to_string());
        a.clear();
    });
    on_shared("==", [](Log& l, const value& v) {
        l.num(v == v);
        l.num(v != v);
        l.num(v == value(3));
        if (v.is_array()) l.num(v.as_array() == v.as_array());
        if (v.is_object()) l.num(v.as_object() == v.as_object());
    });
    on_shared("+ and |", [](Log& l, const value& v) {
        if (v.is_array()) l.text((v.as_array() + v.as_array()).to_string());
        if (v.is_object()) l.text((v.as_object() | v.as_object()).to_string());
    });
    on_shared("contains", [](Log& l, const value& v) {
        l.num(v.contains("a"));
        l.num(v.exists("b"));
        l.num(v.contains(0));
        l.num(v.contains(9));
    });
    on_shared("find", [](Log& l, const value& v) {
        auto a = v.find("a");
        l.num(bool(a));
        if (a) l.text(a->to_string());
        auto b = v.find<int>("x");
        l.num(b ? *b : -1);
        auto c = v.find<S>(0);
        l.text(c ? *c : "-");
    });
    on_shared("get", [](Log& l, const value& v) {
        l.num(v.get("a", 7));
        l.text(v.get("k", "x", "dflt"));
        l.num(v.get("k", "y", 1, 2.5));
        l.num(v.get(1, 2.5));
        l.text(v.get("s", S("none")));
        l.text(v.get("a", 5, "b", value(1)).to_string());
    });
    on_shared("at", [](Log& l, const value& v) {
        if (v.is_array()) l.text(v.at(0).to_string());
        else if (v.is_object()) l.text(v.at("a").to_string());
        else l.text(v.at("a").to_string());
    });
    on_shared("at past the end", [](Log& l, const value& v) { l.text(v.at(77).to_string()); });
    on_shared("[]", [](Log& l, const value& v) {
        if (v.is_array() && !v.as_array().empty()) l.text(v[0].to_string());
    });
    on_shared("iterate", [](Log& l, const value& v) {
        if (v.is_array()) {
            auto& a = v.as_array();
            for (auto i = a.rbegin(); i != a.rend(); ++i) l.num(int(i->type()));
            l.num(a.size() + a.empty());
        }
        else if (v.is_object()) {
            auto& o = v.as_object();
            for (auto i = o.begin(); i != o.end(); ++i) l.text(i->first);
            l.num(o.contains("a") + o.size());
            auto f = o.find("k");
            if (f) l.text(f->to_string());
        }
    });
    on_shared("all<>", [](Log& l, const value& v) { l.num(v.all<int>()); l.num(v.all<S>()); });
    on_shared("to containers", [](Log& l, const value& v) {
        if (v.is<std::vector<value>>()) l.num(v.as<std::vector<value>>().size());
        if (v.is<std::map<S, value>>()) l.num(v.as<std::map<S, value>>().size());
        if (v.is<std::vector<int>>()) l.num(v.as<std::vector<int>>().size());
        auto o = v.as<std::optional<value>>();
        l.num(bool(o));
        l.num(v.is<std::variant<int, S>>());
    });
    on_shared("to a struct", [](Log& l, const value& v) {
        Rec r = v.as<Rec>();
        l.num(r.d);
        l.num(int(r.c));
        l.text(value(r).to_string());
    });
    on_shared("check and load a struct", [](Log& l, const value& v) {
        Rec r;
        S bad;
        l.num(r.check_json(v, bad));
        l.text(bad);
        l.num(r.from_json(v, bad));
        l.text(bad);
        l.text(r.to_json().to_string());
    });
    on_shared("to own types", [](Log& l, const value& v) {
        if (v.is<Own>()) l.text(v.as<Own>().s);
        if (v.is<Far>()) l.num(v.as<Far>().a);
        if (v.is<std::vector<Own>>()) l.num(v.as<std::vector<Own>>().size());
    });
    on_shared("to an enum", [](Log& l, const value& v) { l.num(int(v.as<Color>())); });
    on_shared("to a plain enum", [](Log& l, const value& v) { l.num(int(v.as<Plain>())); });
    on_shared("wrap", [](Log& l, const value& v) {
        value w = json::array { v, v };
        json::object o { { "x", v } };
        o.emplace("y", v);
        w.emplace(o);
        std::vector<value> vs { v };
        w += value(vs).as_array();
        l.text(w.to_string());
    });
    on_shared("serialise and parse", [](Log& l, const value& v) {
        auto p = json::parse(v.to_string());
        l.num(bool(p));
        if (p) l.num(*p == v);
    });

    static const std::vector<S> docs = { "[]", "{}", "[1,-2.5e+3,0]", "[true,false,null]", "[\"plain\",\"\\u00e9\\ud83d\\ude00\\n\\\"\\\\\",\"\"]", "{\"a\":{\"b\":[{\"c\":[[]]}]},\"d\":\"x\"}",
                                         "[\"0123456789012345678901234567890123456789\\t0123456789012345678901234567890123456789\"]", "[ 1 , 2 , { \"k\" : 3 } ]", "[1,]", "{\"a\":1,\"a\":2}", "[01]", "[\"\\x\"]", "",
                                         "// c\n[1,/* x */2,]", "{\"d\":1.5,\"ii\":7,\"f\":[1,2.5],\"c\":\"green\"}" };
    for (size_t k = 0; k < docs.size(); ++k) {
        alone("parse " + docs[k], [k](Log& l) {
            auto p = json::parse(docs[k]);
            l.text(p ? p->to_string() : "-");
        });
        alone("parsec " + docs[k], [k](Log& l) {
            auto p = json::parsec(docs[k]);
            l.text(p ? p->format() : "-");
        });
    }
    alone("parse a stream", [](Log& l) {
        std::istringstream i(docs[5]);
        auto p = json::parse(i);
        l.text(p ? p->to_string() : "-");
    });
    alone("open a file", [](Log& l) {
        auto p = json::open(mc::g_scratch + "/doc.json", true);
        l.text(p ? p->to_string() : "-");
        l.num(bool(json::open(mc::g_scratch + "/none.json")));
    });
    alone("parse other containers", [](Log& l) {
        std::vector<char> c(docs[4].begin(), docs[4].end());
        auto p = json::parse(c);
        l.text(p ? p->to_string() : "-");
    });
    alone("parse a u8 text", [](Log& l) {
        auto p = json::parse(u8"[\"\u4e2d\"]");
        l.text(p ? p->to_string() : "-");
    });
    alone("literals", [](Log& l) {
        using namespace json::literals;
        l.text(("[1,2]"_json).to_string());
        l.text(("{\"a\":1}"_jobject).to_string());
        l.text(("[1]"_jarray).to_string());
        l.text(("[1,]"_json).to_string());
    });
    alone("make numbers", [](Log& l) {
        l.text(value(1.5).to_string());
        l.text(value(-1e300).to_string());
        l.text(value(0.1f).to_string());
        l.text(value(1.25L).to_string());
        l.text(value(-7).to_string());
        l.text(value(~0ull).to_string());
        l.text(value(true).to_string());
    });
    alone("make strings", [](Log& l) {
        l.text(value("a\"\\\n\x01\xc3\xa9").to_string());
        l.text(value(S(40, 'x') + "\n").to_string());
        l.text(value(std::string_view("sv")).to_string());
    });
    alone("escape", [](Log& l) { l.text(json::object { { "k\n\"", "v\t" } }.to_string()); });
    alone("make containers", [](Log& l) {
        l.text(value(std::vector<int> { 1, 2 }).to_string());
        l.text(value(std::map<S, S> { { "a", "b" } }).to_string());
        l.text(value(std::make_tuple(1, "x", 2.5)).to_string());
        l.text(value(std::optional<int>(3)).to_string());
        l.text(value(std::optional<int>()).to_string());
        l.text(value(std::variant<int, S>(S("v"))).to_string());
        l.text(value(std::make_shared<int>(3)).to_string());
    });
    alone("initialiser lists", [](Log& l) {
        value v = json::object { { "a", 1 }, { "b", json::array { 1, 2 } } };
        json::array a { 1, "x", nullptr };
        json::object o { { "k", a }, { "v", v } };
        l.text(o.format());
    });
    alone("edit", [](Log& l) {
        json::object o;
        o["a"]["b"] = 1;
        o["c"] = json::array { 1 };
        o["c"] += json::array { 2 };
        o.emplace("d", 1);
        o.erase("a");
        o |= json::object { { "e", 1 } };
        value v = o;
        v["c"][0] = "z";
        v["c"].erase(size_t(1));
        value w = std::move(v);
        std::swap(v, w);
        l.text(v.to_string());
        l.text(o.to_string());
    });
    alone("struct out", [](Log& l) {
        Rec r { 1.5, 2, { 1, 2 }, Color::green, { { "k", { 1, "x", Color::BLUE } } }, S("v"), std::make_shared<Leaf>() };
        l.text(value(r).to_string());
        l.text(r.to_json().format());
    });
    alone("struct in", [](Log& l) {
        value in = json::object { { "d", 1.5 }, { "ii", 3 }, { "f", json::array { 1, 2 } }, { "c", "BLUE" }, { "leaves", json::object { { "q", json::object { { "x", 1 } } } } } };
        Rec r = in.as<Rec>();
        l.num(int(r.c));
        l.num(r.leaves.size());
    });
    alone("struct refused", [](Log& l) {
        S bad;
        Rec r;
        l.num(r.from_json(json::object { { "d", "x" } }, bad));
        l.text(bad);
        l.num(value(3).is<Rec>());
        l.num(value(json::object {}).as<Rec>().i);
    });
    alone("own types", [](Log& l) {
        l.text(value(Own { "x" }).to_string());
        l.text(value(std::vector<Own> { { "x" }, { "y" } }).to_string());
        l.text(value(Far { 1, 2 }).to_string());
        l.num(value(json::array { 3, 4 }).as<Far>().b);
    });
    alone("enum out", [](Log& l) {
        l.text(value(Color::green).to_string());
        l.text(value(some).to_string());
        l.text(value(std::vector<Color> { Color::red, Color::BLUE }).to_string());
    });
    alone("enum out refused", [](Log& l) { l.text(value(Color(3)).to_string()); });
    alone("enum in", [](Log& l) {
        l.num(int(value("GREEN").as<Color>()));
        l.num(int(value(9).as<Color>()));
        l.num(int(value("some").as<Plain>()));
        l.num(value("nothing").is<Color>());
    });
    alone("enum in refused", [](Log& l) { l.num(int(value("nothing").as<Color>())); });
    alone("wrong type", [](Log& l) { l.num(value("x").as_integer()); });
    alone("missing key", [](Log& l) { l.num(json::object { { "a", 1 } }.at("b").as_integer()); });
    alone("wrong kind", [](Log& l) { l.num(value(1).as_array().size()); });
    // the same kinds of work on values of a size
    static const auto rep = [](const S& x) {
        S r;
        while (r.size() < g_size) r += x;
        return r;
    };
    static const auto tree = [](int what) {
        Node a = what == 0 || what == 3 ? ref::arr() : ref::obj();
        for (size_t i = 0; i < g_size; ++i) {
            if (what == 0) a.a.push_back(i % 5 ? ref::num(std::to_string(i)) : ref::str("t\n" + std::to_string(i)));
            if (what == 1) a.o[dm::key(i)] = i % 3 ? ref::num("-" + std::to_string(i) + ".5") : ref::arr({ ref::null() });
            if (what == 2) a.o[S(i % 90, 'k') + std::to_string(i)] = ref::str("v");
        }
        if (what == 3) return dm::nest(std::min<size_t>(g_size, 150), 2);
        return a;
    };
    for (int w = 0; w < 4; ++w) {
        alone("parse a larger text " + std::to_string(w), [w](Log& l) {
            const Node n = tree(w);
            auto p = json::parse(ref::dump(n)), q = json::parsec("/*" + rep("c") + "*/" + ref::format(n));
            l.text(p ? p->to_string() : "-");
            l.text(q ? q->format() : "-");
            if (p && q) l.num(*p == *q);
            l.num(bool(json::parse(ref::dump(n) + "x")));
        });
        alone("build, copy and serialise a larger value " + std::to_string(w), [w](Log& l) {
            value v = ref::build(tree(w)), c = v;
            l.text(v.to_string());
            l.text(c.dumps(3));
            l.num(c == v);
            value m = std::move(c);
            std::ostringstream o;
            o << m;
            l.text(o.str());
            l.num(m.is<std::vector<int>>() + 2 * m.is<std::map<S, S>>() + 4 * m.is<std::map<S, value>>());
        });
    }
    alone("larger strings", [](Log& l) {
        for (const S& x : { rep("x"), rep("x") + "\n", rep("\""), rep("\x01"), rep("\xe4\xb8\xad"), rep("xyz\\") }) {
            value v = x;
            l.text(v.to_string());
            l.text(json::object { { x, v } }.format());
        }
    });
    alone("larger texts of strings", [](Log& l) {
        for (const S& x : { rep("x"), rep("x") + "\\n", rep("\\\""), rep("\\u00e9"), rep("\\ud83d\\ude00"), rep("\xe4\xb8\xad"), rep("x\\/") }) {
            auto p = json::parse("[\"" + x + "\",{\"" + x + "\":1}]");
            l.text(p ? p->to_string() : "-");
            l.num(bool(json::parse("[\"" + x)));
        }
    });
    alone("larger numbers", [](Log& l) {
        for (const S& x : { dm::digits(g_size + 1, 1), "-" + dm::digits(g_size + 1, 3), "0." + dm::digits(g_size + 1, 2), "1." + dm::digits(g_size + 1, 2) + "e-9", S("1e+") + S(g_size, '0') + "1" }) {
            auto p = json::parse("[" + x + "]");
            l.text(p ? p->to_string() : "-");
            if (!p) continue;
            value v = p->at(0);
            l.run([&] { l.num(v.as_double()); });
            l.run([&] { l.num(v.as_float()); });
            l.run([&] { l.num(v.as_long_double()); });
            l.run([&] { l.num(v.as_integer()); });
            l.run([&] { l.num(v.as_unsigned_long_long()); });
            l.num(v.is<int>() + 2 * v.is<double>() + 4 * v.is<unsigned char>());
        }
    });
    alone("larger containers", [](Log& l) {
        std::vector<int> a(g_size, 3);
        std::map<S, int> m;
        std::vector<S> s(g_size, "text");
        for (size_t i = 0; i < g_size; ++i) m[dm::key(i)] = int(i);
        value v = a, w = m, x = s;
        l.num(v.as<std::vector<int>>() == a);
        l.num(w.as<std::map<S, int>>() == m);
        l.num(x.as<std::vector<S>>() == s);
        l.num(v.all<int>() + 2 * x.all<int>() + 4 * w.all<int>());
        l.text((v + std::move(x).as_array()).to_string());
        v.emplace("odd one");
        l.num(v.is<std::vector<int>>());
        l.run([&] { l.num(v.as<std::vector<int>>().size()); });
    });
    alone("larger edits", [](Log& l) {
        json::array a;
        json::object o;
        for (size_t i = 0; i < g_size; ++i) a.emplace_back(i), o[dm::key(i)] = i, o.emplace("x" + std::to_string(i), a.size());
        json::array b = a;
        b += a;
        a += std::move(b);
        for (size_t i = 0; i < g_size; i += 3) o.erase(dm::key(i)), a.erase(a.size() - 1);
        json::object p = o;
        p |= json::object { { "k0000001", "new" } };
        o |= std::move(p);
        l.text(a.to_string());
        l.text(o.format());
        l.num(o.contains(dm::key(g_size)));
        l.text(o.get(dm::key(g_size / 2), S("none")));
    });
    alone("larger structs", [](Log& l) {
        Rec r;
        r.f.assign(g_size, 1.5f);
        for (size_t i = 0; i < g_size; ++i) r.leaves[dm::key(i)] = Leaf { int(i), i % 2 ? std::optional<S>(rep("s")) : std::nullopt, Color::green };
        value v = r;
        Rec q = v.as<Rec>();
        l.text(value(q).to_string());
        v["leaves"].emplace("bad", 1);
        S bad;
        l.num(q.check_json(v, bad));
        l.text(bad);
    });
    alone("larger refusals", [](Log& l) {
        l.run([&] { l.num(value(rep("text")).as_integer()); });
        l.run([&] { l.num(value(value::value_type::number, rep("9")).as_integer()); });
        l.run([&] { l.num(value(rep("text")).as<Color>() == Color::red); });
        l.run([&] { l.num(json::object { { "a", 1 } }.at(rep("key")).as_integer()); });
        l.run([&] { l.num(ref::build(tree(0)).as_object().size()); });
        l.run([&] { l.num(ref::build(tree(1)).as_array().size()); });
    });
    alone("numbers out", [](Log& l) {
        for (const char* t : { "0", "-1", "1.5", "1e5", "4294967296", "1e400", "4.9e-324" }) {
            value v(value::value_type::number, t);
            l.run([&] { l.num(v.as_double()); });
            l.run([&] { l.num(v.as_integer()); });
            l.run([&] { l.num(v.as_float()); });
            l.run([&] { l.num(v.as_long_double()); });
        }
    });
}

// ---- running ----

static race::Box* g_box; // one for every exploring process
static race::Box& box()
{
    if (!g_box) g_box = static_cast<race::Box*>(mmap(nullptr, sizeof(race::Box), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    return *g_box;
}
struct Ctx
{
    std::vector<int> ops;
    const value* v;
};
static void body(int t, void* c)
{
    const Ctx& x = *static_cast<const Ctx*>(c);
    Log l;
    g_ops[x.ops[t]].f(l, *x.v); // operations that work alone do not look at it
    race::done();
    g_box->hash[t] = mc::hash(l.s);
    if (t < 8) snprintf(g_box->text[t], race::kText, "%s", mc::show(l.s, 1000).c_str());
}

template <typename F>
static void in_child(F&& f)
{
    fflush(nullptr);
    g_box->finished = 0;
    g_box->race = g_box->deadlock = 0;
    pid_t p = fork();
    if (p < 0) mc::fail("fork failed");
    if (p == 0) {
        f();
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (st) mc::fail("a run died with status " + std::to_string(st));
}
static S where(uint64_t pc)
{
    char cmd[600], exe[400] = {};
    if (readlink("/proc/self/exe", exe, sizeof exe - 1) < 0) return "?";
    extern char __executable_start;
    snprintf(cmd, sizeof cmd, "addr2line -Cfsp -e '%s' 0x%llx 2>/dev/null", exe, (unsigned long long)(pc - 1 - uint64_t(&__executable_start)));
    FILE* f = popen(cmd, "r");
    if (!f) return "?";
    S r;
    char b[1000];
    if (fgets(b, sizeof b, f)) r = b;
    pclose(f);
    while (!r.empty() && r.back() == '\n') r.pop_back();
    return r.substr(0, 500);
}
static const char* kind(int k) { return k & 4 ? "frees" : k & 2 ? (k & 1 ? "updates (atomically)" : "reads (atomically)") : k & 1 ? "writes" : "reads"; }
static S names(const Ctx& c)
{
    S r;
    for (int o : c.ops) r += (r.empty() ? "" : " || ") + g_ops[o].name;
    return r;
}
static void no_race(const Ctx& c)
{
    auto& b = box();
    if (b.race)
        mc::fail("data race between [" + g_ops[c.ops[b.ra]].name + "] and [" + g_ops[c.ops[b.rb]].name + "] on " + (b.rstatic ? "static memory" : "memory on the heap") + ": the first " + kind(b.rakind) + " at "
                 + where(b.rapc) + "; the second " + kind(b.rbkind) + " at " + where(b.rbpc));
    if (b.full) mc::fail("the monitor ran out of room");
    if (b.deadlock) mc::fail("the threads block each other: " + names(c));
    if (!b.finished) mc::fail("the run did not finish: " + names(c));
}

// what every operation gives alone, in a fresh process, on the rich tree
struct Solo
{
    uint64_t hash;
    S text;
    uint64_t points;
};
static std::vector<Solo> g_solo;
static void want_solo(int op)
{
    if (g_solo.empty()) g_solo.resize(g_ops.size());
    if (!g_solo[op].text.empty()) return;
    Ctx c { { op }, nullptr };
    auto& b = box();
    b.threads = 1;
    b.mode = race::Serial;
    b.order[0] = 0;
    b.nconf = 0;
    in_child([&] {
        value v;
        if (g_ops[op].shared) v = ref::build(g_rich), c.v = &v;
        if (g_ops[op].prepare) g_ops[op].prepare(v);
        race::run(g_box, body, &c);
    });
    no_race(c);
    g_solo[op] = { b.hash[0], b.text[0], b.points[0] };
}
static void same(const Ctx& c, const S& how)
{
    for (size_t t = 0; t < c.ops.size(); ++t)
        if (g_box->hash[t] != g_solo[c.ops[t]].hash)
            mc::fail("[" + g_ops[c.ops[t]].name + "] gave " + (t < 8 ? S(g_box->text[t]) : "something else") + " with [" + names(c) + "] " + how + "; alone it gives " + g_solo[c.ops[t]].text);
}
static S schedule()
{
    S r = "under the schedule";
    for (int i = 0; i < g_box->nchoice; ++i) r += " " + std::to_string(g_box->choice[i]) + "/" + std::to_string(g_box->options[i]);
    return r;
}

// All schedules, up to `bound` preemptions, that differ in the order of accesses to contended places.  While nothing
// is contended all schedules are equivalent to the serial ones, which are run in every order.
static void explore(std::vector<int> ops, int bound, uint64_t cap)
{
    for (int o : ops) want_solo(o);
    Ctx c { ops, nullptr };
    bool any = false;
    for (int o : ops) any |= g_ops[o].shared;
    auto& b = box();
    b.nconf = 0;
    std::vector<uint8_t> prefix;
    uint64_t runs = 0;
    for (;;) {
        b.threads = int(ops.size());
        b.mode = race::Explore;
        b.bound = bound;
        for (size_t i = 0; i < ops.size(); ++i) b.order[i] = int(i);
        b.nprefix = int(prefix.size());
        std::copy(prefix.begin(), prefix.end(), b.choice);
        int conf = b.nconf;
        in_child([&] {
            value v;
            if (any) v = ref::build(g_rich), c.v = &v;
            for (int o : c.ops)
                if (g_ops[o].prepare) g_ops[o].prepare(v);
            race::run(g_box, body, &c);
        });
        ++runs;
        mc::step(b.switches + 1);
        no_race(c);
        same(c, schedule());
        mc::validated();
        for (size_t t = 0; t < ops.size(); ++t) mc::g->user[0] += b.accesses[t];
        if (runs >= cap) {
            mc::g->user[1]++;
            break;
        }
        if (b.nconf != conf) { // newly found contention: start over with decisions there
            prefix.clear();
            continue;
        }
        prefix.assign(b.choice, b.choice + b.nchoice);
        while (!prefix.empty() && prefix.back() + 1 >= b.options[prefix.size() - 1]) prefix.pop_back();
        if (prefix.empty()) break;
        prefix.back()++;
    }
    mc::g->user[2] += b.nconf > 0;
    mc::state(names(c), 29);
    if (b.nconf && getenv("MC_SHOW_CONF")) {
        S m;
        for (int i = 0; i < b.nconf && i < 8; ++i) m += " " + std::to_string(b.conf[i] * 8 - uint64_t(&__executable_start));
        mc::fail(m + " " + kind(b.last_kind[0]) + " " + where(b.last_conf[0]) + " / " + kind(b.last_kind[1]) + " " + where(b.last_conf[1]));
    }
    mc::outcome(mc::hash(std::to_string(b.nconf) + g_solo[ops[0]].text));
}

// Every operation in a thread of its own on one shared tree: any two that touch the same place are found at once.
static void footprints(const Node& n, bool backwards, bool parsed, std::vector<int> ops = {})
{
    auto& b = box();
    Ctx c;
    c.v = nullptr;
    if (ops.empty())
        for (int i = 0; i < int(g_ops.size()); ++i) ops.push_back(i);
    c.ops = std::move(ops);
    const int N = int(c.ops.size());
    b.threads = N;
    b.mode = race::Serial;
    b.nconf = 0;
    b.conf_full = 0;
    for (int i = 0; i < N; ++i) b.order[i] = backwards ? N - 1 - i : i;
    in_child([&] {
        value v;
        if (parsed) v = *json::parse("[" + ref::dump(n) + "]"), v = value(v.at(0));
        else v = ref::build(n);
        c.v = &v;
        for (int o : c.ops)
            if (g_ops[o].prepare) g_ops[o].prepare(v);
        race::run(g_box, body, &c);
    });
    no_race(c);
    mc::step(b.switches);
    uint64_t h = 0;
    std::vector<uint64_t> got(b.hash, b.hash + N);
    for (int i = 0; i < N; ++i) {
        mc::g->user[0] += b.accesses[i];
        h = mc::mix(h ^ b.points[i]);
    }
    mc::state(ref::dump(n), 290 + backwards);
    mc::outcome(h);
    // the same without other threads
    in_child([&] {
        value v = ref::build(n);
        for (int i = 0; i < N; ++i) {
            Log l;
            auto& o = g_ops[c.ops[i]];
            if (o.prepare) o.prepare(v);
            o.f(l, v);
            b.hash[i] = mc::hash(l.s);
        }
    });
    for (int i = 0; i < N; ++i)
        mc::check(got[i] == b.hash[i], [&] { return "[" + g_ops[c.ops[i]].name + "] gives something else beside the other threads on " + ref::dump(n); });
    mc::validated(N);
}

// One thread stopped before each of its accesses in turn while the other runs.
static void preempt(int x, int y, uint64_t second)
{
    want_solo(x);
    want_solo(y);
    Ctx c { { x, y }, nullptr };
    auto& b = box();
    b.threads = 2;
    b.order[0] = 0;
    b.order[1] = 1;
    b.nconf = 0;
    struct Out
    {
        uint64_t bad_at, bad_at2, runs, accesses;
    };
    static Out* out;
    if (!out) out = static_cast<Out*>(mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    *out = {};
    in_child([&] {
        value v = ref::build(g_rich);
        c.v = &v;
        for (int o : c.ops)
            if (g_ops[o].prepare) g_ops[o].prepare(v);
        b.mode = race::At;
        auto bad = [&] { return b.race || b.deadlock || b.hash[0] != g_solo[x].hash || b.hash[1] != g_solo[y].hash; };
        auto one = [&](uint64_t k, uint64_t j) {
            b.at = k;
            b.at2 = j;
            race::run(g_box, body, &c);
            ++out->runs;
            out->accesses += b.accesses[0] + b.accesses[1];
            if (bad()) {
                out->bad_at = k;
                out->bad_at2 = j;
                _exit(0);
            }
        };
        one(~0ull, 0); // serial
        const uint64_t n = b.points[0], m = b.points[1];
        for (uint64_t k = 1; k <= n; ++k) one(k, 0);
        if (second)
            for (uint64_t k = 1; k <= n; k += std::max<uint64_t>(1, n / second))
                for (uint64_t j = 1; j <= m; j += std::max<uint64_t>(1, m / second)) one(k, j);
    });
    no_race(c);
    if (out->bad_at) same(c, "stopped at access " + std::to_string(out->bad_at) + (out->bad_at2 ? ", the other at " + std::to_string(out->bad_at2) : ""));
    mc::step(out->runs);
    mc::validated(out->runs);
    mc::g->user[0] += out->accesses;
    mc::statei(uint64_t(x) * 1000 + y, 2900);
}

static void setup(mc::Engine& e)
{
    const bool th = mc::thorough();
    // the standard library's own caches, which it fills without locks
    {
        std::ostringstream o;
        for (int i = 0; i < 256; ++i) o.narrow(char(i), 0), o.widen(char(i));
        o << 1.5 << 7 << true << std::hex << 7ul << "x" << 'c' << (void*)0;
        std::istringstream s("1 1.5");
        int i;
        double d;
        s >> i >> d;
        std::ofstream f(mc::g_scratch + "/doc.json");
        f << "{\"a\":[1,2,\"\\u00e9\"]}";
    }
    // nothing of the library is used in this process
    using namespace ref;
    g_rich = obj({ { "a", arr({ num("1"), num("-2.5e3"), str("x\n\"\xc3\xa9"), null(), boolean(true), obj({ { "b", obj() } }) }) }, { "k", obj({ { "x", num("1") }, { "y", arr({ num("1"), num("2"), num("3") }) } }) },
                   { "s", str("a text that is not short at all") }, { "n", num("123456789012") }, { "e", arr() }, { "g", str("green") }, { "five", num("5") }, { "own", str("mine") }, { "pair", arr({ num("1"), str("q") }) },
                   { "rec", obj({ { "d", num("1.5") }, { "ii", num("7") }, { "f", arr({ num("1"), num("2") }) }, { "c", str("green") }, { "leaves", obj({ { "l", obj({ { "x", num("3") } }) } }) } }) } });
#ifdef MC_PART
    type_ops();
    g_trees = tr::flat(tr::trees(th ? 5 : 3, { null(), boolean(true), num("7"), str("a") }, { "a", "b" }));
#else
    base_ops();
    g_trees = tr::flat(tr::trees(th ? 4 : 3, { null(), boolean(true), num("-1.5e+3"), num("7"), str("a\n"), str("green") }, { "a", "k", "x" }));
#endif
    g_trees.push_back(g_rich);
    const uint64_t N = g_ops.size();
    if (N > size_t(race::kThreads)) abort();
    static std::vector<int> sized, strings, readers;
    for (int i = 0; i < int(N); ++i) {
        if (g_ops[i].shared) readers.push_back(i);
        if (g_ops[i].name.find("larger") != S::npos) sized.insert(sized.end(), 2, i);
        if (g_ops[i].name.find("larger strings") != S::npos || g_ops[i].name.find("larger texts") != S::npos || g_ops[i].name.find("larger numbers") != S::npos) strings.insert(strings.end(), 2, i);
    }
    dm::add_sizes(e, "footprints at every size", dm::ladder(th ? 70 : 20, th ? 8192 : 2048), [](size_t n) {
        g_size = n;
        using namespace ref;
        Node a = arr(), o = obj(), t = arr();
        const size_t few = std::min<size_t>(n, mc::thorough() ? 1024 : 256);
        for (size_t i = 0; i < few; ++i) {
            a.a.push_back(num(std::to_string(i)));
            o.o[dm::key(i)] = i % 2 ? str("t\n") : num("1.5");
        }
        const Node s = obj({ { "a", str(S(n, 'x') + "\n") }, { S(n, 'k'), num(dm::digits(n + 1, 1)) }, { "b", num("0." + dm::digits(n + 1, 1)) } });
        try {
            if (!sized.empty()) footprints(null(), n % 2, false, n < 600 ? sized : strings);
            footprints(s, n % 2, n % 2, readers);
            if (few < n) return;
            for (auto& x : { a, o, dm::nest(std::min<size_t>(n, 60), 2) }) footprints(x, n % 2, n % 2, readers);
        }
        catch (mc::Violation& v) {
            v.msg = v.msg.substr(0, 700);
            throw v;
        }
    });
    e.add("footprints", g_trees.size() * 2, [](uint64_t i) { footprints(g_trees[i / 2], i % 2, i % 2); }, [](uint64_t i) { return ref::dump(g_trees[i / 2]) + (i % 2 ? " parsed, backwards" : ""); }, 4, 60);
#ifndef MC_PART
    e.add("pairs", N * (N + 1) / 2, [](uint64_t i) {
        uint64_t y = 0;
        while ((y + 1) * (y + 2) / 2 <= i) ++y;
        explore({ int(i - y * (y + 1) / 2), int(y) }, 2, mc::thorough() ? 5000 : 60);
    }, [](uint64_t i) {
        uint64_t y = 0;
        while ((y + 1) * (y + 2) / 2 <= i) ++y;
        return g_ops[i - y * (y + 1) / 2].name + " || " + g_ops[y].name;
    }, 8, 120);
    static std::vector<int> core;
    for (S n : { S("to_string"), S("<<"), S("copy"), S("as_double"), S("get"), S("to a struct"), S("at past the end"), S("to an enum"), S("parse [1,-2.5e+3,0]"), S("make numbers"), S("make strings"), S("edit"), S("struct in"), S("enum out"), S("wrong type") })
        for (int i = 0; i < int(N); ++i)
            if (g_ops[i].name == n) core.push_back(i);
    const uint64_t C = core.size();
    static std::vector<int> three = th ? [&] { std::vector<int> a; for (int i = 0; i < int(N); i += 3) a.push_back(i); return a; }() : core;
    const uint64_t T = three.size();
    e.add("triples", T * T * T, [T](uint64_t i) {
        mc::Dec d(i);
        int a = int(d(T)), b = int(d(T)), c = int(d(T));
        if (a <= b && b <= c) explore({ three[a], three[b], three[c] }, 2, mc::thorough() ? 2000 : 40);
    }, [T](uint64_t i) {
        mc::Dec d(i);
        S r;
        for (int k = 0; k < 3; ++k) r += (k ? " || " : "") + g_ops[three[d(T)]].name;
        return r;
    }, 16, 120);
    static std::vector<int> stop = core;
    if (th) {
        stop.clear();
        for (int i = 0; i < int(N); ++i) stop.push_back(i);
    }
    const uint64_t P = stop.size();
    e.add("every single preemption", P * P, [P](uint64_t i) { preempt(stop[i / P], stop[i % P], mc::thorough() ? 24 : 0); },
          [P](uint64_t i) { return g_ops[stop[i / P]].name + " || " + g_ops[stop[i % P]].name; }, 1, 120);
    e.notes.push_back("base: " + std::to_string(N) + " operations, " + std::to_string(C) + " of them in triples and under every preemption");
#else
    e.add("self pairs", N, [](uint64_t i) { explore({ int(i), int(i) }, 2, mc::thorough() ? 5000 : 60); }, [](uint64_t i) { return g_ops[i].name + " || itself"; }, 1, 120);
    e.notes.push_back(std::to_string(N) + " operations over a type family");
#endif
}
MC_MAIN(setup)
