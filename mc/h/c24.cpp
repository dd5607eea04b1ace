// C24: enumerators and their names.
#include "enums.hpp"
#include "engine.hpp"
#include "dims.hpp"
using ref::Node;
using S = std::string;
using en::V;

static char lower(char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; }
static bool ieq(const S& a, const S& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (lower(a[i]) != lower(b[i])) return false;
    return true;
}

// values worth trying: around the range, around every named value and every power of two, and copies of these with
// higher bits changed
static std::vector<V> values(const en::Case& c)
{
    std::set<V> s;
    auto add = [&](V v) {
        if (v >= c.umin && v <= c.umax) s.insert(v);
    };
    const V slack = mc::thorough() ? 300 : 40;
    for (V v = c.lo - slack; v <= c.hi + slack; ++v) add(v);
    std::vector<V> base { c.lo, c.hi, 0, c.umin, c.umax };
    for (auto& n : c.names) base.push_back(n.value);
    for (int k = 0; k < 64; ++k) {
        const V p = V(1) << k;
        for (V d = -3; d <= 3; ++d) add(p + d), add(-p + d);
        for (V b : base)
            {
            add(b + p), add(b - p), add(b ^ p);
            if (mc::thorough()) add(b + p + 1), add(b + p - 1), add(b - p + 1), add(b - p - 1);
        }
    }
    if (c.umax - c.umin < (mc::thorough() || c.reads == en::kReads ? 70000 : 300))
        for (V v = c.umin; v <= c.umax; ++v) add(v);
    return { s.begin(), s.end() };
}
static std::vector<S> texts(const en::Case& c)
{
    std::set<S> s { "" };
    for (auto& n : c.names) {
        const S& t = n.name;
        std::vector<size_t> letters;
        for (size_t i = 0; i < t.size(); ++i)
            if (lower(t[i]) != t[i] || (t[i] >= 'a' && t[i] <= 'z')) letters.push_back(i);
        auto toggle = [](S& x, size_t i) { x[i] = char(x[i] ^ 0x20); };
        if (letters.size() <= 8)
            for (size_t m = 0; m < (size_t(1) << letters.size()); ++m) {
                S x = t;
                for (size_t b = 0; b < letters.size(); ++b)
                    if (m >> b & 1) toggle(x, letters[b]);
                s.insert(x);
            }
        else {
            S up = t, lo = t;
            for (size_t i : letters) up[i] = char(up[i] & ~0x20), lo[i] = lower(lo[i]);
            s.insert(up), s.insert(lo);
            for (size_t i : letters) {
                S x = t, y = up;
                toggle(x, i), toggle(y, i);
                s.insert(x), s.insert(y);
            }
        }
        const bool big = t.size() > 40;
        for (size_t i = 0; i <= t.size(); ++i) {
            if (big && !mc::thorough() && i > 2 && i + 3 < t.size() && i % 61) continue;
            s.insert(t.substr(0, i));
            s.insert(t.substr(i));
            if (i < t.size()) s.insert(S(t).erase(i, 1));
            if (i + 1 < t.size()) {
                S x = t;
                std::swap(x[i], x[i + 1]);
                s.insert(x);
            }
            for (int ch = 0; ch < 256; ++ch) {
                if ((big || (i > 1 && i + 2 < t.size())) && !mc::thorough() && ch % 7 && (ch ^ int((unsigned char)t[i < t.size() ? i : 0])) != 0x20) continue;
                s.insert(S(t).insert(i, 1, char(ch)));
                if (i < t.size()) {
                    S x = t;
                    x[i] = char(ch);
                    s.insert(x);
                }
            }
        }
        s.insert(t + t);
        s.insert("::" + t), s.insert("E::" + t), s.insert("\"" + t + "\""), s.insert(en::str(n.value));
        for (auto& m : c.names) s.insert(t + m.name), s.insert(t + "|" + m.name), s.insert(t + "," + m.name);
    }
    // a name with something of every length before or behind it
    if (!c.names.empty())
        for (auto* n : { &c.names.front(), &c.names.back() })
            for (size_t k : dm::ladder(40, mc::thorough() ? 4096 : 512))
                for (char ch : { 'x', ' ', '\0', '_' }) {
                    s.insert(n->name + S(k, ch));
                    s.insert(S(k, ch) + n->name);
                }
    // what compilers print for values without a name, and texts of the implementation's own making
    for (S x : { "0", "1", "-1", "5", "(E)1", "(E0)5", "_MEOJSON_ENUM", "MEOJSON_ENUM_RANGE", "null", "true", "E", "V = ", "true;" }) s.insert(x);
    static const S ab = "aAbBzZ_019 -";
    for (unsigned len = 1; len <= (mc::thorough() ? 4u : 3u); ++len)
        for (uint64_t i = 0; i < mc::ipow(ab.size(), len); ++i) {
            mc::Dec d(i);
            S x;
            for (unsigned k = 0; k < len; ++k) x += ab[d(ab.size())];
            s.insert(x);
        }
    return { s.begin(), s.end() };
}

struct Expect
{
    bool open = false, refused = false;
    std::set<V> any;
};
static Expect expect(const en::Case& c, const Node& n)
{
    Expect e;
    if (n.k == ref::Num) {
        V v;
        if (fam::M<int>::parse(n.s, v) && v >= c.umin && v <= c.umax) e.any = { v };
        else e.refused = true;
        return e;
    }
    if (n.k != ref::Str) {
        e.refused = true;
        return e;
    }
    auto in = [&](const en::Name& m) { return m.value >= c.lo && m.value <= c.hi; };
    auto aliased = [&](const en::Name& m) {
        return std::count_if(c.names.begin(), c.names.end(), [&](auto& o) { return o.value == m.value; }) > 1;
    };
    if (n.s == "_MEOJSON_ENUM_MIN" || n.s == "_MEOJSON_ENUM_MAX") e.open = true;
    for (auto& m : c.names)
        if (m.name == n.s) {
            if (!in(m)) e.open = true;
            // a second name of a value may or may not be known, but must not mean anything else
            if (aliased(m)) e.open = true;
            e.any = { m.value };
            return e;
        }
    for (auto& m : c.names)
        if (ieq(m.name, n.s)) {
            if (!in(m) || aliased(m)) e.open = true;
            e.any.insert(m.value);
        }
    if (e.any.empty() && !e.open) e.refused = true;
    return e;
}

static void read_all(en::Case& c, const Node& n, size_t turn)
{
    const Expect e = expect(c, n);
    const json::value v = ref::build(n);
    auto what = [&](const char* route) { return c.name + ": " + route + " of " + ref::dump(n); };
    const bool is = c.is(v);
    mc::step();
    if (!e.open && is != !e.refused) mc::fail(what("is") + (is ? " accepts" : " refuses"));
    for (int r = 0; r < 4; ++r) {
        mc::step();
        if (c.is_nested(v, r) != is) mc::fail(what("nested is") + " disagrees with is, route " + std::to_string(r));
    }
    int got = -1;
    for (int r = 0; r < c.reads; ++r) {
        // every refusal is tried on as<> and, in turn, on one other route
        if (e.refused && !mc::thorough() && r && r != int(turn % size_t(c.reads))) continue;
        if (n.k == ref::Null && (r == 6 || r == 10)) continue; // null of an optional or pointer is no enumerator
        V x = 0;
        bool ok = true;
        mc::step();
        try {
            x = c.read(v, r);
        }
        catch (const std::exception&) {
            ok = false;
        }
        if (ok != is) mc::fail(what(en::kReadName[r]) + (ok ? " gives a value that is<> refuses" : " is refused although is<> accepts"));
        if (ok && !e.any.empty() && !e.any.count(x)) mc::fail(what(en::kReadName[r]) + " gives " + en::str(x));
        if (ok && e.any.empty() && !e.open) mc::fail(what(en::kReadName[r]) + " gives " + en::str(x) + " instead of refusing");
        got = ok;
    }
    mc::outcome(uint64_t(got + 1) * 2 + is);
    ref::expect(v, n, "source after reading");
}
static void write_all(en::Case& c, V x)
{
    std::vector<S> names;
    for (auto& m : c.names)
        if (m.value == x) names.push_back(m.name);
    const bool in = x >= c.lo && x <= c.hi;
    S first;
    for (int r = 0; r < c.writes; ++r) {
        auto what = [&] { return c.name + ": " + en::kWriteName[r] + " of " + en::str(x); };
        json::value v;
        bool ok = true;
        mc::step();
        try {
            v = c.write(x, r);
        }
        catch (const std::exception&) {
            ok = false;
        }
#ifdef MEOJSON_ENUM_AS_NUMBER
        if (!ok) mc::fail(what() + " is refused");
        const Node got = ref::num(en::str(x));
        ref::expect(v, got, what().c_str());
        (void)in;
#else
        if (!in && !names.empty() && !ok) continue; // named, but outside the declared range
        if (names.empty()) {
            // the range markers are enumerators too
            if (ok && !(v.is_string() && (v.as_string() == "_MEOJSON_ENUM_MIN" || v.as_string() == "_MEOJSON_ENUM_MAX") && (x == c.lo || x == c.hi)))
                mc::fail(what() + " has no name but gives " + v.to_string());
            continue;
        }
        if (!ok) mc::fail(what() + " is refused");
        const Node got = ref::readout(v);
        if (got.k != ref::Str || std::find(names.begin(), names.end(), got.s) == names.end()) mc::fail(what() + " gives " + ref::dump(got));
#endif
        if (r) {
            if (got.s != first) mc::fail(what() + " gives " + got.s + ", but value(e) gives " + first);
            continue;
        }
        first = got.s;
        // and back, on every route
        for (int q = 0; q < c.reads; ++q) {
            mc::step();
            V y = 0;
            try {
                y = c.read(v, q);
            }
            catch (const std::exception& ex) {
                mc::fail(what() + ": " + v.to_string() + " is refused by " + en::kReadName[q]);
            }
            if (y != x) mc::fail(what() + ": " + v.to_string() + " is read back as " + en::str(y) + " by " + en::kReadName[q]);
        }
        mc::validated();
    }
}

static std::vector<Node> others(const en::Case& c)
{
    std::vector<Node> r { ref::null(), ref::boolean(true), ref::boolean(false), ref::arr(), ref::arr({ ref::num("1") }), ref::obj(), ref::obj({ { "k", ref::num("1") } }) };
    for (S t : { "0.5", "1.5", "1e2", "1E0", "-1.0", "1.0", "99999999999999999999999999", "-99999999999999999999", "1e400" }) r.push_back(ref::num(t));
    for (size_t k : dm::ladder(45, mc::thorough() ? 4096 : 512))
        if (k > 20)
            for (S sign : { "", "-" }) {
                r.push_back(ref::num(sign + dm::digits(k, 1)));
                r.push_back(ref::num(sign + "1." + S(k, '0')));
                r.push_back(ref::num(sign + "0." + dm::digits(k, 1)));
            }
    for (V b : { c.umin, c.umax })
        for (V d = -300; d <= 300; ++d)
            if (b + d < c.umin || b + d > c.umax) r.push_back(ref::num(en::str(b + d)));
    for (int k = 0; k < 70; ++k)
        for (V d = -2; d <= 2; ++d)
            for (auto s : { 1, -1 }) {
                const V v = s * (V(1) << k) + d;
                if (v < c.umin || v > c.umax) r.push_back(ref::num(en::str(v)));
                for (auto& n : c.names) {
                    const V w = n.value + v;
                    if (w < c.umin || w > c.umax) r.push_back(ref::num(en::str(w)));
                }
            }
    return r;
}

static void setup(mc::Engine& e)
{
    en::register_all();
    auto& cs = en::cases();
    struct Item
    {
        int c, kind;
        size_t lo, hi;
    };
    static std::vector<Item> items;
    static std::vector<std::vector<V>> vals;
    static std::vector<std::vector<S>> txts;
    static std::vector<std::vector<Node>> oth;
    static size_t total = 0;
    for (size_t i = 0; i < cs.size(); ++i) {
        vals.push_back(values(*cs[i]));
        txts.push_back(texts(*cs[i]));
        oth.push_back(others(*cs[i]));
        auto split = [&](int kind, size_t n) {
            for (size_t k = 0; k < n; k += 64) items.push_back({ int(i), kind, k, std::min(n, k + 64) });
            total += n;
        };
        split(0, vals[i].size()), split(1, txts[i].size()), split(2, oth[i].size());
    }
    e.notes.push_back(std::to_string(cs.size()) + " enumerations, " + std::to_string(total) + " values and texts");
    e.add(
        "enumerations x values x texts x routes", items.size(),
        [](uint64_t i) {
            const Item& it = items[i];
            auto& c = *en::cases()[size_t(it.c)];
            for (size_t k = it.lo; k < it.hi; ++k) {
                if (it.kind == 0) {
                    write_all(c, vals[size_t(it.c)][k]);
                    read_all(c, ref::num(en::str(vals[size_t(it.c)][k])), k);
                }
                else if (it.kind == 1) read_all(c, ref::str(txts[size_t(it.c)][k]), k);
                else read_all(c, oth[size_t(it.c)][k], k);
                mc::state(mc::mix(uint64_t(it.c) * 3 + uint64_t(it.kind)) ^ mc::mix(k));
                mc::validated();
            }
        },
        [](uint64_t i) { return en::cases()[size_t(items[i].c)]->name + " block " + std::to_string(items[i].kind) + "/" + std::to_string(items[i].lo); });
}
MC_MAIN(setup)
