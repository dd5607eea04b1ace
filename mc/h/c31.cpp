// C31: every size and every depth behaves by the same rules.
#include "build.hpp"
#include "bigedits.hpp"
#include "dims.hpp"
#include "spaces.hpp"
#include "trees.hpp"
#include <deque>
#include <list>
#include <malloc.h>
#include <set>
#include <sstream>
#include <unordered_map>
using json::value;
using ref::Node;
using S = std::string;
using namespace dm;

// ---- what must hold at every size ----

static bool same_tree(const value& v, const Node& n)
{
    if (v.type() != ref::jtype(n.k)) return false;
    if (n.k == ref::Arr) {
        auto& a = v.as_array();
        if (a.size() != n.a.size()) return false;
        size_t i = 0;
        for (auto& x : a)
            if (!same_tree(x, n.a[i++])) return false;
        return true;
    }
    if (n.k == ref::Obj) {
        auto& o = v.as_object();
        if (o.size() != n.o.size()) return false;
        auto i = n.o.begin();
        for (auto& [k, x] : o) {
            if (k != i->first || !same_tree(x, i->second)) return false;
            ++i;
        }
        return true;
    }
    if (n.k == ref::Str) return v.as_string() == n.s;
    return v.to_string() == n.s || n.k == ref::Null;
}
static void hold(const value& v, const Node& n, const char* what)
{
    mc::step();
    if (!same_tree(v, n)) {
        ref::expect(v, n, what);
        mc::fail(S(what) + ": another value");
    }
}
static void check_text(const S& t, bool jsonc, const Node& n, const char* what)
{
    auto p = jsonc ? json::parsec(t) : json::parse(t);
    must(bool(p), what);
    hold(*p, n, what);
}
static void document(const Dim& d, size_t size)
{
    const Node n = d.make(size);
    const bool big = d.deep ? size > 600 : size > 40000, bushy = !d.deep && size > 700;
    const S t = ref::dump(n);
    if (d.text) {
        const S w = d.text(size);
        check_text(w, true, n, "parsec");
        if (!d.jsonc) check_text(w, false, n, "parse");
        std::istringstream in(w);
        auto p = json::parse(in, false, true);
        must(bool(p), "parse a stream");
        hold(*p, n, "parse a stream");
        if (d.jsonc) must(!json::parse(w), "strict parser accepts comments");
        must(!json::parsec(w.substr(0, w.rfind(']'))), "cut short");
        if (d.name.compare(0, 10, "whitespace") == 0 || d.jsonc) {
            mc::validated();
            return;
        }
    }
    check_text(t, false, n, "parse");
    value v = ref::build(n);
    must(v.to_string() == t, "to_string");
    must(v.dumps() == t, "dumps");
    hold(v, n, "build");
    if (!d.deep || size <= 2100) {
        S f = v.dumps(1);
        must(f == ref::format(n, 1), "dumps(1)");
        check_text(f, false, n, "parse of dumps(1)");
    }
    if (!big) {
        check_text(t, true, n, "parsec");
        S f = v.format();
        must(f == ref::format(n), "format");
        check_text(f, false, n, "parse of format");
        std::istringstream in(t);
        auto p = json::parse(in);
        must(bool(p), "parse a stream");
        hold(*p, n, "parse a stream");
        std::vector<char> c(t.begin(), t.end());
        p = json::parse(c);
        must(bool(p), "parse a vector");
        must(*p == v, "parse a vector");
        std::ostringstream o;
        o << v;
        must(o.str() == f, "<<");
    }
    // cut short or continued, the text is not JSON
    must(!json::parse(t.substr(0, t.size() - 1)), "text without its last character accepted");
    must(!json::parse(t + t.back()), "text with a character too many accepted");
    must(!json::parse(t + "1"), "trailing text accepted");
    for (const char* junk : { ",", "x", "\x01", "1 1", "\"", "\\" }) {
        S w = t;
        w.insert(w.size() - 1, junk);
        if (!(junk[0] == '1' && t.size() == 2)) must(!json::parse(w), "text with something wrong before its last character accepted");
        if (t.size() > 3 && t[t.size() - 2] == '"') {
            w = t;
            w.insert(w.size() - 2, junk);
            const bool fine = junk[0] == ',' || junk[0] == 'x' || junk[0] == '1';
            must(bool(json::parse(w)) == fine, "text with something inserted at the end of a string");
        }
    }
    if (n.k == ref::Obj && !n.o.empty()) {
        // every key may stand once only, however many there are
        std::vector<const S*> ks;
        for (auto& m : n.o) ks.push_back(&m.first);
        for (size_t i : { size_t(0), size_t(1), ks.size() / 2, ks.size() - 1 })
            if (i < ks.size()) must(!json::parse(t.substr(0, t.size() - 1) + "," + ref::dump(ref::str(*ks[i])) + ":1}"), "repeated key accepted");
        check_text(t.substr(0, t.size() - 1) + ",\"\\u0000new\":1}", false, [&] { Node x = n; x.o[S("\0new", 4)] = ref::num("1"); return x; }(), "parse with one more member");
    }
    if (d.deep) must(!json::parse(t.substr(0, t.find('7'))), "unfinished nesting accepted");
    // copies, moves, comparisons
    {
        value c(v), e = "something", m;
        e = c;
        hold(e, n, "copy");
        must(e == v && v == c && !(c != v), "copies differ");
        m = std::move(c);
        must(m == v, "move assignment");
        c = value(std::move(m));
        must(c == v, "move construction");
        std::swap(c, e);
        must(e == c && e.to_string() == t, "swap");
        for (int how : { 0, 1 }) {
            Node x;
            if (!other(n, x, how)) continue;
            value y = ref::build(x);
            must(!(y == v) && !(v == y) && y != v && v != y, "values that differ in the last place are equal");
            e = y;
            must(e == y && e != c, "copy assignment over an equally large value");
        }
        e.clear();
        must(e.empty() && v == c, "clear");
    }
    {
        value w = json::array { v, v };
        json::object o { { "x", v } };
        o["y"] = v;
        must(w[0] == v && w[1] == v && o.at("x") == v && o["y"] == w[1], "put into containers");
        must(w.to_string() == "[" + t + "," + t + "]", "twice in an array");
        must(value(o).to_string() == "{\"x\":" + t + ",\"y\":" + t + "}", "twice in an object");
    }
    if (bushy || (d.deep && size > 120)) {
        mc::validated();
        return;
    }
    for (int r = 0; r < bd::kRoutes; ++r) {
        value w = bd::by(r, n);
        must(w == v, "building route");
        must(w.to_string() == t, "building route");
    }
    mc::validated();
}

// Random access to members at depth through chained lookups and edits.
static void deep_edits(size_t depth)
{
    value v = 7;
    for (size_t i = 0; i < depth; ++i) {
        if (i & 1) {
            json::object o;
            o.emplace("k", std::move(v));
            v = std::move(o);
        }
        else {
            json::array a;
            a.emplace_back(std::move(v));
            v = std::move(a);
        }
    }
    const value before = v;
    value* p = &v;
    const value* q = &before;
    for (size_t i = depth; i-- > 0;) {
        if (i & 1) {
            must(q->contains("k") && q->as_object().size() == 1, "member at depth");
            p = &(*p)["k"];
            q = &q->at("k");
        }
        else {
            must(q->contains(0) && q->as_array().size() == 1, "element at depth");
            p = &(*p)[0];
            q = &q->at(0);
        }
    }
    must(q->as_integer() == 7 && *p == 7, "innermost");
    *p = 8;
    must(q->as_integer() == 7, "the copy shares its innermost value");
    must(v != before || depth == 0 || !(v == before), "changed at depth but equal");
    must(!(v == before), "changed at depth but equal");
    *p = before; // twice as deep
    value c = v;
    must(c == v, "copy of twice the depth");
    auto t = c.to_string();
    auto r = json::parse(depth ? t : "[" + t + "]");
    must(bool(r), "parse of twice the depth");
    must(depth ? *r == v : r->at(0) == v, "parse of twice the depth");
    *p = nullptr;
    must(!(c == v), "cut");
    value inner = std::move(c);
    for (size_t i = depth; i-- > 0;) { // unwrap by moving a part out of its whole
        value next = (i & 1) ? std::move(inner["k"]) : std::move(inner[0]);
        inner = std::move(next);
    }
    must(inner == before, "unwrapped");
    mc::validated();
}

static void setup(mc::Engine& e)
{
    const bool th = mc::thorough();
    mallopt(M_MMAP_THRESHOLD, 1 << 30); // keep freed memory
    mallopt(M_TRIM_THRESHOLD, 1 << 30);
    mallopt(M_TOP_PAD, 64 << 20);
    static std::vector<Dim> g_dims = dims(th ? Reach { 4200, 1u << 20, 9000, 1u << 24, 4096, 1u << 16 } : Reach { 1100, 1u << 17, 2200, 1u << 20, 1100, 1u << 14 });
    for (auto& d : g_dims) {
        const Dim* p = &d;
        const uint64_t N = d.sizes.size();
        // the largest first, so that the work ends evenly
        e.add(d.name, N, [p, N](uint64_t i) {
            size_t n = p->sizes[N - 1 - i];
            mc::statei(n, mc::hash(p->name));
            mc::outcome(mc::hash(p->name, n));
            if (p->deep && n > 2050) roomy([&] { document(*p, n); });
            else document(*p, n);
        }, [p, N](uint64_t i) { return "size " + std::to_string(p->sizes[N - 1 - i]); }, 4, 60);
    }
    auto sizes = [](size_t all, size_t top) {
        std::set<size_t> s;
        for (size_t i = 0; i <= all; ++i) s.insert(i);
        for (size_t p = 1; p <= top; p *= 2)
            for (int o : { -1, 0, 1 }) s.insert(p + o);
        return std::vector<size_t>(s.begin(), s.end());
    };
    static std::vector<size_t> a = sizes(th ? 4200 : 1100, th ? 1u << 20 : 1u << 18), o = sizes(th ? 4200 : 1100, th ? 1u << 18 : 1u << 15), d = sizes(th ? 4096 : 1100, th ? 1u << 15 : 1u << 14);
    auto add = [&](const char* name, std::vector<size_t>* s, void (*f)(size_t)) {
        e.add(name, s->size(), [s, f](uint64_t i) {
            size_t n = (*s)[s->size() - 1 - i];
            mc::statei(n, uint64_t(reinterpret_cast<uintptr_t>(s)));
            if (n > 2050) roomy([&] { f(n); });
            else f(n);
        }, [s](uint64_t i) { return "size " + std::to_string((*s)[s->size() - 1 - i]); }, 4, 60);
    };
    add("array operations", &a, array_edits);
    add("object operations", &o, object_edits);
    add("operations at depth", &d, deep_edits);
    S all;
    for (auto& x : g_dims) all += x.name + " 0.." + std::to_string(x.all) + " and around powers of two to " + std::to_string(x.top) + "; ";
    e.notes.push_back(all);
}
MC_MAIN(setup)
