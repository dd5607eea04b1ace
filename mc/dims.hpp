// Documents of every size along one dimension, and the sizes worth trying.
#pragma once
#include "ref.hpp"
#include <algorithm>
#include <malloc.h>
#include <memory>
#include <pthread.h>
#include <set>

namespace dm
{
using ref::Node;
using S = std::string;

inline S digits(size_t n, unsigned seed)
{
    S s;
    for (size_t i = 0; i < n; ++i) s += char('0' + (i * 7 + seed) % 10);
    if (!s.empty() && s[0] == '0') s[0] = '9';
    return s;
}
inline S key(size_t i)
{
    S d = std::to_string(i);
    return "k" + S(7 - std::min<size_t>(7, d.size()), '0') + d;
}
inline Node nest(size_t depth, int kind)
{
    Node n = ref::num("7");
    for (size_t i = depth; i-- > 0;) {
        Node o;
        switch (kind == 2 ? int(i & 1) : kind) {
        case 0:
            o.k = ref::Arr;
            o.a.push_back(std::move(n));
            break;
        case 1:
            o.k = ref::Obj;
            o.o["k"] = std::move(n);
            break;
        case 3:
            o.k = ref::Arr;
            o.a.push_back(ref::num(std::to_string(i)));
            o.a.push_back(std::move(n));
            o.a.push_back(ref::str("after"));
            break;
        default:
            o.k = ref::Obj;
            o.o["a"] = ref::boolean(i & 1);
            o.o["m"] = std::move(n);
            o.o["z"] = ref::arr();
        }
        n = std::move(o);
    }
    if (depth == 0) return ref::arr({ n });
    return n;
}
struct Dim
{
    S name;
    std::function<Node(size_t)> make;
    size_t all, top; // every size up to `all`, and around the powers of two up to `top`
    bool deep = false;
    std::function<S(size_t)> text = {}; // another spelling of the same document
    bool jsonc = false;
    std::vector<size_t> sizes = {};
};
inline Node one(Node n) { return ref::arr({ std::move(n) }); }
// How far each kind of size is taken: every size up to the first number, sizes around powers of two up to the second.
struct Reach
{
    size_t all, top;         // elements and members
    size_t len, top_len;     // characters
    size_t deep, top_deep;   // levels
};
inline std::vector<Dim> dims(const Reach& r)
{
    std::vector<Dim> g_dims;
    auto arr_of = [](std::function<Node(size_t)> f) {
        return [f](size_t n) {
            Node a = ref::arr();
            for (size_t i = 0; i < n; ++i) a.a.push_back(f(i));
            return a;
        };
    };
    const size_t A = r.all, T = r.top, As = r.len, Ts = r.top_len, D = r.deep, DT = r.top_deep;
    g_dims.push_back({ "array of numbers", arr_of([](size_t i) { return ref::num(std::to_string(i)); }), A, T });
    g_dims.push_back({ "array of strings", arr_of([](size_t i) { return ref::str(S(i % 41, char('a' + i % 26))); }), A, T / 2 });
    g_dims.push_back({ "array of empties", arr_of([](size_t i) { return i % 3 == 0 ? ref::arr() : i % 3 == 1 ? ref::obj() : ref::null(); }), A, T / 2 });
    g_dims.push_back({ "array of arrays", arr_of([](size_t i) { return ref::arr({ ref::boolean(i & 1), ref::arr({ ref::num(std::to_string(i)) }) }); }), A, T / 4 });
    auto obj_of = [](std::function<S(size_t)> k, std::function<Node(size_t)> f) {
        return [k, f](size_t n) {
            Node o = ref::obj();
            for (size_t i = 0; i < n; ++i) o.o[k(i)] = f(i);
            return o;
        };
    };
    g_dims.push_back({ "object of numbers", obj_of(key, [](size_t i) { return ref::num(std::to_string(i)); }), A, T / 2 });
    g_dims.push_back({ "object, keys one inside the other", obj_of([](size_t i) { return S(i, 'a'); }, [](size_t i) { return ref::str(S(i % 20, 'v')); }), std::min<size_t>(A, 200), 0 });
    g_dims.push_back({ "object of objects", obj_of([](size_t i) { return key((i * 7919) % 100000); }, [](size_t i) { return ref::obj({ { "x", ref::num(std::to_string(i)) } }); }), A, T / 4 });
    g_dims.push_back({ "plain string", [](size_t n) { return one(ref::str(S(n, 'x'))); }, As, Ts });
    g_dims.push_back({ "string of escapes", [](size_t n) {
                          S s;
                          for (size_t i = 0; i < n; ++i) s += "\"\\\n\t\x01/b"[i % 7];
                          return one(ref::str(s));
                      }, As, Ts / 4 });
    g_dims.push_back({ "string, escape at the end", [](size_t n) { return one(ref::str(S(n, 'y') + "\n")); }, As, Ts / 2 });
    g_dims.push_back({ "string, control characters at the end", [](size_t n) { return ref::arr({ ref::str(S(n, 'y') + "\x01"), ref::str(S(n, 'y') + "\x1fz"), ref::str("\x7f" + S(n, 'y') + "\x02") }); }, As, Ts / 4 });
    g_dims.push_back({ "string, escape and control character at both ends", [](size_t n) { return ref::arr({ ref::str("\t" + S(n, 'y') + "\""), ref::str("\x01" + S(n, 'y') + "\x02"), ref::str("\x1f" + S(n, 'y') + "\\") }); }, As, Ts / 4 });
    auto bytes = [](size_t n, size_t from) {
        S s;
        for (size_t i = 0; i < n; ++i) s += char((from + i * 37) % 256);
        return s;
    };
    g_dims.push_back({ "string of every byte", [bytes](size_t n) { return ref::arr({ ref::str(bytes(n, 1)), ref::str(bytes(n, 0)), ref::str("") }); }, As, Ts / 8 });
    g_dims.push_back({ "string, NUL in the middle", [](size_t n) { return ref::obj({ { "a", ref::str(S(n / 2, 'y') + S(1, '\0') + S(n - n / 2, 'z')) }, { "b", ref::str(S(n, '\0')) } }); }, As, Ts / 8 });
    g_dims.push_back({ "key of every byte", [bytes](size_t n) { return ref::obj({ { bytes(n, 1), ref::num("1") }, { bytes(n, 0) + "k", ref::null() }, { S(n / 2, 'y') + S(1, '\0') + S(n - n / 2, 'z'), ref::arr() } }); }, As, Ts / 8 });
    g_dims.push_back({ "string, escape at the start", [](size_t n) { return one(ref::str("\\" + S(n, 'y'))); }, As, Ts / 2 });
    g_dims.push_back({ "string of three-byte characters", [](size_t n) {
                          S s;
                          for (size_t i = 0; i < n; ++i) s += "\xe4\xb8\xad";
                          return one(ref::str(s));
                      }, As, Ts / 8 });
    g_dims.push_back({ "string of unicode escapes", [](size_t n) {
                          S s;
                          for (size_t i = 0; i < n; ++i) s += i & 1 ? "\xf0\x9f\x98\x80" : "\xc3\xa9";
                          return one(ref::str(s));
                      }, As, Ts / 8, false,
                       [](size_t n) {
                           S s = "[\"";
                           for (size_t i = 0; i < n; ++i) s += i & 1 ? "\\ud83d\\uDE00" : "\\u00E9";
                           return s + "\"]";
                       } });
    g_dims.push_back({ "key", [](size_t n) { return ref::obj({ { S(n, 'k'), ref::num("1") }, { S(n, 'k') + "\n", ref::null() }, { S(n, 'k') + "\x10", ref::arr() } }); }, As, Ts / 4 });
    g_dims.push_back({ "integer digits", [](size_t n) { return one(ref::num(digits(n + 1, 1))); }, As, Ts / 4 });
    g_dims.push_back({ "negative integer digits", [](size_t n) { return ref::obj({ { "a", ref::num("-" + digits(n + 1, 4)) } }); }, As, Ts / 16 });
    g_dims.push_back({ "fraction digits", [](size_t n) { return one(ref::num("0." + digits(n + 1, 3))); }, As, Ts / 16 });
    g_dims.push_back({ "exponent digits", [](size_t n) { return one(ref::num("1.5E-" + digits(n + 1, 5))); }, As, Ts / 16 });
    g_dims.push_back({ "leading zeros of the exponent", [](size_t n) { return one(ref::num("1e+" + S(n, '0') + "1")); }, As, Ts / 16 });
    const Node mid = ref::arr({ ref::num("1"), ref::obj({ { "k", ref::str("v") } }) });
    for (const char* ws : { " ", "\n", "\t", "\r", " \n\t" }) {
        S w = ws;
        auto run = [w](size_t n) {
            S s;
            for (size_t i = 0; i < n; ++i) s += w[i % w.size()];
            return s;
        };
        g_dims.push_back({ "whitespace " + mc::show(w), [mid](size_t) { return mid; }, As / 2, Ts / 4, false, [run](size_t n) {
                              S r = run(n);
                              return r + "[" + r + "1" + r + "," + r + "{" + r + "\"k\"" + r + ":" + r + "\"v\"" + r + "}" + r + "]" + r;
                          } });
    }
    for (int k = 0; k < 3; ++k)
        g_dims.push_back({ k == 0 ? "line comment" : k == 1 ? "block comment" : "many comments", [mid](size_t) { return mid; }, As / 2, Ts / 4, false, [k](size_t n) {
                              S r;
                              if (k == 0) r = "//" + S(n, 'c') + "\n";
                              if (k == 1) r = "/*" + S(n, '*') + "*/";
                              if (k == 2)
                                  for (size_t i = 0; i < n; ++i) r += i & 1 ? "/**/" : "//\n";
                              return r + "[" + r + "1" + r + "," + r + "{" + r + "\"k\"" + r + ":" + r + "\"v\"" + r + "," + r + "}" + r + "]" + r;
                          }, true });
    const char* names[] = { "nested arrays", "nested objects", "arrays and objects nested in turn", "nested arrays with siblings", "nested objects with siblings" };
    for (int k = 0; k < 5; ++k) g_dims.push_back({ names[k], [k](size_t n) { return nest(n, k); }, k < 3 ? D : D / 2, DT, true });
    for (auto& d : g_dims) {
        std::set<size_t> s;
        for (size_t i = 0; i <= d.all; ++i) s.insert(i);
        for (size_t p = 1; p <= d.top; p *= 2)
            for (int o : { -2, -1, 0, 1, 2 })
                if (p + o <= d.top + 2) s.insert(p + o);
        for (size_t p = 10; p <= d.top; p *= 10)
            for (int o : { -1, 0, 1 }) s.insert(p + o);
        d.sizes.assign(s.begin(), s.end());
    }
    return g_dims;
}

// A stack large enough for any nesting explored.
inline void roomy(const std::function<void()>& f)
{
    struct Job
    {
        const std::function<void()>* f;
        std::exception_ptr e;
        bool v;
        mc::Violation viol;
    } j { &f, nullptr, false, {} };
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, size_t(1) << 31);
    pthread_t t;
    if (pthread_create(&t, &at, [](void* p) -> void* {
            auto& j = *static_cast<Job*>(p);
            try {
                (*j.f)();
            }
            catch (const mc::Violation& v) {
                j.v = true;
                j.viol = v;
            }
            catch (...) {
                j.e = std::current_exception();
            }
            return nullptr;
        }, &j))
        abort();
    pthread_join(t, nullptr);
    pthread_attr_destroy(&at);
    if (j.v) throw j.viol;
    if (j.e) std::rethrow_exception(j.e);
}

// The value changed in its last leaf, and cut short by one.
inline bool other(Node n, Node& out, int how)
{
    Node* p = &n;
    while ((p->k == ref::Arr && !p->a.empty()) || (p->k == ref::Obj && !p->o.empty())) {
        if (how == 1 && (p->k == ref::Arr ? p->a.size() : p->o.size()) > 1) break;
        p = p->k == ref::Arr ? &p->a.back() : &p->o.rbegin()->second;
    }
    if (how == 1) {
        if (p->k == ref::Arr && !p->a.empty()) p->a.pop_back();
        else if (p->k == ref::Obj && !p->o.empty()) p->o.erase(std::prev(p->o.end()));
        else return false;
    }
    else {
        if (p->k == ref::Str) p->s += "!";
        else *p = ref::str("changed");
    }
    out = std::move(n);
    return true;
}

// The text of a document and texts that differ from it in one character near its start, middle or end.
inline S text_of(const Dim& d, size_t n) { return d.text ? d.text(n) : ref::dump(d.make(n)); }
inline void near_texts(const S& t, const std::function<void(const S&)>& f)
{
    f(t);
    f(t.substr(0, t.size() - 1));
    f(t + t.back());
    f(t + "1");
    const bool small = t.size() < 3000;
    if (small) {
        f(t + " ");
        f(t + ",");
        f(t + S("\0x", 2));
        f(t.substr(1));
        f(t.substr(0, t.size() / 2));
    }
    std::set<size_t> at { t.size() - 1 };
    if (t.size() > 2) at.insert(t.size() - 2);
    if (small) {
        at.insert({ 0, 1, 2, t.size() / 4, t.size() / 2 });
        for (size_t k : { 3, 4 })
            if (t.size() > k) at.insert(t.size() - k);
    }
    for (size_t p : at) {
        if (p > t.size()) continue;
        for (const S& x : small ? std::vector<S> { ",", "\"", "\\", "\x01", "x", "]", S(1, '\0'), "1", "/", "\x80" } : std::vector<S> { ",", "\x01", "x" }) {
            S w = t;
            w.insert(p, x);
            f(w);
        }
        S w = t;
        if (p < w.size()) w.erase(p, 1);
        f(w);
    }
}

// Every size up to `all`, and the sizes around the powers of two (and ten) up to `top`.
inline std::vector<size_t> ladder(size_t all, size_t top)
{
    std::set<size_t> s;
    for (size_t i = 0; i <= all; ++i) s.insert(i);
    for (size_t p = 1; p <= top; p *= 2)
        for (int o : { -1, 0, 1 }) s.insert(p + o);
    for (size_t p = 10; p <= top; p *= 10)
        for (int o : { -1, 0, 1 }) s.insert(p + o);
    return { s.begin(), s.end() };
}

// Arrays and objects of n like elements, and with one unlike element at the start, in the middle or at the end.
inline const std::vector<std::pair<Node, Node>>& likes()
{
    static const std::vector<std::pair<Node, Node>> k = {
        { ref::num("1"), ref::str("s") },
        { ref::str("s"), ref::num("1") },
        { ref::str("text that does not fit into a small string buffer"), ref::null() },
        { ref::null(), ref::boolean(true) },
        { ref::boolean(true), ref::num("1.5") },
        { ref::arr({ ref::num("1"), ref::str("t") }), ref::arr({ ref::str("t"), ref::num("1") }) },
        { ref::num("2147483647"), ref::num("2147483648") },
        { ref::obj({ { "a", ref::num("1") } }), ref::obj({ { "a", ref::str("t") } }) },
    };
    return k;
}
inline std::vector<Node> mixed(size_t n, size_t which)
{
    auto& [x, y] = likes()[which % likes().size()];
    std::vector<Node> r;
    auto put = [&](size_t odd) {
        Node a = ref::arr(), o = ref::obj();
        for (size_t i = 0; i < n; ++i) {
            a.a.push_back(i == odd ? y : x);
            o.o[key(i)] = i == odd ? y : x;
        }
        r.push_back(std::move(a));
        r.push_back(std::move(o));
    };
    put(~size_t(0));
    for (size_t p : std::set<size_t> { 0, n / 2, n - std::min<size_t>(n, 1) })
        if (p < n) put(p);
    return r;
}
// One phase: f for such documents of every size, every pair of elements up to `full`, two of them above.
inline void add_mixed(mc::Engine& e, const S& name, size_t full, size_t all, size_t top, std::function<void(const Node&)> f)
{
    auto w = std::make_shared<std::vector<std::pair<size_t, size_t>>>();
    std::vector<size_t> s;
    {
        std::set<size_t> t;
        for (size_t i = 0; i <= all; ++i) t.insert(i);
        for (size_t p = 1; p <= top; p *= 2)
            for (int o : { -1, 0, 1 }) t.insert(p + o);
        s.assign(t.begin(), t.end());
    }
    for (size_t n : s)
        for (size_t k = 0; k < likes().size(); ++k)
            if (n <= full || k < 2) w->push_back({ n, k });
    std::sort(w->rbegin(), w->rend());
    const uint64_t tag = mc::hash(name);
    e.add(name, w->size(), [w, f, tag](uint64_t i) {
        auto [n, k] = (*w)[i];
        mc::statei(n * 16 + k, tag);
        for (auto& x : mixed(n, k)) f(x);
    }, [w](uint64_t i) { return "size " + std::to_string((*w)[i].first) + ", elements like " + ref::dump(likes()[(*w)[i].second].first); }, 1, 60);
}

// The reach of checks whose subject is something other than size.
inline Reach reach(bool th) { return th ? Reach { 1100, 1u << 17, 2200, 1u << 18, 600, 1u << 13 } : Reach { 270, 1u << 16, 530, 1u << 17, 140, 1u << 11 }; }

// One phase: f for every size of the ladder, the largest first.
inline void add_sizes(mc::Engine& e, const S& name, std::vector<size_t> sizes, std::function<void(size_t)> f, bool big_stack = false)
{
    auto s = std::make_shared<std::vector<size_t>>(std::move(sizes));
    const uint64_t tag = mc::hash(name);
    e.add(name, s->size(), [s, f, big_stack, tag](uint64_t i) {
        size_t n = (*s)[s->size() - 1 - i];
        mc::statei(n, tag);
        mc::outcome(mc::mix(tag + n));
        if (big_stack && n > 1000) roomy([&] { f(n); });
        else f(n);
    }, [s](uint64_t i) { return "size " + std::to_string((*s)[s->size() - 1 - i]); }, 4, 60);
}
// One phase: f for every dimension and size.
inline void add_dims(mc::Engine& e, const S& name, const Reach& r, std::function<void(const Dim&, size_t)> f, std::function<bool(const Dim&)> pick = {})
{
    mallopt(M_MMAP_THRESHOLD, 1 << 30); // keep freed memory
    mallopt(M_TRIM_THRESHOLD, 1 << 30);
    auto d = std::make_shared<std::vector<Dim>>();
    for (auto& x : dims(r))
        if (!pick || pick(x)) d->push_back(x);
    auto w = std::make_shared<std::vector<std::pair<size_t, size_t>>>(); // size, dimension
    for (size_t k = 0; k < d->size(); ++k)
        for (size_t n : (*d)[k].sizes) w->push_back({ n, k });
    std::sort(w->rbegin(), w->rend());
    e.add(name, w->size(), [d, w, f](uint64_t i) {
        auto [n, k] = (*w)[i];
        auto& x = (*d)[k];
        mc::statei(n, mc::hash(x.name));
        mc::outcome(mc::hash(x.name, n));
        if (x.deep && n > 600) roomy([&] { f(x, n); });
        else f(x, n);
    }, [d, w](uint64_t i) { return (*d)[(*w)[i].second].name + ", size " + std::to_string((*w)[i].first); }, 4, 60);
}
} // namespace dm
