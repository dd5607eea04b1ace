// Edits of a value, each as the real operation and as the operation of the abstract tree.
#pragma once
#include "ref.hpp"

namespace ed
{
using json::array;
using json::object;
using json::value;
using ref::Node;
using S = std::string;

// The outcome of an edit in text form: "throw" for a refusal, otherwise what it returned.
struct Edit
{
    S name;
    std::function<S(value&)> impl;
    std::function<S(Node&)> model;
};

struct Refused
{
};
inline Node& need_arr(Node& n)
{
    if (n.emptyish()) n = ref::arr();
    if (n.k != ref::Arr) throw Refused();
    return n;
}
inline Node& need_obj(Node& n)
{
    if (n.emptyish()) n = ref::obj();
    if (n.k != ref::Obj) throw Refused();
    return n;
}
template <typename F>
inline S run_impl(F&& f, value& v)
{
    try {
        return f(v);
    }
    catch (const mc::Violation&) {
        throw;
    }
    catch (const std::exception& e) {
        if (!e.what() || !*e.what()) mc::fail("exception without a text");
        return "throw";
    }
}
template <typename F>
inline S run_model(F&& f, Node& n)
{
    try {
        return f(n);
    }
    catch (const Refused&) {
        return "throw";
    }
}
inline S b(bool x) { return x ? "true" : "false"; }

inline const std::vector<Node>& args()
{
    static const std::vector<Node> a = { ref::null(), ref::boolean(true), ref::num("1"), ref::str("s"), ref::str(""), ref::arr(), ref::obj(), ref::arr({ ref::num("1"), ref::str("x") }),
                                         ref::obj({ { "a", ref::num("5") } }), ref::obj({ { "b", ref::arr({ ref::null() }) }, { "a", ref::obj() } }) };
    return a;
}

inline std::vector<Edit> edits(bool few = false)
{
    std::vector<Edit> r;
    auto add = [&](S n, std::function<S(value&)> i, std::function<S(Node&)> m) { r.push_back({ std::move(n), std::move(i), std::move(m) }); };
    for (size_t i = 0; i < args().size(); ++i) {
        const Node& x = args()[i];
        if (few && (i == 1 || i == 4 || i == 9)) continue;
        add("= copy " + ref::dump(x), [x](value& v) { value a = ref::build(x); v = a; ref::expect_same(a, x, "assigned-from value"); return S(); }, [x](Node& n) { n = x; return S(); });
        if (!few) add("= move " + ref::dump(x), [x](value& v) { v = ref::build(x); return S(); }, [x](Node& n) { n = x; return S(); });
    }
    if (!few) {
        add("= 7", [](value& v) { v = 7; return S(); }, [](Node& n) { n = ref::num("7"); return S(); });
        add("= \"lit\"", [](value& v) { v = "lit"; return S(); }, [](Node& n) { n = ref::str("lit"); return S(); });
        add("= array", [](value& v) { v = array { 1, "q" }; return S(); }, [](Node& n) { n = ref::arr({ ref::num("1"), ref::str("q") }); return S(); });
        add("= object", [](value& v) { v = object { { "a", false }, { "", nullptr } }; return S(); }, [](Node& n) { n = ref::obj({ { "a", ref::boolean(false) }, { "", ref::null() } }); return S(); });
    }
    for (S k : { S("a"), S(""), S("b\0", 2) }) {
        if (few && k.size() == 2) continue;
        add("[" + mc::show(k) + "]", [k](value& v) { value& e = v[k]; return e.is_null() ? S("null") : S("has"); }, [k](Node& n) { auto& e = need_obj(n).o[k]; return e.k == ref::Null ? S("null") : S("has"); });
        add("[" + mc::show(k) + "] = 7", [k](value& v) { v[S(k)] = 7; return S(); }, [k](Node& n) { need_obj(n).o[k] = ref::num("7"); return S(); });
        if (!few) add("[" + mc::show(k) + "][\"x\"] = 1", [k](value& v) { v[k]["x"] = 1; return S(); }, [k](Node& n) { auto& e = need_obj(n).o[k]; need_obj(e).o["x"] = ref::num("1"); return S(); });
        add("[" + mc::show(k) + "].emplace(7)", [k](value& v) { v[k].emplace(7); return S(); }, [k](Node& n) { auto& e = need_obj(n).o[k]; need_arr(e).a.push_back(ref::num("7")); return S(); });
        add("emplace(" + mc::show(k) + ", \"v\")",
            [k](value& v) {
                auto x = v.emplace(k, "v");
                if (x.first->first != k || x.first->second.as_string() != "v") mc::fail("emplace returned the wrong member");
                return b(x.second);
            },
            [k](Node& n) {
                bool fresh = !need_obj(n).o.count(k);
                n.o[k] = ref::str("v");
                return b(fresh);
            });
        add("emplace(move " + mc::show(k) + ", move [8])",
            [k](value& v) {
                value x = array { 8 };
                S key = k;
                auto r = v.emplace(std::move(key), std::move(x));
                if (r.first->first != k || !r.first->second.is_array()) mc::fail("emplace returned the wrong member");
                return b(r.second);
            },
            [k](Node& n) {
                bool fresh = !need_obj(n).o.count(k);
                n.o[k] = ref::arr({ ref::num("8") });
                return b(fresh);
            });
        if (!few) {
            add("as_object().insert(move " + mc::show(k) + ", {})", [k](value& v) { return b(v.as_object().insert(S(k), object()).second); },
                [k](Node& n) {
                    bool fresh = !need_obj(n).o.count(k);
                    n.o[k] = ref::obj();
                    return b(fresh);
                });
            if (k.find('\0') == S::npos) {
                add("emplace(literal " + mc::show(k) + ", named)", [k](value& v) { const char* key = k.c_str(); const value x("nm"); return b(v.emplace(key, x).second); },
                    [k](Node& n) {
                        bool fresh = !need_obj(n).o.count(k);
                        n.o[k] = ref::str("nm");
                        return b(fresh);
                    });
                add("[literal " + mc::show(k) + "] = true", [k](value& v) { v[k.c_str()] = true; return S(); }, [k](Node& n) { need_obj(n).o[k] = ref::boolean(true); return S(); });
            }
        }
        add("erase(" + mc::show(k) + ")", [k](value& v) { return b(v.erase(k)); }, [k](Node& n) { return b(need_obj(n).o.erase(k) > 0); });
        if (!few) add("as_object().erase(" + mc::show(k) + ")", [k](value& v) { return b(v.as_object().erase(k)); }, [k](Node& n) { return b(need_obj(n).o.erase(k) > 0); });
    }
    for (size_t i : { 0, 1, 2 }) {
        if (few && i == 2) continue;
        auto si = std::to_string(i);
        add("erase(" + si + ")", [i](value& v) { return b(v.erase(i)); },
            [i](Node& n) {
                need_arr(n);
                if (i >= n.a.size()) return b(false);
                n.a.erase(n.a.begin() + long(i));
                return b(true);
            });
        if (!few)
            add("as_array().erase(begin+" + si + ")", [i](value& v) { auto& a = v.as_array(); return b(a.erase(a.begin() + long(std::min(i, a.size())))); },
                [i](Node& n) {
                    need_arr(n);
                    if (i >= n.a.size()) return b(false);
                    n.a.erase(n.a.begin() + long(i));
                    return b(true);
                });
        add("[" + si + "] = \"e\" if present", [i](value& v) { auto& a = v.as_array(); if (i < a.size()) v[i] = "e"; return S(); }, [i](Node& n) { need_arr(n); if (i < n.a.size()) n.a[i] = ref::str("e"); return S(); });
    }
    add("erase(huge)", [](value& v) { return b(v.erase(size_t(-1))); }, [](Node& n) { need_arr(n); return b(false); });
    add("emplace(7)", [](value& v) { value& e = v.emplace(7); return S(e.to_string()); }, [](Node& n) { need_arr(n).a.push_back(ref::num("7")); return S("7"); });
    add("emplace(obj)", [](value& v) { value& e = v.emplace(object { { "a", 1 } }); return S(e.to_string()); }, [](Node& n) { need_arr(n).a.push_back(ref::obj({ { "a", ref::num("1") } })); return S("{\"a\":1}"); });
    if (!few) {
        add("emplace(move {})", [](value& v) { value x = object(); value& e = v.emplace(std::move(x)); return S(e.to_string()); }, [](Node& n) { need_arr(n).a.push_back(ref::obj()); return S("{}"); });
        add("emplace(named)", [](value& v) { const value x = array { "n" }; value& e = v.emplace(x); if (x.to_string() != "[\"n\"]") mc::fail("emplace changed its argument"); return S(e.to_string()); }, [](Node& n) { need_arr(n).a.push_back(ref::arr({ ref::str("n") })); return S("[\"n\"]"); });
        add("as_object().erase(last)", [](value& v) { auto& o = v.as_object(); return b(o.empty() ? o.erase(o.end()) : o.erase(std::prev(o.end()))); },
            [](Node& n) {
                need_obj(n);
                if (n.o.empty()) return b(false);
                n.o.erase(std::prev(n.o.end()));
                return b(true);
            });
    }
    add("as_array().push_back(null)", [](value& v) { v.as_array().push_back(value()); return S(); }, [](Node& n) { need_arr(n).a.push_back(ref::null()); return S(); });
    add("as_array()", [](value& v) { return std::to_string(v.as_array().size()); }, [](Node& n) { return std::to_string(need_arr(n).a.size()); });
    add("as_object()", [](value& v) { return std::to_string(v.as_object().size()); }, [](Node& n) { return std::to_string(need_obj(n).o.size()); });
    add("as_array().clear()", [](value& v) { v.as_array().clear(); return S(); }, [](Node& n) { need_arr(n).a.clear(); return S(); });
    add("as_object().clear()", [](value& v) { v.as_object().clear(); return S(); }, [](Node& n) { need_obj(n).o.clear(); return S(); });
    add("as_object()[\"a\"] = []", [](value& v) { v.as_object()["a"] = array(); return S(); }, [](Node& n) { need_obj(n).o["a"] = ref::arr(); return S(); });
    add("as_object().emplace(\"a\", 2)", [](value& v) { return b(v.as_object().emplace("a", 2).second); }, [](Node& n) { bool f = !need_obj(n).o.count("a"); n.o["a"] = ref::num("2"); return b(f); });
    add("as_object().insert(\"c\", {})", [](value& v) { return b(v.as_object().insert("c", object()).second); }, [](Node& n) { bool f = !need_obj(n).o.count("c"); n.o["c"] = ref::obj(); return b(f); });
    if (!few)
        add("as_object().erase(begin)", [](value& v) { auto& o = v.as_object(); return b(o.erase(o.begin())); },
            [](Node& n) {
                need_obj(n);
                if (n.o.empty()) return b(false);
                n.o.erase(n.o.begin());
                return b(true);
            });
    add("+= [1,[]]", [](value& v) { v += array { 1, array() }; return S(); }, [](Node& n) { need_arr(n); n.a.push_back(ref::num("1")); n.a.push_back(ref::arr()); return S(); });
    add("+= lvalue", [](value& v) { const array x { "x" }; value& y = (v += x); if (&y != &v) mc::fail("+= does not return the value"); if (x.to_string() != "[\"x\"]") mc::fail("+= changed its argument"); return S(); }, [](Node& n) { need_arr(n).a.push_back(ref::str("x")); return S(); });
    add("|= {a,c}", [](value& v) { v |= object { { "a", 1 }, { "c", array() } }; return S(); }, [](Node& n) { need_obj(n); n.o["a"] = ref::num("1"); n.o["c"] = ref::arr(); return S(); });
    add("|= lvalue", [](value& v) { const object x { { "a", "m" } }; value& y = (v |= x); if (&y != &v) mc::fail("|= does not return the value"); if (x.to_string() != "{\"a\":\"m\"}") mc::fail("|= changed its argument"); return S(); }, [](Node& n) { need_obj(n).o["a"] = ref::str("m"); return S(); });
    if (!few) {
        // the const operators refuse everything but the exact kind
        add("= v + [3]", [](value& v) { v = std::as_const(v) + array { 3 }; return S(); }, [](Node& n) { if (n.k != ref::Arr) throw Refused(); n.a.push_back(ref::num("3")); return S(); });
        add("= v | {a:3}", [](value& v) { v = std::as_const(v) | object { { "a", 3 } }; return S(); }, [](Node& n) { if (n.k != ref::Obj) throw Refused(); n.o["a"] = ref::num("3"); return S(); });
        add("= v + lvalue", [](value& v) { array x { 3 }; v = v + x; return x.to_string(); }, [](Node& n) { if (n.k != ref::Arr) throw Refused(); n.a.push_back(ref::num("3")); return S("[3]"); });
        add("= v | lvalue", [](value& v) { object x { { "z", 3 } }; v = v | x; return x.to_string(); }, [](Node& n) { if (n.k != ref::Obj) throw Refused(); n.o["z"] = ref::num("3"); return S("{\"z\":3}"); });
        add("= copy + [4]", [](value& v) { v = value(v) + array { 4 }; return S(); }, [](Node& n) { need_arr(n).a.push_back(ref::num("4")); return S(); });
        add("= copy | {d}", [](value& v) { v = value(v) | object { { "d", 4 } }; return S(); }, [](Node& n) { need_obj(n).o["d"] = ref::num("4"); return S(); });
        add("= copy + lvalue", [](value& v) { const array x { 5 }; v = value(v) + x; return x.to_string(); }, [](Node& n) { need_arr(n).a.push_back(ref::num("5")); return S("[5]"); });
        add("= copy | lvalue", [](value& v) { const object x { { "a", 5 } }; v = value(v) | x; return x.to_string(); }, [](Node& n) { need_obj(n).o["a"] = ref::num("5"); return S("{\"a\":5}"); });
    }
    add("clear()", [](value& v) { v.clear(); return S(); }, [](Node& n) { n = ref::null(); return S(); });
    if (!few) {
        add("= value(v)", [](value& v) { v = value(v); return S(); }, [](Node&) { return S(); });
        add("= itself", [](value& v) { value& w = v; v = w; return S(); }, [](Node&) { return S(); });
        add("move out and back", [](value& v) { value t = std::move(v); v = std::move(t); return S(); }, [](Node&) { return S(); });
        add("iterate and overwrite", [](value& v) { if (v.is_array()) for (auto& e : v.as_array()) e = 0; else if (v.is_object()) for (auto& [k, e] : v.as_object()) e = 0; return S(); },
            [](Node& n) {
                for (auto& e : n.a) e = ref::num("0");
                for (auto& [k, e] : n.o) e = ref::num("0");
                return S();
            });
    }
    return r;
}

// Places of a tree in preorder.
inline size_t places(const Node& n)
{
    size_t c = 1;
    for (auto& e : n.a) c += places(e);
    for (auto& [k, e] : n.o) c += places(e);
    return c;
}
inline std::pair<value*, Node*> place(value& v, Node& n, size_t& i)
{
    if (i == 0) return { &v, &n };
    --i;
    if (n.k == ref::Arr) {
        for (size_t k = 0; k < n.a.size(); ++k) {
            auto p = place(v.as_array()[k], n.a[k], i);
            if (p.first) return p;
        }
    }
    else if (n.k == ref::Obj) {
        for (auto& [k, e] : n.o) {
            auto p = place(v.as_object()[k], e, i);
            if (p.first) return p;
        }
    }
    return { nullptr, nullptr };
}
inline std::pair<value*, Node*> at(value& v, Node& n, size_t i) { return place(v, n, i); }
} // namespace ed
