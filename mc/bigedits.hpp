// The operations of arrays and objects at a given size.
#pragma once
#include "dims.hpp"
#include <deque>
#include <list>
#include <unordered_map>

namespace dm
{
using json::value;
inline void must(bool ok, const char* what)
{
    mc::step();
    if (!ok) mc::fail(what);
}
// Edits of arrays and objects of a size.
inline void array_edits(size_t n)
{
    std::vector<int> model(n);
    for (size_t i = 0; i < n; ++i) model[i] = int(i * 3);
    auto same = [&](const json::array& a, const std::vector<int>& m, const char* what) {
        mc::step();
        if (a.size() != m.size()) mc::fail(S(what) + ": size");
        size_t i = 0;
        for (auto& x : a)
            if (x.as_integer() != m[i++]) mc::fail(S(what) + ": element " + std::to_string(i - 1));
        if (!m.empty() && (a[0].as_integer() != m.front() || a.at(m.size() - 1).as_integer() != m.back())) mc::fail(S(what) + ": ends");
        must(!a.contains(m.size()), what);
        must(!a.find(m.size()), what);
    };
    json::array a(model);
    same(a, model, "from a vector");
    must(a.as<std::vector<int>>() == model, "as vector");
    must(value(a).as<std::vector<int>>() == model, "value as vector");
    must(a.as<std::deque<int>>() == std::deque<int>(model.begin(), model.end()), "as deque");
    must(a.as<std::list<long>>() == std::list<long>(model.begin(), model.end()), "as list");
    must(a.as<std::set<int>>() == std::set<int>(model.begin(), model.end()), "as set");
    same(json::array(std::list<int>(model.begin(), model.end())), model, "from a list");
    same(json::array(std::deque<int>(model.begin(), model.end())), model, "from a deque");
    same(json::array(std::set<int>(model.begin(), model.end())), model, "from a set");
    must(value(model).all<int>() && value(model).is<std::vector<int>>(), "all<int>");
    {
        json::array g;
        for (int x : model) g.emplace_back(x);
        same(g, model, "emplace_back");
        json::array p;
        for (int x : model) p.push_back(value(x));
        same(p, model, "push_back");
        must(p == g && value(p) == value(a), "equal");
        value w;
        for (int x : model) w.emplace(x);
        if (n) same(w.as_array(), model, "value.emplace");
        // one more, then shrink
        g.emplace_back(-1);
        auto m = model;
        m.push_back(-1);
        same(g, m, "one more");
        must(g != p, "longer is equal");
        must(g.erase(n), "erase the last");
        same(g, model, "erase the last");
        must(!g.erase(n), "erase past the end");
        must(!(n < 70000 && g.erase(n + 1)), "erase past the end");
    }
    {
        json::array z(n);
        must(z.size() == n && z.empty() == (n == 0), "array(n)");
        for (auto& x : z) must(x.is_null(), "array(n)");
    }
    {
        auto m = model;
        m.insert(m.end(), model.begin(), model.end());
        same(a + a, m, "+");
        json::array b = a;
        b += a;
        same(b, m, "+=");
        b = a;
        b += b;
        same(b, m, "+= itself");
        b = a;
        b += json::array(model);
        same(b, m, "+= rvalue");
        value w = a;
        w += a;
        same(w.as_array(), m, "value +=");
    }
    for (size_t at : { size_t(0), n / 2, n - 1 })
        if (at < n) {
            json::array b = a;
            auto m = model;
            must(b.erase(at), "erase");
            m.erase(m.begin() + at);
            same(b, m, "erase");
            b = a;
            b.erase(b.begin() + at);
            same(b, m, "erase iterator");
            b = a;
            b[at] = -9;
            must(b[at].as_integer() == -9 && (b != a) == true, "change");
            must(a.find<int>(at) && *a.find<int>(at) == model[at] && a.get(at, -5) == model[at] && value(a).get(at, -5) == model[at], "find and get");
            must(value(a).get(n, -5) == -5, "get past the end");
        }
    json::array b = a;
    b.clear();
    must(b.empty() && b.size() == 0, "clear");
    b = a;
    same(b, model, "assign after clear");
    {
        size_t i = n;
        for (auto r = a.rbegin(); r != a.rend(); ++r) must(r->as_integer() == model[--i], "backwards");
        must(i == 0, "backwards");
    }
    mc::validated();
}
inline void object_edits(size_t n)
{
    std::map<S, int> model;
    for (size_t i = 0; i < n; ++i) model[key((i * 7919) % 1000003)] = int(i);
    auto same = [&](const json::object& o, const std::map<S, int>& m, const char* what) {
        mc::step();
        if (o.size() != m.size()) mc::fail(S(what) + ": size");
        auto i = m.begin();
        for (auto& [k, x] : o) {
            if (k != i->first) mc::fail(S(what) + ": key " + i->first);
            if (x.as_integer() != i->second) mc::fail(S(what) + ": member " + i->first);
            ++i;
        }
    };
    json::object o(model);
    same(o, model, "from a map");
    must(o.as<std::map<S, int>>() == model, "as map");
    must(value(o).as<std::unordered_map<S, int>>() == std::unordered_map<S, int>(model.begin(), model.end()), "as unordered_map");
    same(json::object(std::unordered_map<S, int>(model.begin(), model.end())), model, "from an unordered_map");
    json::object e;
    for (size_t i = 0; i < n; ++i) e.emplace(key((i * 7919) % 1000003), int(i));
    same(e, model, "emplace");
    json::object b;
    for (auto i = model.rbegin(); i != model.rend(); ++i) b[i->first] = i->second;
    same(b, model, "operator[]");
    must(b == e && value(b) == value(o), "equal");
    for (auto& [k, x] : model) {
        must(o.contains(k) && o.at(k).as_integer() == x, "lookup");
        must(o.get(k, -1) == x, "get");
    }
    must(!o.contains("k") && !o.find("zzz") && o.get("none", -5) == -5, "missing key");
    if (n <= 700) {
        json::object c = o, d;
        auto m = model;
        size_t left = n;
        for (auto& [k, x] : model) {
            must(c.erase(k), "erase");
            must(!c.erase(k), "erase again");
            must(c.size() == --left, "size after erase");
        }
        must(c.empty(), "empty after erasing all");
    }
    {
        json::object c = o | json::object { { "zz", 1 } };
        auto m = model;
        m["zz"] = 1;
        same(c, m, "|");
        must(c != o, "larger is equal");
        c = o;
        c |= o;
        same(c, model, "|= itself");
        json::object h;
        size_t i = 0;
        for (auto& [k, x] : model)
            if (i++ % 2) h[k] = -x;
        auto mm = model;
        i = 0;
        for (auto& [k, x] : mm)
            if (i++ % 2) x = -x;
        c = o;
        c |= h;
        json::object r = h | o, q = o | h;
        must(r.size() == n && q.size() == n && c.size() == n, "overlapping |");
        must(c == q, "|= and | differ");
    }
    b.clear();
    must(b.empty(), "clear");
    b = std::move(e);
    same(b, model, "move");
    mc::validated();
}
} // namespace dm
