// Different API routes that must all build the same value.
#pragma once
#include "ref.hpp"
#include <list>
#include <unordered_map>

namespace bd
{
using ref::Node;
constexpr int kRoutes = 8;

inline json::value by(int route, const Node& n)
{
    switch (n.k) {
    case ref::Null: {
        if (route % 3 == 0) return json::value();
        if (route % 3 == 1) return json::value(nullptr);
        json::value v = 3;
        v = json::value(std::monostate {});
        return v;
    }
    case ref::Bool: return json::value(n.s == "true");
    case ref::Num: return json::value(json::value::value_type::number, n.s);
    case ref::Str:
        if (route % 3 == 0) return json::value(n.s);
        if (route % 3 == 1) return json::value(std::string_view(n.s));
        if (n.s.find('\0') == std::string::npos) return json::value(n.s.c_str());
        return json::value(n.s);
    case ref::Arr: {
        switch (route) {
        case 0: {
            json::array a;
            for (auto& e : n.a) a.emplace_back(by(route, e));
            return a;
        }
        case 1: {
            json::value v;
            if (n.a.empty()) return json::array();
            for (auto& e : n.a) v.emplace(by(route, e));
            return v;
        }
        case 2: {
            std::vector<json::value> k;
            for (auto& e : n.a) k.push_back(by(route, e));
            return json::value(k);
        }
        case 3: {
            json::value v = json::array();
            for (auto& e : n.a) v += json::array { by(route, e) };
            return v;
        }
        case 4: {
            json::array a(n.a.size());
            for (size_t i = 0; i < n.a.size(); ++i) a[i] = by(route, n.a[i]);
            return json::value(std::move(a));
        }
        case 5: {
            json::array a;
            for (auto& e : n.a) {
                json::value x = by(route, e);
                a = a + json::array { x };
            }
            return json::value(a);
        }
        case 6: {
            std::list<json::value> k;
            for (auto& e : n.a) k.push_back(by(route, e));
            return json::array(std::move(k));
        }
        default: {
            json::array a;
            for (size_t i = 0; i < n.a.size(); ++i) a.push_back(json::value());
            for (size_t i = 0; i < n.a.size(); ++i) {
                a.emplace_back("junk");
                a[n.a.size() - 1 - i] = by(route, n.a[n.a.size() - 1 - i]);
                a.erase(a.size() - 1);
            }
            json::value v(a), w;
            w = std::move(v);
            return w;
        }
        }
    }
    case ref::Obj: {
        switch (route) {
        case 0: {
            json::object o;
            for (auto& [k, e] : n.o) o.emplace(k, by(route, e));
            return o;
        }
        case 1: {
            json::value v;
            if (n.o.empty()) return json::object();
            for (auto& [k, e] : n.o) v[k] = by(route, e);
            return v;
        }
        case 2: {
            std::map<std::string, json::value> m;
            for (auto& [k, e] : n.o) m.emplace(k, by(route, e));
            return json::value(m);
        }
        case 3: {
            json::value v = json::object();
            for (auto& [k, e] : n.o) v |= json::object { { k, by(route, e) } };
            return v;
        }
        case 4: {
            json::object o;
            for (auto it = n.o.rbegin(); it != n.o.rend(); ++it) o[std::string(it->first)] = by(route, it->second);
            return json::value(std::move(o));
        }
        case 5: {
            json::object o;
            for (auto& [k, e] : n.o) {
                json::object x;
                x.insert(k, by(route, e));
                o = x | o;
            }
            return json::value(o);
        }
        case 6: {
            std::unordered_map<std::string, json::value> m;
            for (auto& [k, e] : n.o) m.emplace(k, by(route, e));
            return json::object(std::move(m));
        }
        default: {
            json::value v;
            for (auto& [k, e] : n.o) {
                v.emplace(k, "junk");
                v.as_object().emplace(k + "\x01zz", 1);
            }
            if (n.o.empty()) return json::object();
            for (auto& [k, e] : n.o) {
                v.erase(k + "\x01zz");
                v.as_object()[k] = by(route, e);
            }
            json::value w;
            w = v;
            return w;
        }
        }
    }
    }
    return {};
}
} // namespace bd
