// All trees up to a number of nodes over a leaf alphabet and a key alphabet.
#pragma once
#include "ref.hpp"

namespace tr
{
using ref::Node;

// trees[n] = all trees with exactly n nodes; objects use increasing key sequences from `keys`.
inline std::vector<std::vector<Node>> trees(unsigned maxn, const std::vector<Node>& leaves, const std::vector<std::string>& keys)
{
    std::vector<std::vector<Node>> t(maxn + 1);
    t[1] = leaves;
    t[1].push_back(ref::arr());
    t[1].push_back(ref::obj());
    for (unsigned n = 2; n <= maxn; ++n) {
        // sequences of children with total n-1
        std::vector<Node> kids;
        std::function<void(unsigned)> rec = [&](unsigned left) {
            if (left == 0) {
                t[n].push_back(ref::arr(kids));
                if (kids.size() <= keys.size()) {
                    // all increasing key choices
                    std::vector<int> ix;
                    std::function<void(size_t)> pick = [&](size_t from) {
                        if (ix.size() == kids.size()) {
                            Node o = ref::obj();
                            for (size_t i = 0; i < ix.size(); ++i) o.o[keys[ix[i]]] = kids[i];
                            t[n].push_back(o);
                            return;
                        }
                        for (size_t k = from; k < keys.size(); ++k) {
                            ix.push_back(int(k));
                            pick(k + 1);
                            ix.pop_back();
                        }
                    };
                    pick(0);
                }
                return;
            }
            for (unsigned s = 1; s <= left; ++s)
                for (size_t i = 0; i < t[s].size(); ++i) {
                    Node c = t[s][i];
                    kids.push_back(c);
                    rec(left - s);
                    kids.pop_back();
                }
        };
        rec(n - 1);
    }
    return t;
}

inline std::vector<Node> flat(const std::vector<std::vector<Node>>& t, bool containers_only = false)
{
    std::vector<Node> r;
    for (auto& l : t)
        for (auto& n : l)
            if (!containers_only || n.k == ref::Arr || n.k == ref::Obj) r.push_back(n);
    return r;
}

// The token sequence of a tree (for whitespace placement).
inline void toks(const Node& n, std::vector<std::string>& out)
{
    std::string q;
    bool first = true;
    if (n.k == ref::Arr) {
        out.push_back("[");
        for (auto& e : n.a) {
            if (!first) out.push_back(",");
            first = false;
            toks(e, out);
        }
        out.push_back("]");
    }
    else if (n.k == ref::Obj) {
        out.push_back("{");
        for (auto& [k, e] : n.o) {
            if (!first) out.push_back(",");
            first = false;
            q.clear();
            ref::quote(q, k);
            out.push_back(q);
            out.push_back(":");
            toks(e, out);
        }
        out.push_back("}");
    }
    else out.push_back(ref::dump(n));
}

inline const std::vector<Node>& small_leaves()
{
    static const std::vector<Node> l = { ref::null(), ref::boolean(true), ref::num("-1.5e+3"), ref::str("a"), ref::str("") };
    return l;
}
inline const std::vector<Node>& more_leaves()
{
    static const std::vector<Node> l = { ref::null(), ref::boolean(true), ref::boolean(false), ref::num("0"), ref::num("1"), ref::num("-1.5e+3"), ref::str(""), ref::str("a"),
                                         ref::str("\"\\\n\x01"), ref::str("12") };
    return l;
}
} // namespace tr
