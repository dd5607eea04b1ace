// The reference model: an abstract JSON tree and boring, independent definitions of parsing, printing and comparing.
#pragma once
#include "engine.hpp"
#include <map>
#include <optional>
#include <string>
#include <vector>

#include <json.hpp>

namespace ref
{
enum Kind
{
    Null,
    Bool,
    Num,
    Str,
    Arr,
    Obj
};

struct Node
{
    Kind k = Null;
    std::string s; // "true"/"false", number spelling, string content
    std::vector<Node> a;
    std::map<std::string, Node> o;

    bool operator==(const Node& r) const { return k == r.k && s == r.s && a == r.a && o == r.o; }
    bool operator!=(const Node& r) const { return !(*this == r); }
    bool emptyish() const { return k == Null || (k == Str && s.empty()) || (k == Arr && a.empty()) || (k == Obj && o.empty()); }
};

inline Node null() { return {}; }
inline Node boolean(bool b) { return { Bool, b ? "true" : "false", {}, {} }; }
inline Node num(std::string s) { return { Num, std::move(s), {}, {} }; }
inline Node str(std::string s) { return { Str, std::move(s), {}, {} }; }
inline Node arr(std::vector<Node> a = {})
{
    Node n;
    n.k = Arr;
    n.a = std::move(a);
    return n;
}
inline Node obj(std::map<std::string, Node> o = {})
{
    Node n;
    n.k = Obj;
    n.o = std::move(o);
    return n;
}

// ---------------------------------------------------------------- printing
inline void quote(std::string& out, const std::string& s)
{
    static const char* hex = "0123456789abcdef";
    out += '"';
    for (unsigned char c : s) {
        if (c == '"') out += "\\\"";
        else if (c == '\\') out += "\\\\";
        else if (c == 8) out += "\\b";
        else if (c == 9) out += "\\t";
        else if (c == 10) out += "\\n";
        else if (c == 12) out += "\\f";
        else if (c == 13) out += "\\r";
        else if (c < 32) {
            out += "\\u00";
            out += hex[c / 16];
            out += hex[c % 16];
        }
        else out += char(c);
    }
    out += '"';
}

inline void dump_to(std::string& out, const Node& n)
{
    bool first = true;
    switch (n.k) {
    case Null: out += "null"; break;
    case Bool:
    case Num: out += n.s; break;
    case Str: quote(out, n.s); break;
    case Arr:
        out += '[';
        for (auto& e : n.a) {
            if (!first) out += ',';
            first = false;
            dump_to(out, e);
        }
        out += ']';
        break;
    case Obj:
        out += '{';
        for (auto& [k, e] : n.o) {
            if (!first) out += ',';
            first = false;
            quote(out, k);
            out += ':';
            dump_to(out, e);
        }
        out += '}';
        break;
    }
}
inline std::string dump(const Node& n)
{
    std::string s;
    dump_to(s, n);
    return s;
}

inline void format_to(std::string& out, const Node& n, size_t w, size_t depth)
{
    size_t i = 0;
    switch (n.k) {
    case Arr:
        out += "[\n";
        for (auto& e : n.a) {
            out += std::string(w * (depth + 1), ' ');
            format_to(out, e, w, depth + 1);
            out += ++i < n.a.size() ? ",\n" : "\n";
        }
        out += std::string(w * depth, ' ') + "]";
        break;
    case Obj:
        out += "{\n";
        for (auto& [k, e] : n.o) {
            out += std::string(w * (depth + 1), ' ');
            quote(out, k);
            out += ": ";
            format_to(out, e, w, depth + 1);
            out += ++i < n.o.size() ? ",\n" : "\n";
        }
        out += std::string(w * depth, ' ') + "}";
        break;
    default: dump_to(out, n);
    }
}
inline std::string format(const Node& n, size_t w = 4)
{
    std::string s;
    format_to(s, n, w, 0);
    return s;
}

// ---------------------------------------------------------------- parsing
// A direct transcription of the RFC 8259 grammar over an index; `ok` turns false at the first deviation.
class Reader
{
    std::string_view t;
    size_t i = 0;
    bool jsonc;
    bool ok = true;

    bool has() const { return i < t.size(); }
    int peek() const { return has() ? static_cast<unsigned char>(t[i]) : -1; }
    bool take(char c)
    {
        if (has() && t[i] == c) {
            ++i;
            return true;
        }
        return false;
    }
    void bad() { ok = false; }

    void gap()
    {
        while (ok && has()) {
            char c = t[i];
            if (c == ' ' || c == '\t' || c == '\n' || c == '\r') ++i;
            else if (c == '\0') {
                t = t.substr(0, i); // a NUL between tokens ends the text
                return;
            }
            else if (c == '/' && jsonc) {
                if (i + 1 < t.size() && t[i + 1] == '/') {
                    size_t e = t.find('\n', i + 2);
                    i = e == std::string_view::npos ? t.size() : e + 1;
                }
                else if (i + 1 < t.size() && t[i + 1] == '*') {
                    size_t e = t.find("*/", i + 2);
                    if (e == std::string_view::npos) return bad();
                    i = e + 2;
                }
                else return bad();
            }
            else return;
        }
    }

    static int hexval(int c)
    {
        if (c >= '0' && c <= '9') return c - '0';
        if (c >= 'a' && c <= 'f') return c - 'a' + 10;
        if (c >= 'A' && c <= 'F') return c - 'A' + 10;
        return -1;
    }
    long unit()
    { // four hex digits at i
        long u = 0;
        for (int k = 0; k < 4; ++k) {
            int h = hexval(peek());
            if (h < 0) return -1;
            u = u * 16 + h;
            ++i;
        }
        return u;
    }

public:
    static void utf8(std::string& out, unsigned long cp)
    {
        if (cp < 0x80) out += char(cp);
        else if (cp < 0x800) {
            out += char(0xC0 + cp / 64);
            out += char(0x80 + cp % 64);
        }
        else if (cp < 0x10000) {
            out += char(0xE0 + cp / 4096);
            out += char(0x80 + cp / 64 % 64);
            out += char(0x80 + cp % 64);
        }
        else {
            out += char(0xF0 + cp / 262144);
            out += char(0x80 + cp / 4096 % 64);
            out += char(0x80 + cp / 64 % 64);
            out += char(0x80 + cp % 64);
        }
    }

private:
    std::string string_()
    {
        std::string r;
        if (!take('"')) {
            bad();
            return r;
        }
        for (;;) {
            int c = peek();
            if (c < 0 || c < 0x20) {
                bad();
                return r;
            }
            ++i;
            if (c == '"') return r;
            if (c != '\\') {
                r += char(c);
                continue;
            }
            int e = peek();
            ++i;
            switch (e) {
            case '"': r += '"'; break;
            case '\\': r += '\\'; break;
            case '/': r += '/'; break;
            case 'b': r += char(8); break;
            case 'f': r += char(12); break;
            case 'n': r += char(10); break;
            case 'r': r += char(13); break;
            case 't': r += char(9); break;
            case 'u': {
                long u = unit();
                if (u < 0 || (u >= 0xDC00 && u <= 0xDFFF)) {
                    bad();
                    return r;
                }
                if (u >= 0xD800 && u <= 0xDBFF) {
                    if (!take('\\') || !take('u')) {
                        bad();
                        return r;
                    }
                    long v = unit();
                    if (v < 0xDC00 || v > 0xDFFF) {
                        bad();
                        return r;
                    }
                    u = 0x10000 + (u - 0xD800) * 0x400 + (v - 0xDC00);
                }
                utf8(r, static_cast<unsigned long>(u));
                break;
            }
            default: bad(); return r;
            }
        }
    }

    bool digits()
    {
        size_t b = i;
        while (peek() >= '0' && peek() <= '9') ++i;
        return i > b;
    }

    Node number()
    {
        size_t b = i;
        take('-');
        size_t d = i;
        if (!digits()) bad();
        else if (t[d] == '0' && i - d > 1) bad();
        if (ok && take('.') && !digits()) bad();
        if (ok && (peek() == 'e' || peek() == 'E')) {
            ++i;
            if (peek() == '+' || peek() == '-') ++i;
            if (!digits()) bad();
        }
        return num(std::string(t.substr(b, i - b)));
    }

    Node value()
    {
        switch (peek()) {
        case 'n': return word("null", null());
        case 't': return word("true", boolean(true));
        case 'f': return word("false", boolean(false));
        case '"': return str(string_());
        case '[': return array();
        case '{': return object();
        default: return number();
        }
    }
    Node word(std::string_view w, Node n)
    {
        if (t.substr(i, w.size()) != w) bad();
        i += w.size();
        return n;
    }

    Node array()
    {
        Node n = arr();
        ++i;
        gap();
        if (!ok || take(']')) return n;
        for (;;) {
            n.a.push_back(value());
            if (!ok) return n;
            gap();
            if (!ok || take(']')) return n;
            if (!take(',')) {
                bad();
                return n;
            }
            gap();
            if (jsonc && ok && take(']')) return n;
            if (!ok) return n;
        }
    }
    Node object()
    {
        Node n = obj();
        ++i;
        gap();
        if (!ok || take('}')) return n;
        for (;;) {
            std::string k = string_();
            if (!ok) return n;
            gap();
            if (!ok || !take(':')) {
                bad();
                return n;
            }
            gap();
            if (!ok) return n;
            Node v = value();
            if (!ok) return n;
            if (!n.o.emplace(std::move(k), std::move(v)).second) {
                bad();
                return n;
            }
            gap();
            if (!ok || take('}')) return n;
            if (!take(',')) {
                bad();
                return n;
            }
            gap();
            if (jsonc && ok && take('}')) return n;
            if (!ok) return n;
        }
    }

public:
    Reader(std::string_view text, bool c) : t(text), jsonc(c) {}
    std::optional<Node> document()
    {
        gap();
        if (!ok || (peek() != '[' && peek() != '{')) return std::nullopt;
        Node n = peek() == '[' ? array() : object();
        if (!ok) return std::nullopt;
        gap();
        if (!ok || has()) return std::nullopt;
        return n;
    }
};

inline std::optional<Node> parse(std::string_view t, bool jsonc = false) { return Reader(t, jsonc).document(); }

// ---------------------------------------------------------------- relating trees to library values
inline json::value build(const Node& n)
{
    switch (n.k) {
    case Null: return json::value();
    case Bool: return json::value(n.s == "true");
    case Num: return json::value(json::value::value_type::number, n.s);
    case Str: return json::value(n.s);
    case Arr: {
        json::array a;
        for (auto& e : n.a) a.emplace_back(build(e));
        return json::value(std::move(a));
    }
    case Obj: {
        json::object o;
        for (auto& [k, e] : n.o) o.emplace(k, build(e));
        return json::value(std::move(o));
    }
    }
    return json::value();
}

inline json::value::value_type jtype(Kind k)
{
    using T = json::value::value_type;
    static const T m[] = { T::null, T::boolean, T::number, T::string, T::array, T::object };
    return m[k];
}

// Full structural comparison through read-only observers; empty string when equal.
inline std::string diff(const json::value& v, const Node& n, const std::string& at = "$")
{
    if (v.type() != jtype(n.k)) return at + ": kind is " + std::to_string(int(v.type())) + ", expected " + std::to_string(int(jtype(n.k)));
    if (!v.valid() || v.is_null() != (n.k == Null) || v.is_boolean() != (n.k == Bool) || v.is_number() != (n.k == Num)
        || v.is_string() != (n.k == Str) || v.is_array() != (n.k == Arr) || v.is_object() != (n.k == Obj))
        return at + ": kind queries disagree with the kind";
    if (v.empty() != n.emptyish()) return at + ": empty() is wrong";
    switch (n.k) {
    case Null: break;
    case Bool:
        if (v.as_boolean() != (n.s == "true")) return at + ": wrong boolean";
        if (v.to_string() != n.s) return at + ": wrong boolean text";
        break;
    case Num:
        if (v.to_string() != n.s) return at + ": number text " + v.to_string() + ", expected " + n.s;
        break;
    case Str:
        if (v.as_string_view() != n.s) return at + ": string " + mc::show(v.as_string()) + ", expected " + mc::show(n.s);
        break;
    case Arr: {
        const json::array& a = v.as_array();
        if (a.size() != n.a.size() || a.empty() != n.a.empty())
            return at + ": array size " + std::to_string(a.size()) + ", expected " + std::to_string(n.a.size());
        size_t i = 0;
        for (const auto& e : a) {
            auto d = diff(e, n.a[i], at + "[" + std::to_string(i) + "]");
            if (!d.empty()) return d;
            ++i;
        }
        if (i != n.a.size()) return at + ": iteration count";
        break;
    }
    case Obj: {
        const json::object& o = v.as_object();
        if (o.size() != n.o.size() || o.empty() != n.o.empty())
            return at + ": object size " + std::to_string(o.size()) + ", expected " + std::to_string(n.o.size());
        auto it = n.o.begin();
        for (const auto& [k, e] : o) {
            if (it == n.o.end()) return at + ": too many members";
            if (k != it->first) return at + ": key " + mc::show(k) + ", expected " + mc::show(it->first);
            auto d = diff(e, it->second, at + "." + k);
            if (!d.empty()) return d;
            ++it;
        }
        if (it != n.o.end()) return at + ": too few members";
        break;
    }
    }
    return "";
}

// The strongest read-only observation of a value against the model.
inline std::string observe(const json::value& v, const Node& n)
{
    auto d = diff(v, n);
    if (!d.empty()) return d;
    std::string t = dump(n);
    if (v.to_string() != t) return "text " + mc::show(v.to_string()) + ", expected " + mc::show(t);
    if (v.dumps() != t) return "dumps() text differs";
    if (v.format() != format(n)) return "formatted text " + mc::show(v.format()) + ", expected " + mc::show(format(n));
    if (!(v == v) || v != v) return "not equal to itself";
    if (n.k == Arr) {
        const auto& a = v.as_array();
        for (size_t i = 0; i < n.a.size(); ++i) {
            if (&v.at(i) != &a[i] || &v[i] != &a[i] || &a.at(i) != &a[i]) return "positional access differs";
            if (!v.contains(i) || !v.exists(i) || v.find_value(i) != &a[i] || v.find(i) != a[i]) return "positional lookup differs";
        }
        if (v.contains(n.a.size()) || v.exists(n.a.size()) || v.find_value(n.a.size()) || v.find(n.a.size())) return "phantom element";
        if (a.to_string() != t || a.format() != format(n)) return "array text differs";
        size_t i = n.a.size();
        for (auto it = a.rbegin(); it != a.rend(); ++it)
            if (&*it != &a[--i]) return "reverse iteration differs";
        if (size_t(a.cend() - a.cbegin()) != n.a.size()) return "iterator distance differs";
    }
    else {
        if (v.contains(size_t(0)) || v.find_value(size_t(0))) return "positional lookup in a non-array";
    }
    if (n.k == Obj) {
        const auto& o = v.as_object();
        for (auto& [k, e] : n.o) {
            if (!v.contains(k) || !v.exists(k) || !o.contains(k) || !o.exists(k)) return "member reported absent";
            const json::value* p = v.find_value(k);
            if (!p || p != &v.at(k) || p != &o.at(k) || p != o.find_value(k)) return "member lookup differs";
            if (v.find(k) != *p) return "optional lookup differs";
        }
        if (o.to_string() != t || o.format() != format(n)) return "object text differs";
        for (const char* k : { "", "a", "b", "zz" })
            if (v.contains(k) != (n.o.count(k) > 0) || (v.find_value(k) != nullptr) != (n.o.count(k) > 0)) return "phantom member";
    }
    else {
        if (v.contains("a") || v.find_value("a")) return "key lookup in a non-object";
    }
    return "";
}

// The tree a value currently holds, read through observers only (for states the contract leaves open).
inline Node readout(const json::value& v)
{
    using T = json::value::value_type;
    switch (v.type()) {
    case T::null: return null();
    case T::boolean: return boolean(v.as_boolean());
    case T::number: return num(v.to_string());
    case T::string: return str(v.as_string());
    case T::array: {
        Node n = arr();
        for (const auto& e : v.as_array()) n.a.push_back(readout(e));
        return n;
    }
    case T::object: {
        Node n = obj();
        for (const auto& [k, e] : v.as_object()) n.o[k] = readout(e);
        return n;
    }
    default: mc::fail("a value is in an invalid state");
    }
}

inline void expect(const json::value& v, const Node& n, const char* what)
{
    auto d = observe(v, n);
    if (!d.empty()) mc::fail(std::string(what) + ": " + d);
}
inline void expect_same(const json::value& v, const Node& n, const char* what)
{
    auto d = diff(v, n);
    if (!d.empty()) mc::fail(std::string(what) + ": " + d);
}

// Compare a parse of the library with the model's parse.
inline void check_parse(const std::optional<json::value>& got, const std::optional<Node>& want, std::string_view text)
{
    mc::step();
    mc::validated();
    if (bool(got) != bool(want)) mc::fail(std::string(got ? "accepted" : "rejected") + " but must be " + (want ? "accepted" : "rejected") + ": " + mc::show(text));
    if (got) {
        auto d = diff(*got, *want);
        if (!d.empty()) mc::fail(d + " for " + mc::show(text));
    }
}
} // namespace ref
