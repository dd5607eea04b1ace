// Finite, completely indexed spaces of texts given to the parsers.
#pragma once
#include <algorithm>
#include "ref.hpp"

namespace sp
{
struct Space
{
    std::string name;
    uint64_t count;
    std::function<std::string(uint64_t)> text;
};

using S = std::string;
inline S S0(const char* p, size_t n) { return S(p, n); }

inline const std::vector<S>& docs()
{
    static const std::vector<S> d = {
        "[]",
        "{}",
        "[null,true,false]",
        "[0,-1,10,1.5,-0.25,1e5,1E+5,2e-3,-0]",
        "[\"\",\"a\",\"\\\"\\\\\\/\\b\\f\\n\\r\\t\",\"\\u0041\\ud83d\\ude00\\u20aC\"]",
        "{\"a\":1}",
        "{\"a\":{\"b\":[{\"c\":null}]},\"d\":[]}",
        " [ 1 , 2 ] ",
        "\t{ \"a\" :\n1 ,\r\"b\" : [ ] }\n",
        "[[[[]]]]",
        "[{},[],{\"\":{}}]",
        "{\"k\\u0041\":\"v\",\"\":false,\"\\n\":0}",
        "[\"0123456789abcdef0123456789abcdef0123456789\",\"0123456789abcde\\n0123456789abcdef\"]",
        "{\"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\":true,\"b\":false}",
        "[\"\xc3\xa9\xe4\xbd\xa0\xf0\x9f\x98\x80\",\"\x7f\x80\xff\"]",
        "[12345678901234567890123456789012345678901234567890.5e-300]",
    };
    return d;
}

inline const std::vector<S>& jsonc_docs()
{
    static const std::vector<S> d = {
        "[1,]",
        "{\"a\":1,}",
        "//c\n[1]//c",
        "/*c*/[/*c*/1/*c*/,/*c*/2/*c*/]/*c*/",
        "{/**/\"a\"/*a*/:/***/1/* /* */,// x\n\"b\"//\n:2}//",
        "[\"/*s*/\",\"//s\",]//e\n",
        "{\"a\":[1,/*,*/],\"b\":{},/*}*/}",
        "/*\"*/{\"\\/\":\"/\"}",
        "[1//\r\n,2]",
    };
    return d;
}

// Every string of length 0..max over an alphabet of symbols (each symbol a string), between prefix and suffix.
inline Space words(S name, std::vector<S> sym, unsigned max, S prefix = "", S suffix = "", unsigned min = 0)
{
    uint64_t total = 0;
    std::vector<uint64_t> start;
    for (unsigned l = min; l <= max; ++l) {
        start.push_back(total);
        total += mc::ipow(sym.size(), l);
    }
    return { std::move(name), total, [=](uint64_t i) {
                unsigned l = max - min;
                while (i < start[l]) --l;
                mc::Dec d(i - start[l]);
                S r = prefix;
                for (unsigned k = 0; k < l + min; ++k) r += sym[d(sym.size())];
                return r + suffix;
            } };
}

inline std::vector<S> chars(std::string_view cs)
{
    std::vector<S> r;
    for (char c : cs) r.push_back(S(1, c));
    return r;
}

// prefix + n arbitrary bytes + suffix
inline Space bytes(S name, unsigned n, S prefix, S suffix)
{
    return { std::move(name), mc::ipow(256, n), [=](uint64_t i) {
                S r = prefix;
                for (unsigned k = 0; k < n; ++k) r += char(i >> (8 * k));
                return r + suffix;
            } };
}

// Every edit of one byte (replace by each of 256, insert each of 256, delete, truncate) at every position of every document.
inline Space edits(S name, const std::vector<S>& base)
{
    std::vector<uint64_t> start;
    uint64_t total = 0;
    for (auto& d : base) {
        start.push_back(total);
        total += (d.size() + 1) * 514;
    }
    return { std::move(name), total, [base, start](uint64_t i) {
                size_t k = start.size() - 1;
                while (i < start[k]) --k;
                i -= start[k];
                S d = base[k];
                size_t pos = i / 514;
                unsigned op = i % 514;
                if (op < 256) {
                    if (pos < d.size()) d[pos] = char(op);
                }
                else if (op < 512) d.insert(pos, 1, char(op - 256));
                else if (op == 512) {
                    if (pos < d.size()) d.erase(pos, 1);
                }
                else d.resize(pos);
                return d;
            } };
}

// Two independent edits over a small alphabet.
inline Space edits2(S name, const std::vector<S>& base, S alphabet)
{
    const uint64_t ops = 2 * alphabet.size() + 1;
    std::vector<uint64_t> start;
    uint64_t total = 0;
    for (auto& d : base) {
        start.push_back(total);
        total += mc::ipow((d.size() + 1) * ops, 2);
    }
    return { std::move(name), total, [=](uint64_t i) {
                size_t k = start.size() - 1;
                while (i < start[k]) --k;
                S d = base[k];
                mc::Dec dec(i - start[k]);
                size_t n = d.size() + 1;
                for (int e = 0; e < 2; ++e) {
                    size_t pos = dec(n);
                    unsigned op = dec(ops);
                    if (pos > d.size()) continue;
                    if (op < alphabet.size()) {
                        if (pos < d.size()) d[pos] = alphabet[op];
                    }
                    else if (op < 2 * alphabet.size()) d.insert(pos, 1, alphabet[op - alphabet.size()]);
                    else if (pos < d.size()) d.erase(pos, 1);
                }
                return d;
            } };
}

// A string (value or key) of every length 0..max with every byte at every position.
inline Space string_bytes(S name, unsigned max, bool key)
{
    uint64_t total = 0;
    std::vector<uint64_t> start;
    for (unsigned l = 1; l <= max; ++l) {
        start.push_back(total);
        total += uint64_t(l) * 256;
    }
    return { std::move(name), total, [=](uint64_t i) {
                size_t k = start.size() - 1;
                while (i < start[k]) --k;
                i -= start[k];
                size_t len = k + 1;
                S s(len, 'x');
                for (size_t j = 0; j < len; ++j) s[j] = char('a' + j % 26);
                s[i / 256] = char(i % 256);
                return key ? "{\"" + s + "\":1}" : "[\"" + s + "\"]";
            } };
}

// Every escape of a list at every offset of a raw run, followed by every raw run length.
inline Space escape_at(S name, unsigned max, bool key)
{
    static const std::vector<S> esc = { "\\n", "\\\"", "\\\\", "\\/", "\\u0041", "\\u00e9", "\\uFFFD", "\\ud83d\\ude00", "\\ud83d", "\\ude00", "\\x", "\\u12g4", "\\u123", "\\", "\\u", "\\ud83dx\\ude00",
                                        "\\ud83d\\n\\ude00", "\\ud83d\\ud83d\\ude00", "\\ude00\\ud83d", "\\u0000" };
    return { std::move(name), uint64_t(max + 1) * (max + 1) * esc.size(), [=](uint64_t i) {
                mc::Dec d(i);
                size_t e = d(esc.size()), a = d(max + 1), b = d(max + 1);
                S s = S(a, 'p') + esc[e] + S(b, 'q');
                return key ? "{\"" + s + "\":1}" : "[\"" + s + "\"]";
            } };
}
// Two escapes separated by a raw run of every length, at every offset.
inline Space escape_pairs(S name, unsigned maxoff, unsigned maxgap, unsigned maxtail)
{
    static const std::vector<S> esc = { "\\n", "\\\\", "\\u0041", "\\ud83d\\ude00", "\\ud83d", "\\ude00", "\\q" };
    return { std::move(name), uint64_t(maxoff + 1) * (maxgap + 1) * (maxtail + 1) * esc.size() * esc.size(), [=](uint64_t i) {
                mc::Dec d(i);
                size_t e = d(esc.size()), f = d(esc.size()), a = d(maxoff + 1), g = d(maxgap + 1), t = d(maxtail + 1);
                return "[\"" + S(a, 'p') + esc[e] + S(g, 'm') + esc[f] + S(t, 'q') + "\"]";
            } };
}

// Objects with up to n members whose keys are drawn from a list with coinciding decodings.
inline Space dup_keys(S name, unsigned n, S prefix, S suffix)
{
    static const std::vector<S> keys = { "a", "b", "\\u0061", "", "\\u0000", "A", "ab", "\\u00e9", "\xc3\xa9" };
    uint64_t total = 0;
    std::vector<uint64_t> start;
    for (unsigned l = 0; l <= n; ++l) {
        start.push_back(total);
        total += mc::ipow(keys.size(), l);
    }
    return { std::move(name), total, [=](uint64_t i) {
                size_t l = n;
                while (i < start[l]) --l;
                mc::Dec d(i - start[l]);
                S r = prefix + "{";
                for (size_t k = 0; k < l; ++k) r += (k ? ",\"" : "\"") + keys[d(keys.size())] + "\":" + std::to_string(k);
                return r + "}" + suffix;
            } };
}

// Objects of every size up to max with one more member at the end: a new key, or a repetition of each key (in two spellings);
// keys ascending, descending or interleaved.
inline Space dup_large(S name, unsigned max, S prefix = "", S suffix = "")
{
    uint64_t total = 0;
    std::vector<uint64_t> start;
    for (unsigned n = 0; n <= max; ++n) {
        start.push_back(total);
        total += uint64_t(2 * n + 1) * 3;
    }
    return { std::move(name), total, [=](uint64_t i) {
                size_t n = std::upper_bound(start.begin(), start.end(), i) - start.begin() - 1;
                mc::Dec d(i - start[n]);
                const size_t order = d(3), what = d(2 * n + 1);
                auto key = [&](size_t k) {
                    k = order == 0 ? k : order == 1 ? n - 1 - k : k % 2 ? n - k / 2 - 1 : k / 2;
                    return "key" + S(3 - std::to_string(k).size(), '0') + std::to_string(k);
                };
                S r = prefix + "{";
                for (size_t k = 0; k < n; ++k) r += "\"" + key(k) + "\":" + std::to_string(k) + ",";
                S last = what == 2 * n ? "key500x" : key(what / 2);
                if (what % 2) last = "\\u006b" + last.substr(1);
                return r + "\"" + last + "\":[]}" + suffix;
            } };
}

// Long tokens: dimension x size x tail variant.
inline Space sizes(S name, unsigned max)
{
    static const std::vector<S> tail = { "", ",", "]", "}", " ", "/", "x", "\"", "0", S(1, '\0') };
    return { std::move(name), uint64_t(max + 1) * 14 * tail.size(), [=](uint64_t i) {
                mc::Dec d(i);
                size_t n = d(max + 1), dim = d(14), t = d(tail.size());
                S r;
                switch (dim) {
                case 0: r = "[" + S(n, '1') + tail[t] + "]"; break;                            // integer digits
                case 1: r = "[0." + S(n, '7') + tail[t] + "]"; break;                          // fraction digits
                case 2: r = "[1e" + S(n, '0') + "5" + tail[t] + "]"; break;                    // exponent digits
                case 3: r = "[\"" + S(n, 'a') + "\"" + tail[t] + "]"; break;                   // string
                case 4: r = "{\"" + S(n, 'k') + "\":1" + tail[t] + "}"; break;                 // key
                case 5:                                                                        // elements
                    r = "[";
                    for (size_t k = 0; k < n; ++k) r += k ? ",0" : "0";
                    r += tail[t] + "]";
                    break;
                case 6: // members
                    r = "{";
                    for (size_t k = 0; k < n; ++k) r += (k ? ",\"" : "\"") + std::to_string(k) + "\":0";
                    r += tail[t] + "}";
                    break;
                case 7: r = "{\"" + S(n, 'k') + "\":1,\"" + S(n, 'k') + tail[t] + "\":2}"; break; // (nearly) duplicate long keys
                case 8: r = S(n, ' ') + "[" + S(n, '\n') + "1" + S(n, '\t') + "]" + S(n, '\r') + tail[t]; break;
                case 9: r = S(n, '[') + tail[t] + S(n, ']'); break; // depth
                case 10:
                    for (size_t k = 0; k < n; ++k) r += "{\"a\":";
                    r += "1" + tail[t] + S(n, '}');
                    break;
                case 11: r = "[" + S(n, '-') + "1" + tail[t] + "]"; break;
                case 12: r = "[" + S(n, '0') + tail[t] + "]"; break;
                case 13: r = S(n, '[') + "1" + S(n ? n - 1 : 0, ']') + tail[t]; break;
                }
                return r;
            } };
}

// A nested document whose closing brackets are replaced one at a time by each symbol.
inline Space brackets(S name, unsigned max)
{
    static const S sym = "[]{},:\"1 /";
    return { std::move(name), uint64_t(max) * max * sym.size() * 2, [=](uint64_t i) {
                mc::Dec d(i);
                size_t n = d(max) + 1, pos = d(max), c = d(sym.size()), kind = d(2);
                S r, close;
                for (size_t k = 0; k < n; ++k) {
                    bool o = kind && k % 2;
                    r += o ? "{\"a\":" : "[";
                    close.insert(close.begin(), o ? '}' : ']');
                }
                r += "0";
                if (pos < close.size()) close[pos] = sym[c];
                return r + close;
            } };
}

inline const std::vector<S>& tokens()
{
    static const std::vector<S> t = { "[", "]", "{", "}", ",", ":", "\"a\"", "\"b\"", "1", "null", " " };
    return t;
}

// The spaces shared by the parser checks.
inline std::vector<Space> core(bool thorough)
{
    std::vector<Space> v;
    v.push_back(words("tokens", tokens(), thorough ? 7 : 6));
    v.push_back(words("tokens-in-array", tokens(), thorough ? 7 : 5, "[1", "]"));
    v.push_back(words("tokens-in-object", tokens(), thorough ? 7 : 5, "{\"x\":1", "}"));
    v.push_back(words("tokens-after-key", tokens(), thorough ? 6 : 4, "{\"x\"", "}"));
    v.push_back(words("tokens-nested", tokens(), thorough ? 6 : 4, "{\"x\":[{\"y\":[", "]}]}"));
    v.push_back(words("number-chars", chars("019-+.eE"), thorough ? 8 : 6, "[", "]"));
    v.push_back(words("number-chars-open", chars("05-+.eE"), thorough ? 6 : 5, "[1,", ""));
    v.push_back(words("number-chars-member", chars("019-+.eE"), 5, "{\"a\":", ",\"b\":0}"));
    v.push_back(words("mixed-chars", chars(S0("[]{},:\"a\\u01-.enft/ \n\0\x01", 24)), thorough ? 5 : 4));
    v.push_back(words("mixed-chars-array", chars(S0("[]{},:\"a\\u01-.enft/ \n\0\x01", 24)), thorough ? 5 : 4, "[", "]"));
    v.push_back(words("string-chars", chars("\\u\"0dD8cCaAfn/x"), thorough ? 6 : 5, "[\"", "\"]"));
    v.push_back(words("surrogate-words", { "\\ud83d", "\\ude00", "\\u0041", "\\u005C", "\\uE000", "\\n", "\\\\", "x", "0123456789abcdef", "\"" }, thorough ? 5 : 4, "[\"", "\"]"));
    v.push_back(words("surrogate-words-key", { "\\ud83d", "\\ude00", "\\u0041", "\\u0022", "\\n", "x", "0123456789abcdef" }, thorough ? 5 : 4, "{\"", "\":1}"));
    v.push_back(words("escape-hex", chars("09afAFgG/:@`\" "), 4, "[\"\\u", "\"]", 4));
    v.push_back(bytes("bytes2", 2, "", ""));
    v.push_back(bytes("bytes-in-array", thorough ? 3 : 2, "[", "]"));
    v.push_back(bytes("bytes-after-number", 2, "[1", "]"));
    v.push_back(bytes("bytes-in-object", 2, "{", "}"));
    v.push_back(bytes("bytes-after-key", 2, "{\"a\"", "1}"));
    v.push_back(bytes("bytes-in-string", 2, "[\"", "\"]"));
    v.push_back(bytes("bytes-after-backslash", 2, "[\"\\", "\"]"));
    v.push_back(bytes("bytes-in-unicode-escape", 2, "[\"\\u0", "0\"]"));
    v.push_back(bytes("bytes-before", 2, "", "[1]"));
    v.push_back(bytes("bytes-after", 2, "[1]", ""));
    v.push_back(bytes("bytes-after-object", 2, "{\"a\":1}", ""));
    v.push_back(edits("edits", docs()));
    v.push_back(edits2("edits2", { "[1,{\"a\":\"\\n\"}]", "{\"a\":[-1.5e2]}" }, thorough ? S0("[]{},:\"\\/ 01-.eu\0\n", 18) : "[]{},:\"\\0-.e"));
    v.push_back(string_bytes("string-bytes", thorough ? 140 : 70, false));
    v.push_back(string_bytes("key-bytes", thorough ? 140 : 50, true));
    v.push_back(escape_at("escape-at", thorough ? 100 : 40, false));
    v.push_back(escape_at("escape-at-key", thorough ? 70 : 36, true));
    v.push_back(escape_pairs("escape-pairs", thorough ? 34 : 17, thorough ? 70 : 36, thorough ? 34 : 17));
    v.push_back(dup_keys("duplicate-keys", thorough ? 5 : 4, "", ""));
    v.push_back(dup_keys("duplicate-keys-nested", 3, "[{\"a\":", "}]"));
    v.push_back(dup_large("duplicate-keys-large", thorough ? 300 : 140));
    v.push_back(dup_large("duplicate-keys-large-nested", thorough ? 140 : 40, "[1,{\"o\":", "}]"));
    v.push_back(sizes("sizes", thorough ? 1100 : 270));
    v.push_back(brackets("brackets", thorough ? 120 : 40));
    return v;
}

inline const std::vector<S>& ctokens()
{
    static const std::vector<S> t = { "[", "]", "{", "}", ",", ":", "\"a\"", "1", " ", "//\n", "/**/", "/", "*", "\n", "//" };
    return t;
}
inline std::vector<Space> comments(bool thorough)
{
    std::vector<Space> v;
    v.push_back(words("c-tokens", ctokens(), thorough ? 6 : 5));
    v.push_back(words("c-tokens-array", ctokens(), thorough ? 6 : 4, "[1", "]"));
    v.push_back(words("c-tokens-object", ctokens(), thorough ? 6 : 4, "{\"x\":1", "}"));
    v.push_back(words("c-tokens-key", ctokens(), thorough ? 5 : 4, "{", "\"x\":1}"));
    v.push_back(words("c-tokens-colon", ctokens(), thorough ? 5 : 4, "{\"x\"", ":1}"));
    v.push_back(words("c-tokens-value", ctokens(), thorough ? 5 : 4, "{\"x\":", "1}"));
    v.push_back(words("c-tokens-after", ctokens(), thorough ? 5 : 4, "[1]", ""));
    v.push_back(words("c-tokens-before", ctokens(), thorough ? 5 : 4, "", "[1]"));
    v.push_back(words("c-chars", chars(S0("/*\n\r, \"1\\\0", 10)), thorough ? 7 : 6, "[1", "]"));
    v.push_back(words("c-chars-after", chars(S0("/*\n\r, \"1\\\0", 10)), thorough ? 7 : 6, "[1]", ""));
    v.push_back(words("c-chars-block", chars(S0("/*\n\",]\0", 7)), thorough ? 7 : 6, "[1/*", "*/]"));
    v.push_back(words("c-chars-line", chars(S0("/*\n\",]\r\0", 8)), thorough ? 7 : 6, "[1//", "\n]"));
    v.push_back(words("c-string", chars("/*\\\"\n,"), thorough ? 7 : 6, "[\"", "\"]"));
    v.push_back(bytes("c-bytes-block", 2, "[/*", "*/1]"));
    v.push_back(bytes("c-bytes-line", 2, "[//", "\n1]"));
    v.push_back(bytes("c-bytes-slash", 2, "[1/", "]"));
    v.push_back(bytes("c-bytes-trailing-comma", 2, "[1,", "]"));
    v.push_back(bytes("c-bytes-trailing-comma-o", 2, "{\"a\":1,", "}"));
    v.push_back(edits("c-edits", jsonc_docs()));
    v.push_back(edits2("c-edits2", { "[1,/**/{\"a\":1,},]", "{//\n\"a\":[],}//" }, "[]{},:\"/*\n1"));
    // comments of every length at every gap
    v.push_back({ "c-lengths", uint64_t(thorough ? 600 : 140) * 9 * 4, [](uint64_t i) {
                     mc::Dec d(i);
                     size_t gap = d(9), kind = d(4), n = d(1000);
                     S c = kind == 0 ? "/*" + S(n, '*') + "*/" : kind == 1 ? "//" + S(n, '/') + "\n" : kind == 2 ? "/*" + S(n, 'x') + "/" : "//" + S(n, 'x') + "\r\n";
                     static const std::vector<S> parts = { "", "{", "\"a\"", ":", "[", "1", ",", "]", ",}" };
                     S r;
                     for (size_t k = 0; k < parts.size(); ++k) {
                         r += parts[k];
                         if (k == gap) r += c;
                     }
                     return r;
                 } });
    return v;
}
} // namespace sp
