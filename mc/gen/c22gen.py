#!/usr/bin/env python3
"""c22gen.py <part> <parts> <out> <tier>: reflected structs of every size and tag combination."""
import itertools, sys
part, parts, out, tier = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4]
TYPES = ["int", "S", "bool", "double", "std::vector<int>", "std::optional<int>", "SM", "json::value", "rf::Inner", "json::array", "json::object", "rf::Color"]
INIT = ["= -77", '= "init"', "= true", "= 0.25", "{ 9, 9 }", "{ 8 }", '{ { "i", "i" } }', '= "iv"', "", '= json::array { "ia" }', '= json::object { { "io", 1 } }', "= rf::Color::blue"]
body, regs = [], []
nstruct = 0


def cstr(s):
    return '"' + "".join(c if 0x20 <= ord(c) < 0x7f and c not in '"\\' else "".join("\\%03o" % b for b in c.encode()) for c in s) + '"'


def struct(title, fields, deep=True, pre="", base="", priv=False, macro="MEO_JSONIZATION"):
    """fields: (name, type index, tag) with tag '' | 'o' | 'k' | 'ok' | 'ko' and key"""
    global nstruct
    deep = deep or tier == "thorough"
    me = nstruct
    nstruct += 1
    if me % parts != part:
        return
    n = "T%d" % me
    decl, mac, ptr, info = [], [], [], []
    for name, t, tag, key in fields:
        decl.append("    %s %s %s;" % (TYPES[t], name, INIT[t]))
        m = ""
        for c in tag:
            m += "MEO_OPT " if c == "o" else "MEO_KEY(%s) " % cstr(key)
        mac.append(m + name)
        ptr.append("&" + name)
        info.append("{ %s, %s, %d }" % (cstr(key if "k" in tag else name), "true" if "o" in tag else "false", t))
    own = [d for d in decl]
    if base:
        k = len(decl) // 2
        body.append("struct %sB\n{\n%s\n};" % (n, "\n".join(decl[:k])))
        own = decl[k:]
    body.append("%s %s%s\n{\n%s%s%s\n    %s(%s)\n    std::vector<void*> ptrs() { return { %s }; }\n};" % (
        "class" if priv else "struct", n, " : public %sB" % n if base else "", pre, "\n".join(own), "\npublic:" if priv else "", macro, ", ".join(mac), ", ".join(ptr)))
    regs.append("    rf::reg<%s, %s>(%s, { %s });" % (n, "true" if deep else "false", cstr("T%d %s" % (me, title)), ", ".join(info)))


# every number of fields
for n in range(1, 65):
    struct("%d fields" % n, [("f%d" % i, (i + n) % len(TYPES), "", "") for i in range(n)], deep=n <= 3)
# every number of macro elements, with tags among them
for total in range(2, 65):
    fs, used, i = [], 0, 0
    pat = ["o", "", "k", "ok", "ko", "", "o"]
    while used < total:
        tag = pat[(i + total) % len(pat)]
        if used + 1 + len(tag) > total:
            tag = tag[: total - used - 1]
        fs.append(("m%d" % i, (i * 5 + total) % len(TYPES), tag, "key %d" % i))
        used += 1 + len(tag)
        i += 1
    struct("%d elements" % total, fs, deep=False)
# every tag combination of up to three fields
TAGS = ["", "o", "k", "ok", "ko"]
for n in (1, 2, 3):
    for ci, combo in enumerate(itertools.product(TAGS, repeat=n)):
        struct("tags " + ",".join(combo), [("abc"[j], (ci * 7 + j * 3) % len(TYPES), t, "k" + "zyx"[j]) for j, t in enumerate(combo)], deep=n < 2)
# every type as the only field, plain and optional and renamed
for t in range(len(TYPES)):
    for tag in ("", "ok"):
        struct("type", [("x", t, tag, "X")], deep=tag != "")
# key spellings
KEYS = ["", " ", "a b", '"', "\\", "/", "é", "\n", "\x01", "\x7f", "x" * 15, "x" * 16, "x" * 33, "0", "null", "a.b", "ключ", "A", "%s", "??/"]
for k in KEYS:
    struct("key " + repr(k), [("p", 0, "", ""), ("q", 1, "k", k), ("r", 4, "ok", k + "#")], deep=False)
# swapped and shadowing names
struct("swapped", [("a", 0, "k", "b"), ("b", 1, "k", "a")])
struct("rotated", [("a", 0, "k", "b"), ("b", 1, "k", "c"), ("c", 4, "ok", "a")])
NAMES = ["result", "in", "error_key", "key", "val", "state", "rest", "value", "object", "var", "value_", "json_", "string", "size", "type", "data", "i", "x", "N", "pred", "first", "second",
         "_x", "to", "from", "name", "override_key", "is_optional", "dumper", "checker", "loader", "e", "std_", "array", "args", "_0", "_64", "is", "as", "find_value", "emplace"]
for k in NAMES:
    for tag in ("", "o") if tier == "thorough" else ("",):
        struct("name " + k, [("aa", 0, "", ""), (k, 1, tag, ""), ("zz", 2, "", "")], deep=False)
struct("all names", [(k, j % len(TYPES), "", "") for j, k in enumerate(NAMES)], deep=False)
# private members, inherited members, other members around the macro
for t in range(len(TYPES)):
    fs = [("a", t, "", ""), ("b", (t + 1) % len(TYPES), "o", ""), ("c", (t + 2) % len(TYPES), "k", "cc"), ("d", (t + 3) % len(TYPES), "", "")]
    struct("private", fs, deep=False, priv=True)
    struct("inherited", fs, deep=False, base=True)
    struct("other members", fs, deep=False, pre='    int other1 = 5;\n    std::string a_other = "q";\n    static constexpr int st = 4;\n    void result_() {}\n')
# separate macros
for t in range(len(TYPES)):
    fs = [("a", t, "", ""), ("b", (t + 5) % len(TYPES), "o", ""), ("c", (t + 7) % len(TYPES), "k", "cc")]
    struct("separate macros", fs, deep=False, macro="SEPARATE")
with open(out, "w") as f:
    f.write('#include "refl.hpp"\n#define SEPARATE(...) MEO_FROMJSON(__VA_ARGS__) MEO_TOJSON(__VA_ARGS__) MEO_CHECKJSON(__VA_ARGS__)\nnamespace gen\n{\nusing S = std::string;\nusing SM = std::map<S, S>;\n')
    f.write("\n".join(body))
    f.write("\n} // namespace gen\nvoid rf::register_all()\n{\n    using namespace gen;\n" + "\n".join(regs) + "\n}\n")
