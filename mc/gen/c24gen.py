#!/usr/bin/env python3
"""c24gen.py <part> <parts> <lo> <hi> <as_number> <out> <tier>: enumerations of every underlying type, place and shape."""
import sys
part, parts, LO, HI, asnum, out, tier = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5] == "1", sys.argv[6], sys.argv[7]
U = {"signed char": (-2**7, 2**7 - 1), "char": (-2**7, 2**7 - 1), "unsigned char": (0, 2**8 - 1), "short": (-2**15, 2**15 - 1), "unsigned short": (0, 2**16 - 1),
     "int": (-2**31, 2**31 - 1), "unsigned": (0, 2**32 - 1), "long": (-2**63, 2**63 - 1), "unsigned long": (0, 2**64 - 1),
     "long long": (-2**63, 2**63 - 1), "unsigned long long": (0, 2**64 - 1)}
SHAPES = [
    # name, names/values, declared range or None
    ("dense", [("red", 0), ("green", 1), ("blue", 2), ("Dark_Red", 3)], None),
    ("ends", [("first", "LO"), ("second", "LO+1"), ("z", 0), ("before", "HI-1"), ("last", "HI")], None),
    ("around", [("out_low", "LO-1"), ("in_low", "LO"), ("in_high", "HI"), ("out_high", "HI+1")], None),
    ("huge", [("zero", 0), ("least", "UMIN"), ("most", "UMAX"), ("p31", 2**31), ("n31", -2**31), ("p32", 2**32), ("p32_1", 2**32 + 1), ("n32", -2**32)], None),
    ("case", [("name", 0), ("NAME", 1), ("Name", 2), ("nAmE", 3), ("other", 4), ("OTHER", 5)], None),
    ("prefix", [("a", 0), ("ab", 1), ("abc", 2), ("abcd", 3), ("b", 4), ("_", 5), ("__a", 6), ("a_", 7), ("_a", 8), ("a1", 9), ("a11", 10), ("A_B", 11), ("Z", 12), ("z9", 13)], None),
    ("one", [("only", 5)], None),
    ("none", [], None),
    ("sparse", [("n100", -100), ("n7", -7), ("n1", -1), ("p1", 1), ("p2", 2), ("p4", 4), ("p8", 8), ("p64", 64), ("p100", 100)], None),
    ("long", [("x" * 64, 0), ("x" * 63 + "y", 1), ("Long_" * 60 + "a", 2), ("Long_" * 60 + "b", 3)], None),
    ("alias", [("one", 1), ("uno", 1), ("two", 2)], None),
    ("ranged", [("lo", 10), ("mid", 12), ("hi", 14)], (10, 14)),
    ("single", [("x", 77)], (77, 77)),
    ("far", [("lo", 1000), ("mid", 1003), ("hi", 1010)], (1000, 1010)),
    ("wide", [("lo", -300), ("zero", 0), ("hi", 300)], (-300, 300)),
    ("below", [("a", -20), ("b", -10), ("c", -15)], (-20, -10)),
    ("beyond", [("out1", 4), ("in1", 5), ("in2", 9), ("out2", 10)], (5, 9)),
    ("intmax", [("a", 2**31 - 4), ("b", 2**31 - 2)], (2**31 - 5, 2**31 - 2)),
    ("intmin", [("a", -2**31), ("b", -2**31 + 3)], (-2**31, -2**31 + 5)),
    ("bytehigh", [("a", 200), ("b", 255), ("c", 250)], (200, 255)),
    ("words", [("V", 0), ("E", 1), ("with", 2), ("constexpr_", 3), ("invalid", 4), ("null_", 5), ("True", 6), ("begin", 7), ("end", 8), ("value", 9), ("json", 10), ("std", 11), ("min", 12)], None),
]
PLACES = ["namespace", "global", "class", "template", "local", "anonymous", "local_template", "inline_ns"]
body, regs, n = [], [], 0


def lit(v):
    if v >= 2**63:
        return "%dull" % v
    if v == -2**63:
        return "(-9223372036854775807ll - 1)"
    return "%dll" % v


def emit(u, shape, scoped, place):
    global n
    title, names, rng = shape
    scoped = scoped or title == "words"
    umin, umax = U[u]
    lo, hi = rng if rng else (LO, HI)
    if rng and (rng[0] < umin or rng[1] > umax):
        return
    env = {"LO": LO, "HI": HI, "UMIN": umin, "UMAX": umax}
    vals = []
    for nm, v in names:
        v = eval(v, env) if isinstance(v, str) else v
        if umin <= v <= umax and nm not in [a for a, _ in vals] and (title == "alias" or v not in [b for _, b in vals]):
            vals.append((nm, v))
    if asnum and u == "char":
        return
    me = n
    n += 1
    if me % parts != part:
        return
    e = "E%d" % me
    items = ["%s = %s" % (nm, "static_cast<%s>(%s)" % (u, lit(v)) if umin <= v <= umax else 0) for nm, v in vals]
    if rng:
        items.append("MEOJSON_ENUM_RANGE(static_cast<%s>(%s), static_cast<%s>(%s))" % (u, lit(lo), u, lit(hi)))
    decl = "enum %s%s : %s { %s };" % ("class " if scoped else "", e, u, ", ".join(items))
    info = ", ".join('{ "%s", V(%s) }' % (nm, lit(v)) for nm, v in vals)
    deep = ', true' if tier == 'thorough' or (me // parts) % 4 == 0 else ''
    r = 'en::reg<%%s%s>("%s %s %s%s in %s", V(%s), V(%s), { %s });' % (deep, e, title, "scoped " if scoped else "", u, place, lit(lo), lit(hi), info)
    if place == "global" and not scoped:
        place = "namespace"
    if place == "global":
        body.append(decl)
        regs.append(r % ("::" + e))
    elif place == "namespace":
        body.append("namespace ns%d { namespace V { %s } }" % (me, decl))
        regs.append(r % ("ns%d::V::%s" % (me, e)))
    elif place == "inline_ns":
        body.append("namespace ns%d { inline namespace v1 { %s } }" % (me, decl))
        regs.append(r % ("ns%d::%s" % (me, e)))
    elif place == "anonymous":
        body.append("namespace ns%d { namespace { %s } }" % (me, decl))
        regs.append(r % ("ns%d::%s" % (me, e)))
    elif place == "class":
        body.append("struct C%d { %s };" % (me, decl))
        regs.append(r % ("C%d::%s" % (me, e)))
    elif place == "template":
        body.append("template <typename V_, int N> struct C%d { %s };" % (me, decl))
        regs.append(r % ("C%d<std::map<std::string, int[3]>, ';'>::%s" % (me, e)))
    elif place == "local":
        body.append("static void f%d() { %s using namespace en; %s }" % (me, decl, r % e))
        regs.append("f%d();" % me)
    else:
        body.append("template <typename TE, int V_> static void f%d() { %s using namespace en; %s }" % (me, decl, r % e))
        regs.append("f%d<std::vector<int>, 3>();" % me)


k = 0
for u in U:
    for s in SHAPES:
        scopeds = (True, False)
        for sc in scopeds:
            k += 1
            if tier != "thorough" and sc != ((list(U).index(u) + SHAPES.index(s)) % 2 == 0):
                continue
            emit(u, s, sc, PLACES[(k * 5 + k // 8) % len(PLACES)])
body.append("")
src = '#include "enums.hpp"\nusing en::V;\n' + "\n".join(body) + "\nvoid en::register_all()\n{\n    " + "\n    ".join(regs) + "\n"
if part == 0:
    src += '    en::reg<std::byte>("std::byte", %d, %d, {});\n' % (LO, HI)
src += "}\n"
open(out, "w").write(src)
