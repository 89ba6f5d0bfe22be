"""Generates registered types for the layout check: every sequence of member
kinds up to a length (the 'programs' the layout property quantifies over)."""
import itertools, os

KINDS = [("char", 0), ("short", 0), ("int", 0), ("double", 0), ("char", 3), ("float", 2), ("S12", 2), ("int", 1)]
# combined with each other and the above in pairs
MORE = [("S5", 0), ("S40", 0), ("S5", 3), ("short", 17), ("char", 300), ("double", 33)]
# array members of many arities, in a few types only
ARITIES = [2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 31, 32, 63, 64, 65, 128]
WIDE = [(b, a) for b in ("char", "int") for a in ARITIES]
ALL = KINDS + MORE + WIDE
PARTS = 8


def types(thorough):
    if thorough: # additional types of the thorough tier
        return list(itertools.product([0, 1, 3, 4, 5], repeat=4))
    t = []
    for n in (1, 2):
        t += list(itertools.product(range(len(KINDS)), repeat=n))
    t += [p for n in (1, 2) for p in itertools.product(range(len(KINDS + MORE)), repeat=n) if max(p) >= len(KINDS)]
    t += list(itertools.product(range(7), repeat=3))
    # long mixed types: rotations of one long list, up to the maximum the macros take
    for n in (5, 9, 17, 33, 50):
        t.append(tuple((i * 5 + n) % len(KINDS) for i in range(n)))
    w = list(range(len(KINDS + MORE), len(ALL)))
    for k in range(0, len(w), 9):
        t.append(tuple(w[k:k + 9]))
    t.append(tuple(w[::2]))
    t.append((0,) + tuple(reversed(w[1::2])))
    return t


def generate(path, part, parts, thorough):
    out = []
    names = []
    for i, t in enumerate(types(thorough)):
        if i % parts != part:
            continue
        n = "T%d" % (i + (10000 if thorough else 0))
        names.append(n)
        decl, reg = [], []
        for k, kind in enumerate(t):
            base, ar = ALL[kind]
            decl.append("    %s m%d%s;" % (base, k, "[%d]" % ar if ar else ""))
            reg.append("((%s)(m%d)%s)" % (base, k, "(%d)" % ar if ar else ""))
        out.append("class %s { public: LIBFLATARRAY_ACCESS\n"
                   "    class API { public: LIBFLATARRAY_CUSTOM_SIZES((3), (2), (2)) };\n"
                   "    %s unregistered0;\n%s\n    S12 unregistered1[2]; short unregistered2[3];\n};" % (n, ALL[t[0]][0], "\n".join(decl)))
        out.append("LIBFLATARRAY_REGISTER_SOA(%s, %s)" % (n, "".join(reg)))
        body = []
        for k, kind in enumerate(t):
            base, ar = ALL[kind]
            if ar:
                body.append("        v.member(%d, sizeof(%s), %d, LibFlatArray::member_ptr_to_offset()(&%s::m%d), (char*)&a.template access_member<%s, %d>());" % (k, base, ar, n, k, base, k))
                for e in (range(ar) if ar < 10 else (0, 1, ar // 2, ar - 2, ar - 1)):
                    body.append("        v.element(%d, (char*)&a.m%d()[%d], (char*)&a.template m%d<%d>());" % (e, k, e, k, e))
            else:
                body.append("        v.member(%d, sizeof(%s), 0, LibFlatArray::member_ptr_to_offset()(&%s::m%d), (char*)&a.template access_member<%s, %d>());" % (k, base, n, k, base, k))
                body.append("        v.element(0, (char*)&a.m%d(), (char*)&a.m%d());" % (k, k))
        setb, size = [], 0
        for k, kind in enumerate(t):
            base, ar = ALL[kind]
            setb.append("        v.raw(c.m%d);" % k)
        out.append("template<> struct Desc<%s> {\n    static const int MEMBERS = %d;\n"
                   "    template<typename A, typename V> static void visit(A& a, V& v) {\n%s\n    }\n"
                   "    template<typename V> static void cell(%s& c, V& v) {\n%s\n    }\n"
                   "    template<typename V> static void unregistered(V& v) {\n"
                   "        v(&%s::unregistered0); v(&%s::unregistered1); v(&%s::unregistered2);\n    }\n};" % (n, len(t), "\n".join(body), n, "\n".join(setb), n, n, n))
    out.append("static void all_types() {\n%s\n}" % "\n".join("    check_type<%s>(\"%s\", %d);" % (n, n, int(n[1:])) for n in names))
    with open(path, "w") as f:
        f.write("\n".join(out) + "\n")


def prepare(part, parts, thorough, name):
    def f(work, repo, verif):
        d = os.path.join(work, "gen_" + name)
        os.makedirs(d, exist_ok=True)
        generate(os.path.join(d, "generated.hpp"), part, parts, thorough)
    return f
