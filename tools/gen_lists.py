"""P19: generates the table of list macro uses and the registered types."""
import os

MAX = 50


def lst(n, base=100):
    return "".join("(%d)" % (base + i) for i in range(n))


def nested(n):
    return "".join("((t%d)(m%d))" % (i, i) for i in range(n))


def table(path):
    out = ['// generated by tools/gen_lists.py\n', '#define PAIR(I, ARG, E) <I:ARG:E>\n',
           '#define NAME(I, ARG, E) <I:ARG:LIBFLATARRAY_ELEM(0, E):LIBFLATARRAY_ELEM(1, E)>\n']
    for n in range(MAX + 1):
        out.append("#define L%d %s\n#define N%d %s\n" % (n, lst(n), n, nested(n)))
    out.append("static const Entry ENTRIES[] = {\n")

    def e(kind, n, i, expr, want):
        out.append('{"%s", %d, %d, STR(%s), "%s"},\n' % (kind, n, i, expr, want))

    for n in range(MAX + 1):
        # n <= 50 elements, given as a macro and written out
        e("size", n, 0, "LIBFLATARRAY_SIZE(L%d)" % n, str(n))
        e("size", n, 1, "LIBFLATARRAY_SIZE(%s)" % lst(n, 7), str(n))
        e("size", n, 2, "LIBFLATARRAY_SIZE(N%d)" % n, str(n))
        for i in range(n):
            e("elem", n, i, "LIBFLATARRAY_ELEM(%d, L%d)" % (i, n), str(100 + i))
            e("elem_nested", n, i, "LIBFLATARRAY_ELEM(%d, N%d)" % (i, n), "(t%d)(m%d)" % (i, i))
        if n:
            e("dequeue", n, 0, "LIBFLATARRAY_DEQUEUE(L%d)" % n, lst(n)[5:])
            e("dequeue", n, 1, "LIBFLATARRAY_SIZE(LIBFLATARRAY_DEQUEUE(L%d))" % n, str(n - 1))
            e("for_each", n, 0, "LIBFLATARRAY_FOR_EACH(PAIR, arg, L%d)" % n, "".join("<%d:arg:%d>" % (i, 100 + i) for i in range(n)))
            e("for_each", n, 1, "LIBFLATARRAY_FOR_EACH(NAME, (x)(y), N%d)" % n, "".join("<%d:(x)(y):t%d:m%d>" % (i, i, i) for i in range(n)))
            if n > 1:
                e("for_each", n, 2, "LIBFLATARRAY_FOR_EACH(PAIR, arg, LIBFLATARRAY_DEQUEUE(L%d))" % n, "".join("<%d:arg:%d>" % (i - 1, 100 + i) for i in range(1, n)))
        for k in range(MAX + 1):
            e("if_shorter", n, k, "LIBFLATARRAY_IF_SHORTER(L%d, %d, yes, no)" % (n, k), "yes" if n < k else "no")
    out.append("};\n")
    open(path, "w").write("".join(out))


KINDS = ["int", "char", "double", "short", "float"]


def types(path, ns):
    out = ["// generated by tools/gen_lists.py\n"]
    for n in ns:
        out.append("struct C%d {\n" % n)
        for i in range(n):
            out.append("  %s m%d;\n" % (KINDS[(i + n) % 5], i))
        out.append("};\nLIBFLATARRAY_REGISTER_SOA(C%d, %s)\n" % (n, "".join("((%s)(m%d))" % (KINDS[(i + n) % 5], i) for i in range(n))))
        out.append("static void run_%d() {\n  Test<C%d> t(%d);\n" % (n, n, n))
        for i in range(n):
            out.append("  MEMBER(C%d, %s, m%d, %d)\n" % (n, KINDS[(i + n) % 5], i, i))
        out.append("  t.done();\n}\n")
    out.append("static void run_all() {\n" + "".join("  run_%d();\n" % n for n in ns) + "}\n")
    open(path, "w").write("".join(out))


def prepare(name, part=None, parts=None):
    def f(work, repo, verif):
        d = os.path.join(work, "gen_" + name)
        os.makedirs(d, exist_ok=True)
        if part is None:
            table(os.path.join(d, "table.inc"))
        else:
            types(os.path.join(d, "types.inc"), [n for n in range(1, MAX + 1) if n % parts == part])
    return f
