"""P20: copies the headers and turns kernel launches (which only nvcc understands)
into calls of the emulated device. Nothing else is changed."""
import os, re, shutil


def callee_start(s, end):
    """start of the expression (name, scope, template arguments) that ends at end"""
    i = end
    while True:
        while i > 0 and s[i - 1].isspace():
            i -= 1
        if i > 0 and s[i - 1] == ">":
            depth = 0
            while i > 0:
                i -= 1
                if s[i] == ">":
                    depth += 1
                elif s[i] == "<":
                    depth -= 1
                    if depth == 0:
                        break
                elif s[i] == ")":
                    d = 0
                    while i >= 0:
                        d += {")": 1, "(": -1}.get(s[i], 0)
                        if d == 0:
                            break
                        i -= 1
            continue
        m = re.search(r"[A-Za-z_]\w*$", s[:i])
        if not m:
            return i
        i = m.start()
        k = len(s[:i].rstrip())
        if s[:k].endswith("::"):
            i = k - 2
            continue
        if re.search(r"\btemplate$", s[:k]):
            i = k - 8
            k = len(s[:i].rstrip())
            if s[:k].endswith("::"):
                i = k - 2
                continue
        return i


def close(s, i):
    """index behind the parenthesis that matches the one at i"""
    d = 0
    while True:
        d += {"(": 1, ")": -1}.get(s[i], 0)
        i += 1
        if d == 0:
            return i


def strip_comments(s):
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"', lambda m: m.group() if m.group()[0] == '"' else re.sub(r"[^\n]", " ", m.group()), s, flags=re.S)


def split(args):
    parts, depth, last = [], 0, 0
    for i, c in enumerate(args):
        depth += {"(": 1, "[": 1, "{": 1, ")": -1, "]": -1, "}": -1}.get(c, 0)
        if c == "," and depth == 0:
            parts.append(args[last:i])
            last = i + 1
    return parts + [args[last:]]


def translate(s):
    if "<<<" not in s:
        return s
    s = strip_comments(s)
    while True:
        at = s.find("<<<")
        if at < 0:
            return s
        start = callee_start(s, at)
        name = s[start:at].strip()
        stop = s.index(">>>", at)
        config = split(s[at + 3:stop])[:2]
        paren = s.index("(", stop)
        end = close(s, paren)
        args = s[paren + 1:end - 1].strip()
        call = "::cuda_emu::launch(%s, %s, [=](auto... lfa_args) { %s(lfa_args...); }%s)" % (config[0].strip(), config[1].strip(), name, ", " + args if args else "")
        s = s[:start] + call + s[end:]


def prepare(name):
    def f(work, repo, verif):
        to = os.path.join(work, "gen_" + name)
        shutil.rmtree(to, ignore_errors=True)
        src = os.path.join(repo, "include")
        for root, dirs, files in os.walk(src):
            rel = os.path.relpath(root, src)
            os.makedirs(os.path.join(to, rel), exist_ok=True)
            for x in files:
                p = os.path.join(root, x)
                with open(p, errors="surrogateescape") as h:
                    t = translate(h.read())
                with open(os.path.join(to, rel, x), "w", errors="surrogateescape") as h:
                    h.write(t)
    return f


if __name__ == "__main__":
    import sys
    sys.stdout.write(translate(open(sys.argv[1], errors="surrogateescape").read()))
