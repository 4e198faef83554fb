"""A small Rust front end: lexer, token trees, items, macro_rules expansion, printing.

Everything the verifier reads of /repo goes through this module.  It never interprets text:
it splits the source into tokens, drops comments, and re-prints the tokens it was given.
"""
import re


class Lost(Exception):
    """The extraction cannot be done faithfully: the proof is undecided, never an alarm."""


class Tok:
    __slots__ = ("t", "k", "joint", "line")

    def __init__(self, t, k, joint, line):
        self.t, self.k, self.joint, self.line = t, k, joint, line

    def __repr__(self):
        return self.t


class Grp:
    """A delimited group of tokens; d is '(', '[', '{' or '' (invisible)."""
    __slots__ = ("d", "ts", "line", "joint")

    def __init__(self, d, ts, line=0):
        self.d, self.ts, self.line, self.joint = d, ts, line, False

    def __repr__(self):
        return show([self])


CLOSE = {"(": ")", "[": "]", "{": "}"}
LEX = re.compile(r"""
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<raw>(?:b|c)?r(?P<h>\#*)"(?:.|\n)*?"(?P=h))
 |(?P<str>(?:b|c)?"(?:[^"\\]|\\.|\\\n)*")
 |(?P<chr>b?'(?:[^'\\\n]|\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.))')
 |(?P<life>'[A-Za-z_][A-Za-z0-9_]*)
 |(?P<num>[0-9][0-9a-zA-Z_]*(?:\.[0-9][0-9_]*(?:[eE][+-]?[0-9_]+)?)?)
 |(?P<id>(?:r\#)?[A-Za-z_][A-Za-z0-9_]*)
 |(?P<p>[!-/:-@\[-`{-~])
""", re.X)


def lex(src):
    out, i, n, line = [], 0, len(src), 1
    while i < n:
        m = LEX.match(src, i)
        if not m:
            raise Lost(f"cannot lex at line {line}: {src[i:i+20]!r}")
        k, s = m.lastgroup, m.group(0)
        if k == "h":
            k = "raw"
        if k == "bc":
            depth, j = 1, i + 2
            while depth and j < n:
                if src.startswith("/*", j):
                    depth, j = depth + 1, j + 2
                elif src.startswith("*/", j):
                    depth, j = depth - 1, j + 2
                else:
                    j += 1
            s = src[i:j]
        elif k not in ("ws", "lc"):
            nxt = src[i + len(s):i + len(s) + 1]
            joint = k == "p" and bool(re.match(r"[!-/:-@\[-`{-~]", nxt)) and nxt not in "()[]{}\"'" and s not in "()[]{}"
            out.append(Tok(s, k, joint, line))
        line += s.count("\n")
        i += len(s)
    return out


def tree(toks):
    stack, cur = [], []
    for t in toks:
        if t.k == "p" and t.t in "([{":
            stack.append((cur, t))
            cur = []
        elif t.k == "p" and t.t in ")]}":
            if not stack or CLOSE[stack[-1][1].t] != t.t:
                raise Lost(f"unbalanced {t.t} at line {t.line}")
            ts = cur
            cur, o = stack.pop()
            cur.append(Grp(o.t, ts, o.line))
        else:
            cur.append(t)
    if stack:
        raise Lost("unbalanced delimiters")
    return cur


def parse(src):
    return tree(lex(src))


NOSP = re.compile(r"[A-Za-z0-9_'\"]")


def show(ts):
    """Print tokens; a newline after ; and around braces, so that errors have useful lines."""
    out = []

    def go(ts):
        for t in ts:
            if isinstance(t, Grp):
                if t.d == "":
                    go(t.ts)
                elif t.d == "{":
                    out.append("{\n" if t.ts else "{")
                    go(t.ts)
                    out.append("\n}\n" if t.ts else "}\n")
                else:
                    out.append(t.d)
                    go(t.ts)
                    out.append(CLOSE[t.d] + " ")
            elif t.k == "raw!":
                out.append("\n" + t.t + "\n")
            elif t.t == ";":
                out.append(";\n")
            elif t.joint:
                out.append(t.t)
            else:
                out.append(t.t + " ")

    go(ts)
    return "".join(out)


def flat(ts):
    for t in ts:
        if isinstance(t, Grp):
            if t.d:
                yield t.d
            yield from flat(t.ts)
            if t.d:
                yield CLOSE[t.d]
        else:
            yield t.t


def text(ts):
    """Canonical one-line text, for comparing and hashing."""
    return " ".join(flat(ts))


def isp(t, s):
    return isinstance(t, Tok) and t.t == s


def isg(t, d):
    return isinstance(t, Grp) and t.d == d


def isid(t):
    return isinstance(t, Tok) and t.k == "id"


# ---------------------------------------------------------------- items

class Item:
    def __init__(self, kind, name, line):
        self.kind, self.name, self.line = kind, name, line
        self.attrs, self.vis, self.head, self.body, self.items = [], [], [], None, []
        self.quals, self.generics, self.params, self.ret, self.where = [], [], None, None, []
        self.all = []

    def attr_texts(self):
        return [text([a]) for a in self.attrs]

    def is_test(self):
        return any("cfg ( test )" in a for a in self.attr_texts())


def angle(ts, i):
    """ts[i] is '<': index just after the matching '>'."""
    depth = 0
    while i < len(ts):
        t = ts[i]
        if isp(t, "<"):
            depth += 1
        elif isp(t, ">") and not (i and isp(ts[i - 1], "-") and ts[i - 1].joint) and not (i and isp(ts[i - 1], "=") and ts[i - 1].joint):
            depth -= 1
            if depth == 0:
                return i + 1
        i += 1
    raise Lost("unbalanced <>")


def items(ts):
    out, i = [], 0
    while i < len(ts):
        start = i
        attrs = []
        while isp(ts[i], "#"):
            j = i + 1
            if isp(ts[j], "!"):
                j += 1
            attrs.append(ts[j])
            i = j + 1
            if i >= len(ts):
                return out
        vis = []
        if isp(ts[i], "pub"):
            vis.append(ts[i])
            i += 1
            if isg(ts[i], "(") and ts[i].ts and isp(ts[i].ts[0], "crate") or isg(ts[i], "(") and ts[i].ts and ts[i].ts[0].t in ("super", "self", "in"):
                vis.append(ts[i])
                i += 1
        line = ts[i].line
        quals = []
        while isinstance(ts[i], Tok) and ts[i].t in ("const", "unsafe", "default", "extern", "async", "auto") and not (ts[i].t == "const" and isid(ts[i + 1]) and ts[i + 1].t not in ("fn", "unsafe", "extern", "async")):
            quals.append(ts[i])
            i += 1
            if isinstance(ts[i], Tok) and ts[i].k == "str":
                quals.append(ts[i])
                i += 1
        t = ts[i]
        kw = t.t if isinstance(t, Tok) else ""
        it = Item(kw, "", line)
        it.attrs, it.vis, it.quals = attrs, vis, quals
        if isp(t, "crate") and quals and quals[-1].t == "extern":
            kw = it.kind = "use"
        if kw in ("use", "const", "static", "type"):
            j = i
            while not isp(ts[j], ";"):
                j += 1
            it.head = ts[i:j]
            k = i + 1
            if isp(ts[k], "mut"):
                k += 1
            it.name = ts[k].t if isinstance(ts[k], Tok) else ""
            i = j + 1
        elif kw == "fn":
            it.name = ts[i + 1].t
            j = i + 2
            if isp(ts[j], "<"):
                e = angle(ts, j)
                it.generics = ts[j:e]
                j = e
            it.params = ts[j]
            j += 1
            if isp(ts[j], "-") and isp(ts[j + 1], ">"):
                e = j + 2
                while not (isg(ts[e], "{") or isp(ts[e], ";") or isp(ts[e], "where")):
                    e += 1
                it.ret = ts[j + 2:e]
                j = e
            if isp(ts[j], "where"):
                e = j
                while not (isg(ts[e], "{") or isp(ts[e], ";")):
                    e += 1
                it.where = ts[j:e]
                j = e
            it.body = ts[j] if isg(ts[j], "{") else None
            i = j + 1
        elif kw in ("struct", "enum", "union", "trait", "impl", "mod"):
            j = i
            while not (isg(ts[j], "{") or isp(ts[j], ";")):
                j += 1
            it.head = ts[i:j]
            it.body = ts[j] if isg(ts[j], "{") else None
            i = j + 1
            if kw != "impl":
                it.name = it.head[1].t
            else:
                it.name = text(strip_impl(it.head))
            if kw in ("trait", "impl", "mod") and it.body is not None:
                it.items = items(it.body.ts)
        elif kw == "macro_rules":
            it.name = ts[i + 2].t
            it.body = ts[i + 3]
            i += 4
            if i < len(ts) and isp(ts[i], ";"):
                i += 1
        elif isid(t) and isp(ts[i + 1], "!"):
            it.kind, it.name, it.body = "call", t.t, ts[i + 2]
            i += 3
            if i < len(ts) and isp(ts[i], ";"):
                i += 1
        else:
            raise Lost(f"unknown item at line {line}: {show(ts[i:i+6])}")
        it.all = ts[start:i]
        out.append(it)
    return out


def strip_impl(head):
    """impl<..> A for B where .. -> tokens of `A for B` (no generics, no where)."""
    j = 1
    if isp(head[j], "<"):
        j = angle(head, j)
    e = j
    while e < len(head) and not isp(head[e], "where"):
        e += 1
    return head[j:e]


# ---------------------------------------------------------------- splitting helpers

def split(ts, sep=","):
    """Split on top-level separators, not inside <>, groups are atomic already."""
    out, cur, depth = [], [], 0
    for i, t in enumerate(ts):
        if isp(t, "<"):
            depth += 1
        elif isp(t, ">") and not (i and isinstance(ts[i - 1], Tok) and ts[i - 1].t in "-=" and ts[i - 1].joint):
            depth -= 1
        if isp(t, sep) and depth <= 0:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out


# ---------------------------------------------------------------- macro_rules

def macro_arms(body):
    ts, out, i = body.ts, [], 0
    while i < len(ts):
        out.append((ts[i], ts[i + 3]))
        i += 4
        if i < len(ts) and isp(ts[i], ";"):
            i += 1
    return out


def pat_of(ts):
    out, i = [], 0
    while i < len(ts):
        t = ts[i]
        if isp(t, "$") and isg(ts[i + 1], "("):
            j = i + 2
            sep = []
            while not (isinstance(ts[j], Tok) and ts[j].t in "*+?"):
                sep.append(ts[j])
                j += 1
            out.append(("rep", pat_of(ts[i + 1].ts), sep, ts[j].t))
            i = j + 1
        elif isp(t, "$") and isid(ts[i + 1]):
            if i + 3 < len(ts) and isp(ts[i + 2], ":") and not isp(ts[i + 3], ":"):
                out.append(("var", ts[i + 1].t, ts[i + 3].t))
                i += 4
            else:
                out.append(("use", ts[i + 1].t))
                i += 2
        elif isinstance(t, Grp):
            out.append(("grp", t, pat_of(t.ts)))
            i += 1
        else:
            out.append(("tok", t))
            i += 1
    return out


def match_pat(p, ts, i, b):
    for n, e in enumerate(p):
        if e[0] == "tok":
            if i >= len(ts) or not isp(ts[i], e[1].t):
                return None
            i += 1
        elif e[0] == "grp":
            if i >= len(ts) or not isg(ts[i], e[1].d):
                return None
            if match_pat(e[2], ts[i].ts, 0, b) != len(ts[i].ts):
                return None
            i += 1
        elif e[0] == "var":
            if i >= len(ts):
                return None
            if e[2] in ("ident", "tt", "lifetime", "literal"):
                b[e[1]] = [ts[i]]
                i += 1
            elif e[2] in ("expr", "ty", "path"):
                j = i
                while j < len(ts) and not (isinstance(ts[j], Tok) and ts[j].t in (",", ";") or isp(ts[j], "=") and j + 1 < len(ts) and isp(ts[j + 1], ">")):
                    j += 1
                b[e[1]] = ts[i:j]
                i = j
            else:
                raise Lost("macro fragment " + e[2])
        elif e[0] == "rep":
            reps = []
            while True:
                j = i
                if reps and e[2]:
                    if not all(j + x < len(ts) and isp(ts[j + x], y.t) for x, y in enumerate(e[2])):
                        break
                    j += len(e[2])
                nb = {}
                if j >= len(ts):
                    break
                r = match_pat(e[1], ts, j, nb)
                if r is None or r == j:
                    break
                reps.append(nb)
                i = r
            names = set()

            def coll(p):
                for x in p:
                    if x[0] == "var":
                        names.add(x[1])
                    elif x[0] == "rep":
                        coll(x[1])
                    elif x[0] == "grp":
                        coll(x[2])
            coll(e[1])
            for nm in names:
                b[nm] = ("reps", [r.get(nm) for r in reps])
    return i


def subst(p, b):
    out = []
    for e in p:
        if e[0] == "tok":
            out.append(e[1])
        elif e[0] == "grp":
            g = Grp(e[1].d, subst(e[2], b), e[1].line)
            out.append(g)
        elif e[0] in ("var", "use"):
            v = b.get(e[1])
            if v is None or isinstance(v, tuple):
                if e[1] == "crate":
                    out.append(Tok("crate", "id", False, 0))
                    continue
                raise Lost("macro variable $" + e[1])
            out.extend(v)
        elif e[0] == "rep":
            used = []

            def coll(p):
                for x in p:
                    if x[0] in ("use", "var") and isinstance(b.get(x[1]), tuple):
                        used.append(x[1])
                    elif x[0] == "rep":
                        coll(x[1])
                    elif x[0] == "grp":
                        coll(x[2])
            coll(e[1])
            if not used:
                raise Lost("macro repetition without variable")
            n = len(b[used[0]][1])
            for k in range(n):
                nb = dict(b)
                for u in used:
                    nb[u] = b[u][1][k]
                if k:
                    out.extend(e[2])
                out.extend(subst(e[1], nb))
    return out


def expand(mac, args):
    """Expand one macro_rules! call; args: token list of the call."""
    for pat, body in macro_arms(mac.body):
        b = {}
        p = pat_of(pat.ts)
        if match_pat(p, args, 0, b) == len(args):
            return subst(pat_of(body.ts), b)
    raise Lost(f"no arm of {mac.name}! matches")
