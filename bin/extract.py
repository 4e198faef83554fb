"""Builds the verified file: contracts (.ov) plus the functions of /repo, copied token by token.

A contract file is Verus text.  Lines that start with //@ are directives; they pull items of
/repo's current source into the output and attach contract text to them:

  //@ use FILE                     following directives refer to /repo/src/FILE
  //@ item KIND NAME [opts]        emit a struct, enum, const, type, trait header ...
  //@ impl NAME [as HEADER]        open an impl block (NAME as in the source, generics dropped)
  //@ fn NAME [ret=r] [opts]       emit the function; the lines that follow are its contract
  //@ loop N [iter=x]              ... contract of its Nth loop (in text order)
  //@ start | //@ end              ... ghost text at the start / before the final value
  //@ after NAME [N] | before      ... ghost text after / before the Nth statement that calls NAME
  //@ closure N : PARAMS -> RET    ... types and contract of its Nth closure
  //@ attr TEXT                    ... attribute
  //@ rule PAT => REPL             ... rewrite of its tokens
  //@ endfn                        back to copied text
  //@ endimpl                   (endimpl rest-elsewhere: another contract file lists the other members)
  //@ rule PAT => REPL             (outside a function) rewrite applied to all code of the file
  //@ skip NAME : REASON           the item is not extracted, and why
  //@ complete                     everything in FILE must have been extracted or skipped

Nothing else of the source is looked at; the only changes made to the copied tokens are the
rewrite rules (listed in DESIGN.md), the dropped attributes and visibilities, and the contracts.
"""
import json
import os
import difflib
import re
import sys
from rustx import *  # noqa: F403
import rustx

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DERIVES = {"Clone", "Copy", "PartialEq", "Eq", "Structural"}


def raw(s):
    return Tok(s, "raw!", False, 0)


# ---------------------------------------------------------------- rewriting

def prim_start(ts, i):
    """May a postfix expression start at i?"""
    if i == 0:
        return True
    p = ts[i - 1]
    if isinstance(p, Grp):
        return p.d == "{" or False
    if p.k in ("num", "str", "chr", "life"):
        return False
    if p.k == "id":
        return p.t in ("return", "in", "match", "if", "while", "else", "mut", "break", "move", "let", "unsafe")
    if p.t in (".", "?"):
        return False
    if p.t == ":" and i > 1 and isp(ts[i - 2], ":") and ts[i - 2].joint:
        return False
    return True


def postfix_ends(ts, i):
    """Positions where a postfix expression that starts at i may end."""
    t = ts[i]
    ends = []
    if isinstance(t, Grp):
        if t.d == "{":
            return []
        j = i + 1
    elif t.k in ("id", "num", "str", "chr"):
        if t.t in ("if", "match", "while", "for", "loop", "let", "return", "unsafe", "mut", "in", "else", "fn", "break", "continue"):
            return []
        j = i + 1
    elif t.t == "$":
        return []
    else:
        return []
    ends.append(j)
    while j < len(ts):
        u = ts[j]
        if isg(u, "(") or isg(u, "["):
            j += 1
        elif isp(u, "?"):
            j += 1
        elif isp(u, ".") and j + 1 < len(ts) and not u.joint and (isid(ts[j + 1]) or ts[j + 1].k == "num"):
            j += 2
        elif isp(u, ":") and u.joint and isp(ts[j + 1], ":"):
            if isp(ts[j + 2], "<"):
                j = angle(ts, j + 2)
            else:
                j += 3
        else:
            break
        ends.append(j)
    return ends


def ematch(p, k, ts, i, b):
    """Match pattern elements p[k:] at ts[i:]; returns end or None (first solution)."""
    if k == len(p):
        return i
    e = p[k]
    if e[0] == "tok":
        if i < len(ts) and isp(ts[i], e[1].t):
            return ematch(p, k + 1, ts, i + 1, b)
        return None
    if e[0] == "grp":
        if i < len(ts) and isg(ts[i], e[1].d):
            nb = dict(b)
            r = ematch(e[2] + [("END",)], 0, ts[i].ts, 0, nb)
            if r is not None:
                b.update(nb)
                return ematch(p, k + 1, ts, i + 1, b)
        return None
    if e[0] == "END":
        return i if i == len(ts) else None
    name, kind = e[1], e[2]

    def bind(j):
        nb = dict(b)
        if name in nb and text(nb[name]) != text(ts[i:j]):
            return None
        nb[name] = ts[i:j]
        r = ematch(p, k + 1, ts, j, nb)
        if r is not None:
            b.clear()
            b.update(nb)
        return r

    if kind == "id":
        return bind(i + 1) if i < len(ts) and isid(ts[i]) else None
    if kind == "tt":
        return bind(i + 1) if i < len(ts) else None
    if kind == "pf":
        if i >= len(ts) or not prim_start(ts, i):
            return None
        for j in reversed(postfix_ends(ts, i)):
            r = bind(j)
            if r is not None:
                return r
        return None
    if kind == "ex":  # any tokens, shortest first, no ; and no top-level comma
        j = i
        while True:
            r = bind(j)
            if r is not None:
                return r
            if j >= len(ts) or isp(ts[j], ";") or isp(ts[j], ","):
                return None
            j += 1
    if kind == "ty":  # a type: tokens up to , ; = at angle depth 0, shortest first
        j, depth = i, 0
        while True:
            if depth == 0 and j > i:
                r = bind(j)
                if r is not None:
                    return r
            if j >= len(ts) or (depth == 0 and isinstance(ts[j], Tok) and ts[j].t in ";,="):
                return None
            if isp(ts[j], "<"):
                depth += 1
            elif isp(ts[j], ">") and not (isp(ts[j - 1], "-") and ts[j - 1].joint):
                depth -= 1
                if depth < 0:
                    return None
            j += 1
    if kind == "any":
        j = i
        while True:
            r = bind(j)
            if r is not None:
                return r
            if j >= len(ts):
                return None
            j += 1
    raise Lost("metavariable kind " + kind)


def epat(ts, kinds=None):
    kinds = {} if kinds is None else kinds
    out, i = [], 0
    while i < len(ts):
        t = ts[i]
        if isp(t, "$") and isid(ts[i + 1]):
            if i + 3 < len(ts) and isp(ts[i + 2], ":") and isid(ts[i + 3]):
                kinds[ts[i + 1].t] = ts[i + 3].t
                out.append(("var", ts[i + 1].t, ts[i + 3].t))
                i += 4
            else:
                out.append(("var", ts[i + 1].t, kinds.get(ts[i + 1].t, "tt")))
                i += 2
        elif isinstance(t, Grp):
            out.append(("grp", t, epat(t.ts, kinds)))
            i += 1
        else:
            out.append(("tok", t))
            i += 1
    return out


def esub(p, b):
    out = []
    for e in p:
        if e[0] == "tok":
            out.append(e[1])
        elif e[0] == "grp":
            g = Grp(e[1].d, esub(e[2], b), e[1].line)
            out.append(g)
        else:
            out.extend(b[e[1]])
    return out


class Rule:
    def __init__(self, s):
        l, r = re.split(r" =>(?: |$)", s, maxsplit=1)
        self.src = s
        self.pat = epat(parse(l))
        self.rep = epat(parse(r))
        self.used = 0

    def apply(self, ts):
        out, i = [], 0
        while i < len(ts):
            b = {}
            if not (isinstance(ts[i], Tok) and ts[i].k == "raw!"):
                r = ematch(self.pat, 0, ts, i, b)
                if r is not None and r > i:
                    b = {k: self.apply(v) for k, v in b.items()} if self.pat and not (len(b) == 0) else b
                    out.extend(esub(self.rep, b))
                    self.used += 1
                    i = r
                    continue
            t = ts[i]
            if isinstance(t, Grp):
                g = Grp(t.d, self.apply(t.ts), t.line)
                out.append(g)
            else:
                out.append(t)
            i += 1
        return out


# Option combinators, inlined as core::option defines them.  F is a closure literal or a path.
def closure_at(args):
    """args: tokens of one argument -> (params, body) when it is a closure literal."""
    i = 0
    if args and isp(args[0], "move"):
        i = 1
    if i < len(args) and isp(args[i], "|"):
        if isp(args[i + 1], "|"):
            return [], args[i + 2:]
        j = i + 1
        while not isp(args[j], "|"):
            j += 1
        return args[i + 1:j], args[j + 1:]
    return None


COMB = {
    "filter": "match $r { Some ( v__ ) => { if { let $p = & v__ ; $b } { Some ( v__ ) } else { None } } None => None }",
    "map": "match $r { Some ( $p ) => Some ( $b ) , None => None }",
    "and_then": "match $r { Some ( $p ) => { $b } None => None }",
    "is_some_and": "match $r { Some ( $p ) => { $b } None => false }",
    "take_if": "{ let o__ = $r ; let c__ = match & mut * o__ { Some ( $p ) => { $b } None => false } ; if c__ { o__ . take ( ) } else { None } }",
    "unwrap_or_else": "match $r { Some ( v__ ) => v__ , None => { $b } }",
    "map_or": "match $r { Some ( $p ) => { $b } None => $d }",
}
COMB = {k: epat(parse(v.replace("$", "$"))) for k, v in COMB.items()}


def opt_desugar(ts, only=None):
    ts = [Grp(t.d, opt_desugar(t.ts, only), t.line) if isinstance(t, Grp) else t for t in ts]
    i = 0
    while i < len(ts):
        if prim_start(ts, i):
            ends = postfix_ends(ts, i)
            for j in ends:
                if j + 2 < len(ts) and isp(ts[j], ".") and isid(ts[j + 1]) and ts[j + 1].t in COMB and isg(ts[j + 2], "(") and (only is None or ts[j + 1].t in only):
                    m = ts[j + 1].t
                    a = split_args(ts[j + 2].ts)
                    f = a[-1]
                    c = closure_at(f)
                    b = {"r": ts[i:j]}
                    if m == "map_or":
                        b["d"] = a[0]
                    if c is None:
                        b["p"] = parse("x__")
                        b["b"] = f + parse("(x__)") if m != "unwrap_or_else" else f + parse("()")
                        if m in ("filter", "take_if"):
                            raise Lost("combinator argument")
                    else:
                        b["p"], b["b"] = c[0], c[1]
                        if isp(b["p"][0], "&") and False:
                            pass
                    new = Grp("(", esub(COMB[m], b), ts[i].line)
                    ts = ts[:i] + [new] + ts[j + 3:]
                    break
            else:
                i += 1
                continue
            continue
        i += 1
    return ts


def split_args(ts):
    out, cur, i = [], [], 0
    while i < len(ts):
        t = ts[i]
        if isp(t, "|") and (not cur or isp(cur[-1], "move")):  # closure: parameters may hold commas
            j = i + 1
            if not isp(ts[j], "|") or True:
                while not isp(ts[j], "|"):
                    j += 1
            cur.extend(ts[i:j + 1])
            i = j + 1
            continue
        if isp(t, ","):
            out.append(cur)
            cur = []
        else:
            cur.append(t)
        i += 1
    if cur:
        out.append(cur)
    return out


# ---------------------------------------------------------------- functions

def drop_attrs(ts):
    """Statement and expression attributes, debug assertions."""
    out, i = [], 0
    while i < len(ts):
        t = ts[i]
        if isp(t, "#") and i + 1 < len(ts) and isg(ts[i + 1], "["):
            i += 2
            continue
        out.append(Grp(t.d, drop_attrs(t.ts), t.line) if isinstance(t, Grp) else t)
        i += 1
    return out


def binders(f):
    """The locally bound names of a function, in text order (parameters, let, for, closures, arms)."""
    out = []
    for p in split(f.params.ts):
        for t in p:
            if isp(t, ":"):
                break
            if isid(t) and t.t not in ("mut", "self", "ref"):
                out.append(t.t)

    def pat(ts):
        for i, t in enumerate(ts):
            if isinstance(t, Grp):
                pat(t.ts)
            elif isid(t) and t.t[0].islower() and t.t not in ("mut", "ref", "box", "self", "crate", "true", "false"):
                if i + 1 < len(ts) and (isg(ts[i + 1], "(") or isp(ts[i + 1], ":") and ts[i + 1].joint):
                    continue
                if i + 1 < len(ts) and isp(ts[i + 1], ":"):
                    continue
                out.append(t.t)

    def go(ts):
        i = 0
        while i < len(ts):
            t = ts[i]
            if isp(t, "let") or isp(t, "for"):
                stop = ("=", ":") if t.t == "let" else ("in",)
                j = i + 1
                while j < len(ts) and not (isinstance(ts[j], Tok) and ts[j].t in stop and not (ts[j].t == ":" and (ts[j].joint or isp(ts[j - 1], ":") and ts[j - 1].joint))):
                    j += 1
                pat(ts[i + 1:j])
                i = j
                continue
            if isinstance(t, Grp):
                go(t.ts)
            i += 1
    if f.body:
        go(f.body.ts)
    return out


class Fn:
    """One extracted function with its contract."""

    def __init__(self, it, key):
        self.it, self.key = it, key
        self.name = None
        self.ret = None
        self.hintlost = []  # proof hints whose place is gone
        self.spec, self.loops, self.anchors, self.closures, self.attrs, self.rules = [], {}, [], {}, [], []
        self.opts = {}


LOOPKW = ("while", "for", "loop")


def emit_fn(fn, rules, lets):
    it = fn.it
    params = Grp("(", list(it.params.ts), it.line)
    ret = list(it.ret) if it.ret else None
    body = drop_attrs(it.body.ts) if it.body and "nobody" not in fn.opts else None
    trusted = "trusted" in fn.opts
    if trusted and body is not None:
        body = []
    generics, where = list(it.generics), list(it.where)

    def ap(ts, rs):
        for r in rs:
            ts = r.apply(ts)
        return ts

    rs = fn.rules + rules
    if "self" in fn.opts:
        params.ts = ap(params.ts, [Rule("& self => &mut self")]) if fn.opts["self"] == "mut" else params.ts
        if fn.opts["self"] == "refmut":  # a method of a mutable reference
            params.ts = ap(params.ts, [Rule("self => &mut self")])
    params = Grp("(", ap(params.ts, rs), it.line)
    # a tuple pattern as a parameter becomes a let
    pats = []
    for k, t in enumerate(params.ts):
        if isg(t, "(") and (k == 0 or isp(params.ts[k - 1], ",")) and k + 1 < len(params.ts) and isp(params.ts[k + 1], ":"):
            pats += [Tok("let", "id", False, 0), t, Tok("=", "p", False, 0), Tok(f"p{k}__", "id", False, 0), Tok(";", "p", False, 0)]
            params.ts[k] = Tok(f"p{k}__", "id", False, 0)
    if pats and body is not None:
        body = pats + body
    # parameters written as `mut x: T` are rebound
    if ret is not None:
        ret = ap(ret, rs)
    generics, where = ap(generics, rs), ap(where, rs)
    if body is not None:
        if "opt" in fn.opts:
            body = opt_desugar(body, fn.opts["opt"].split(",") if fn.opts["opt"] is not True else None)
        body = ap(body, rs)

    ren = {}
    base = lets.get(fn.key)
    cur = binders(it)
    if base is not None and base != cur:
        for op, a1, a2, b1, b2 in difflib.SequenceMatcher(None, base, cur, autojunk=False).get_opcodes():
            if op == "replace" and a2 - a1 == b2 - b1:
                for a, b in zip(base[a1:a2], cur[b1:b2]):
                    if a not in cur and ren.get(a, b) == b:
                        ren[a] = b
    fn.cur_binders = cur

    def rn(s):
        if not ren:
            return s
        return re.sub(r"(?<![A-Za-z0-9_.])[A-Za-z_][A-Za-z0-9_]*", lambda m: ren.get(m.group(0), m.group(0)), s)

    # loops and closures, in text order
    state = {"loop": 0, "clo": 0}

    def walk(ts):
        out, i = [], 0
        while i < len(ts):
            t = ts[i]
            if isinstance(t, Tok) and t.t in LOOPKW and t.k == "id" and not (t.t == "for" and i + 1 < len(ts) and isp(ts[i + 1], "<")):
                j = i + 1
                n = state["loop"]
                state["loop"] += 1
                while not isg(ts[j], "{"):
                    j += 1
                head = walk(ts[i + 1:j])
                inner = Grp("{", walk(ts[j].ts), t.line)
                lo = fn.loops.get(n)
                if lo is None:
                    if "noloopspec" not in fn.opts:
                        fn.hintlost.append(f"loop {n} has no contract")
                    out += [t] + head + [inner]
                else:
                    if lo["opts"].get("kind", t.t) != t.t:
                        fn.hintlost.append(f"loop {n} is now a {t.t} loop")
                    if t.t == "for" and "iter" in lo["opts"]:
                        k = next(x for x, u in enumerate(head) if isp(u, "in"))
                        head = head[:k + 1] + parse(lo["opts"]["iter"] + " :") + head[k + 1:]
                    if lo["body"]:
                        inner.ts = [raw(rn(lo["body"]))] + inner.ts
                    if lo["bodyend"]:
                        inner.ts = stmt_end(inner.ts) + [raw(rn(lo["bodyend"]))]
                    out += [t] + head + [raw(rn("\n".join(lo["text"])))] + [inner]
                    if lo["after"]:
                        out += [raw(rn(lo["after"]))]
                i = j + 1
                continue
            if isp(t, "|") and prim_closure(ts, i):
                n = state["clo"]
                state["clo"] += 1
                j = i + 1
                while not isp(ts[j], "|"):
                    j += 1
                rest_end = len(ts)
                # closure body: rest of this argument
                k = j + 1
                typed = k + 1 < len(ts) and isp(ts[k], "-") and isp(ts[k + 1], ">")
                if typed:  # a closure with a written result type has a block for its body
                    while k < len(ts) and not isg(ts[k], "{"):
                        k += 1
                    b, k = walk([ts[k]]), k + 1
                else:
                    while k < len(ts) and not isp(ts[k], ",") and not isp(ts[k], ";"):
                        k += 1
                    b = walk(ts[j + 1:k])
                c = fn.closures.get(n)
                if c is None:
                    out += ts[i:k] if typed else ts[i:j + 1] + b
                else:
                    if len(b) == 1 and isg(b[0], "{"):
                        b = b[0].ts
                    out += [raw("|" + rn(c["params"]) + "| -> (" + c["ret"] + ")\n" + rn("\n".join(c["text"])))] + [Grp("{", b, t.line)]
                i = k
                continue
            out.append(Grp(t.d, walk(t.ts), t.line) if isinstance(t, Grp) else t)
            i += 1
        return out

    if body is not None and not trusted:
        body = walk(body)
        for n in fn.loops:
            if n >= state["loop"]:
                fn.hintlost.append(f"loop {n} is gone")
        for n in fn.closures:
            if n >= state["clo"]:
                fn.hintlost.append(f"closure {n} is gone")
        for a in fn.anchors:
            try:
                body = place(body, a, rn, fn)
            except Lost as e:
                fn.hintlost.append(str(e))
    quals = " ".join(q.t for q in it.quals if q.t in ("unsafe", "const"))
    if "noconst" in fn.opts:
        quals = quals.replace("const", "")
    out = []
    for a in fn.attrs:
        out.append(a + "\n")
    vis = "" if "novis" in fn.opts else "pub "
    if isinstance(fn.opts.get("quals"), str):
        quals = fn.opts["quals"].replace("+", " ")
    out.append(f"{vis}{quals} fn {fn.name or it.name}" + show(generics) + show([params]))
    if ret is not None:
        rname = fn.ret or "res__"
        if text(ret) == "!":
            out.append(" -> ! ")
        else:
            out.append(f" -> ({rname}: " + show(ret) + ")")
    if where:
        w = show(where).strip()
        out.append("\n" + w + ("" if w.endswith(",") else ",") + "\n")
    out.append("\n" + rn("\n".join(fn.spec)) + "\n")
    if body is None:
        out.append(";\n")
    elif "trusted" in fn.opts:
        out.insert(0, "#[verifier::external_body]\n")
        out.append("{ unimplemented!() }\n")
    else:
        out.append("{\n" + show(body) + "}\n")
    return "".join(out)


def prim_closure(ts, i):
    if i == 0:
        return True
    p = ts[i - 1]
    return isinstance(p, Tok) and (p.t in ("=", ",", "move", "return", ">") or p.k == "raw!") and not isp(p, "|")


def stmt_end(ts):
    if ts and not isp(ts[-1], ";") and not isg(ts[-1], "{"):
        return ts + [Tok(";", "p", False, 0)]
    return ts


BLOCKY = ("if", "match", "while", "for", "loop", "unsafe", "proof")


def statements(ts):
    """Split a block into statements: list of (tokens, is_tail)."""
    out, i, n = [], 0, len(ts)
    while i < n:
        j = i
        if isinstance(ts[i], Tok) and ts[i].k == "raw!":
            out.append((ts[i:i + 1], False))
            i += 1
            continue
        if isinstance(ts[i], Tok) and ts[i].t in BLOCKY or isg(ts[i], "{"):
            # block-like expression statement
            while j < n and not isg(ts[j], "{"):
                j += 1
            j += 1
            while j < n and isp(ts[j], "else"):
                while j < n and not isg(ts[j], "{"):
                    j += 1
                j += 1
            if j < n and (isp(ts[j], ".") or isp(ts[j], "?") or isp(ts[j], ";")):
                pass
            else:
                out.append((ts[i:j], j >= n))
                i = j
                continue
        while j < n and not isp(ts[j], ";"):
            j += 1
        if j < n:
            out.append((ts[i:j + 1], False))
            i = j + 1
        else:
            out.append((ts[i:], True))
            i = n
    return out


def calls(ts, name):
    """Number of calls of `name` in the tokens, nested ones included."""
    c = 0
    for i, t in enumerate(ts):
        if isinstance(t, Grp):
            c += calls(t.ts, name)
        elif t.t == name and i + 1 < len(ts) and (isg(ts[i + 1], "(") or isp(ts[i + 1], "!") or isp(ts[i + 1], ":") and isp(ts[i + 2], ":") and isp(ts[i + 3], "<")):
            c += 1
    return c


def place(body, a, rn, fn):
    where, name, n, txt = a
    txt = raw(rn(txt))
    up = 0
    if isinstance(where, tuple):
        where, up = where

    def depth(ts, k):
        """How many blocks hold the call with number k of ts."""
        seen = 0
        for i, t in enumerate(ts):
            if isinstance(t, Grp):
                c = calls(t.ts, name)
                if seen + c > k:
                    return (t.d == "{") + depth(t.ts, k - seen)
                seen += c
            elif calls(ts[i:i + 4], name) > calls(ts[i + 1:i + 4], name):
                if seen == k:
                    return 0
                seen += 1
        return 0

    if where == "start":
        return [txt] + body
    if where == "end":
        st = statements(body)
        if fn.it.ret is None and "unitend" not in fn.opts:
            return stmt_end(body) + [txt]
        if not st or not st[-1][1]:
            return body + [txt]
        tail = st[-1][0]
        pre = [t for s in st[:-1] for t in s[0]]
        return pre + [raw("let " + (fn.ret or "res__") + " = ")] + tail + [raw(";"), txt, raw(fn.ret or "res__")]
    cnt = [0]
    done = [False]

    def go(ts):
        st = statements(ts)
        out = []
        for s, tail in st:
            if done[0]:
                out += s
                continue
            c = calls(s, name)
            if cnt[0] + c <= n:
                cnt[0] += c
                out += s
                continue
            # the call is in this statement; is it inside a nested block?
            inner = []
            for t in [] if up and depth(s, n - cnt[0]) <= up else s:
                if isinstance(t, Grp) and not done[0] and (t.d == "{"):
                    cc = calls(t.ts, name)
                    if cnt[0] + cc > n:
                        inner.append(Grp("{", go(t.ts), t.line))
                        continue
                    cnt[0] += cc
                    inner.append(t)
                elif isinstance(t, Grp) and not done[0] and has_brace(t):
                    cc = calls(t.ts, name)
                    if cnt[0] + cc > n:
                        inner.append(Grp(t.d, go_in(t.ts), t.line))
                        if done[0]:
                            continue
                    cnt[0] += 0
                    if not done[0]:
                        inner.append(t)
                else:
                    inner.append(t)
            if done[0]:
                out += inner
                continue
            done[0] = True
            # placed here
            if where == "before":
                out += [txt] + s
            elif tail:
                out += [raw("let v__ = ")] + s + [raw(";"), txt, raw("v__")]
            else:
                out += s + [txt]
        return out

    def go_in(ts):
        # a parenthesised expression that contains blocks
        out = []
        for t in ts:
            if isinstance(t, Grp) and not done[0]:
                cc = calls(t.ts, name)
                if cnt[0] + cc > n:
                    out.append(Grp(t.d, go(t.ts) if t.d == "{" else go_in(t.ts), t.line))
                    continue
                cnt[0] += cc
            out.append(t)
        return out

    r = go(body)
    if not done[0]:
        raise Lost(f"{fn.key}: no call {n} of {name}")
    return r


def has_brace(g):
    return any(isg(t, "{") or isinstance(t, Grp) and has_brace(t) for t in g.ts)


# ---------------------------------------------------------------- contract files

class Out:
    def __init__(self):
        self.text = []
        self.fns = []       # (key, first line, last line, kind)
        self.soft = []      # reasons that make the proof undecided
        self.names = {}
        self.line = 1
        self.skipped = []
        self.rules = []

    def put(self, s):
        if not s.endswith("\n"):
            s += "\n"
        self.text.append(s)
        self.line += s.count("\n")


class Source:
    cache = {}

    def __init__(self, path):
        self.path = path
        full = os.path.join(REPO, "src", path)
        if not os.path.exists(full):
            raise Lost(f"{path} is gone")
        # inline modules only group items
        def flat(its):
            return [x for i in its for x in (flat(i.items) if i.kind == "mod" and i.body is not None and not i.is_test() else [i])]
        self.items = flat(items(parse(open(full).read())))
        self.seen = set()

    def find(self, kind, name):
        r = [i for i in self.items if i.kind == kind and (i.name == name or text(parse(i.name)) == text(parse(name))) and not i.is_test()]
        if not r:
            raise Lost(f"{self.path}: {kind} {name} is gone")
        return r


def fields_pub(it):
    """struct / enum declaration with public fields."""
    def pubify(ts):
        out = []
        for f in split(ts):
            f = drop_attrs(f)
            if isp(f[0], "pub"):
                f = f[1:]
                if f and isg(f[0], "("):
                    f = f[1:]
            out += [Tok("pub", "id", False, 0)] + f + [Tok(",", "p", False, 0)]
        return out
    if it.kind == "enum":
        return show(it.head) + show([Grp("{", drop_attrs(it.body.ts))])
    if it.body is not None:
        return show(it.head) + show([Grp("{", pubify(it.body.ts))])
    h = list(it.head)
    for i, t in enumerate(h):
        if isg(t, "("):
            h[i] = Grp("(", pubify(t.ts))
    return show(h) + ";\n"


def derives(it):
    out = []
    for a in it.attrs:
        if a.ts and isp(a.ts[0], "derive"):
            out += [text(x).split(" : : ")[-1] for x in split(a.ts[1].ts)]
    return out


def opts_of(words):
    o = {}
    for w in words:
        if "=" in w:
            k, v = w.split("=", 1)
            o[k] = v
        else:
            o[w] = True
    return o


def build(files, names=None, demote=(), vacuity=False):
    """files: contract files in order -> Out"""
    out = Out()
    out.demote, out.vacuity, out.demoted, out.hintlost = set(demote), vacuity, {}, {}
    lets = names or {}
    for path in files:
        process(path, out, lets)
    out.lines = "".join(out.text).split("\n")
    return out


LETTERS = "ABCDEFGHIJKLMNOP"


def templates(path):
    """Lines of a contract file; `//@ template n in 2,3` ... `//@ endtemplate` is repeated, with
    @{python} evaluated (n: the arity, L: the names of the n type parameters)."""
    res, blk, ns = [], None, None
    for ln, line in enumerate(open(path).read().split("\n"), 1):
        m = re.match(r"//@ template n in (.*)$", line.strip())
        if m:
            blk, ns = [], []
            for part in m.group(1).split(","):
                a, _, b = part.partition("..")
                ns += range(int(a), int(b or a) + 1)
        elif line.strip() == "//@ endtemplate":
            for n in ns:
                env = {"n": n, "L": list(LETTERS[:n]), "join": lambda f, sep=", ", n=n: sep.join(f(LETTERS[i], i) for i in range(n)),
                       "more": lambda k: "".join("more(" for i in range(k)) + "0" + "".join(f", <{LETTERS[i]} as QueryPart>::names())" for i in range(k)),
                       "first": lambda k, f, sep: sep.join(f(LETTERS[i], i) for i in range(k))}
                inner = None
                for l, t in blk:
                    w = t.strip()
                    if w == "//@ each i":        # these lines once for every type parameter (i, X)
                        inner = []
                    elif w == "//@ endeach":
                        for i in range(n):
                            e2 = dict(env, i=i, X=LETTERS[i])
                            res += [(l2, re.sub(r"@\{(.*?)\}@", lambda m: str(eval(m.group(1), dict(e2))), t2)) for l2, t2 in inner]
                        inner = None
                    elif inner is not None:
                        inner.append((l, t))
                    else:
                        res.append((l, re.sub(r"@\{(.*?)\}@", lambda m: str(eval(m.group(1), dict(env))), t)))
            blk = None
        elif blk is not None:
            blk.append((ln, line))
        else:
            res.append((ln, line))
    return res


def process(path, out, lets):
    src, rules, cur, impl = None, [], None, None
    sect = None
    sources = {}
    expanded = {}

    def flush():
        nonlocal cur, sect
        if cur is None:
            return
        if cur.it is None:
            cur = None
            return
        a = out.line
        kind = "trusted" if "trusted" in cur.opts else "fn"
        try:
            if cur.key in out.demote:
                cur.opts["trusted"] = True
                kind = "demoted"
            elif out.vacuity and kind == "fn" and cur.it.body is not None and "nobody" not in cur.opts:
                cur.anchors = [["start", None, 0, "assert(false);\n"]] + cur.anchors
                kind = "vac"
                cur.vac = True
            s = emit_fn(cur, rules, lets)
        except Lost as e:
            # this function cannot be extracted faithfully: its contract is not proved
            out.demoted[cur.key] = str(e)
            cur.opts["trusted"] = True
            cur.loops, cur.closures, cur.anchors = {}, {}, []
            kind = "demoted"
            s = emit_fn(cur, rules, lets)
        out.put(s)
        if cur.hintlost:
            out.hintlost[cur.key] = "; ".join(cur.hintlost)
        out.names[cur.key] = cur.cur_binders
        out.fns.append((cur.key, a, out.line - 1, kind))
        cur, sect = None, None

    for ln, line in templates(path):
        st = line.strip()
        if not st.startswith("//@"):
            if cur is None and sect is not None:
                pass
            elif cur is None:
                out.put(line)
            else:
                sect.append(line)
            continue
        w = st[3:].strip()
        cmd, _, rest = w.partition(" ")
        rest = rest.strip()
        try:
            if cmd == "use":
                flush()
                if rest not in sources:
                    sources[rest] = Source(rest)
                src = sources[rest]
                rules = []
            elif cmd == "rule" and cur is None:
                r = Rule(rest)
                rules.append(r)
                out.rules.append(rest)
            elif cmd == "rule":
                cur.rules.append(Rule(rest))
                out.rules.append(rest)
            elif cmd == "expand":
                # expand MACRO: make the items of all its calls available
                flush()
                nm = rest.split()[0]
                if (src.path, nm) not in expanded:
                    mac = src.find("macro_rules", nm)[0]
                    src.seen.add(("macro_rules", nm))
                    src.seen.add(("call", nm))
                    expanded[(src.path, nm)] = True
                    for c in [i for i in src.items if i.kind == "call" and i.name == nm]:
                        src.items = src.items + items(expand(mac, c.body.ts))
            elif cmd == "hoist":
                # hoist IMPL FN NESTED: a function nested in the body of another one becomes a free function
                flush()
                inm, fnm, nested = rest.rsplit(" ", 2)
                f = [m for im in src.find("impl", inm) for m in im.items if m.kind == "fn" and m.name == fnm]
                if not f or f[0].body is None:
                    raise Lost(f"{src.path}: {inm}::{fnm} is gone")
                b = f[0].body.ts
                k = [i for i, t in enumerate(b) if isp(t, "fn") and i + 1 < len(b) and isp(b[i + 1], nested)]
                if k:
                    e = k[0]
                    while not isg(b[e], "{"):
                        e += 1
                    src.items = src.items + items(b[k[0]:e + 1])
                    f[0].body = Grp("{", b[:k[0]] + b[e + 1:], f[0].body.line)
            elif cmd == "item":
                flush()
                ws = rest.split()
                kind, nm, o = ws[0], ws[1], opts_of(ws[2:])
                it = src.find(kind, nm)[0]
                src.seen.add((kind, it.name))
                d = derives(it)
                for need in (o.get("need") or "").split(","):
                    if need and need not in d:
                        raise Lost(f"{nm} no longer derives {need}")
                keep = [x for x in d if x in DERIVES and x not in (o.get("drop") or "").split(",")]
                h = Item(it.kind, it.name, it.line)
                h.head, h.body = it.head, it.body
                for r in rules:
                    h.head = r.apply(h.head)
                    if h.body is not None:
                        h.body = Grp(h.body.d, r.apply(h.body.ts))
                s = ""
                if keep and kind in ("struct", "enum"):
                    s += "#[derive(" + ", ".join(keep) + ")]\n"
                if kind in ("struct", "enum"):
                    s += "pub " + fields_pub(h)
                    if "structural" in o:
                        s += f"\nunsafe impl Structural for {nm} {{}}\n"
                else:
                    s += "pub " + " ".join(q.t for q in it.quals if q.t != "const") + " " + show(h.head) + (show([h.body]) if h.body is not None else ";\n")
                out.put(s)
            elif cmd == "impl" or cmd == "trait":
                flush()
                nm, _, hdr = rest.partition(" as ")
                impl = src.find(cmd, nm.strip())
                src.seen.add((cmd, impl[0].name))
                h = impl[0].head
                for r in rules:
                    h = r.apply(h)
                out.put((hdr if hdr else ("unsafe " if any(q.t == "unsafe" for q in impl[0].quals) else "") + show(h)) + " {")
            elif cmd == "endimpl":
                flush()
                # every member must have been used
                for im in impl:
                    for m in im.items if rest.strip() != "rest-elsewhere" else []:
                        if (impl[0].kind, im.name, m.name) not in src.seen:
                            out.soft.append(f"{src.path}: {im.name}::{m.name} has no contract")
                out.put("}")
                impl = None
            elif cmd == "fn":
                flush()
                ws = rest.split()
                nm, o = ws[0], opts_of(ws[1:])
                if impl is not None:
                    c = [m for im in impl for m in im.items if m.kind == "fn" and m.name == nm]
                    if not c and "default" in o:
                        # a member left to the default of its trait: the body it gets from there
                        c = [m for im in src.find("trait", o["default"]) for m in im.items if m.kind == "fn" and m.name == nm and m.body is not None]
                    if not c and "may" in o:
                        # a member left to the default of its shim trait, which is verified for all its implementations
                        cur = Fn(None, "")
                        sect = cur.spec
                        continue
                    if not c:
                        raise Lost(f"{src.path}: {impl[0].name}::{nm} is gone")
                    src.seen.add((impl[0].kind, impl[0].name, nm))
                    for im in impl:
                        src.seen.add((impl[0].kind, im.name, nm))
                    key = f"{src.path}::{impl[0].name}::{nm}".replace(" ", "")
                else:
                    c = src.find("fn", nm)
                    src.seen.add(("fn", nm))
                    key = f"{src.path}::{nm}"
                cur = Fn(c[0], key)
                cur.opts = o
                cur.ret = o.get("ret")
                cur.name = o.get("name")
                sect = cur.spec
            elif cmd in ("const", "type"):
                flush()
                ws = rest.split()
                c = [m for im in impl for m in im.items if m.kind == cmd and m.name == ws[0]]
                if not c:
                    raise Lost(f"{src.path}: {impl[0].name}::{ws[0]} is gone")
                for im in impl:
                    src.seen.add((impl[0].kind, im.name, ws[0]))
                h = c[0].head
                for r in rules:
                    h = r.apply(h)
                out.put(("" if "novis" in ws else "pub ") + show(h) + ";")
            elif cmd == "constfn":
                # an associated constant, as a function without parameters
                flush()
                nm, fname, spec = re.match(r"(\w+) (\w+)(?: : (.*))?$", rest).groups()
                c = [m for im in impl for m in im.items if m.kind == "const" and m.name == nm]
                if not c:
                    raise Lost(f"{src.path}: {impl[0].name}::{nm} is gone")
                for im in impl:
                    src.seen.add((impl[0].kind, im.name, nm))
                h = c[0].head
                for r in rules:
                    h = r.apply(h)
                eq = [i for i, t in enumerate(h) if isp(t, "=")][0]
                co = [i for i, t in enumerate(h) if isp(t, ":")][0]
                a = out.line
                out.put(f"fn {fname}() -> (r: {show(h[co + 1:eq])}) {spec or ""} {{ {show(h[eq + 1:])} }}")
                out.fns.append((f"{src.path}::{impl[0].name}::{nm}".replace(" ", ""), a, out.line - 1, "fn"))
            elif cmd == "drop":
                # a member of the current impl which is not extracted
                nm, _, why = rest.partition(" : ")
                for im in impl:
                    src.seen.add((impl[0].kind, im.name, nm.strip()))
                out.skipped.append(f"{src.path}: {impl[0].name}::{nm.strip()}: {why}")
            elif cmd == "loop":
                ws = rest.split()
                lo = {"opts": opts_of(ws[1:]), "text": [], "body": "", "bodyend": "", "after": ""}
                cur.loops[int(ws[0])] = lo
                cur_loop = lo
                sect = lo["text"]
            elif cmd in ("loopstart", "loopend", "loopafter"):
                class _L(list):
                    def __init__(s, lo, k):
                        s.lo, s.k = lo, k

                    def append(s, x):
                        s.lo[s.k] += x + "\n"
                sect = _L(cur.loops[int(rest)], {"loopstart": "body", "loopend": "bodyend", "loopafter": "after"}[cmd])
            elif cmd in ("start", "end"):
                a = [cmd, None, 0, ""]
                cur.anchors.append(a)
                sect = _Anchor(a)
            elif cmd in ("after", "before"):
                ws = rest.split()
                up = [int(w[3:]) for w in ws if w.startswith("up=")]   # up=K: K blocks further out
                ws = [w for w in ws if not w.startswith("up=")]
                a = [(cmd, up[0] if up else 0), ws[0], int(ws[1]) if len(ws) > 1 else 0, ""]
                cur.anchors.append(a)
                sect = _Anchor(a)
            elif cmd == "closure":
                m = re.match(r"(\d+)\s*:\s*(.*?)\s*->\s*(.*)$", rest)
                c = {"params": m.group(2), "ret": m.group(3), "text": []}
                cur.closures[int(m.group(1))] = c
                sect = c["text"]
            elif cmd == "spec":
                sect = cur.spec
            elif cmd == "attr":
                cur.attrs.append(rest)
            elif cmd == "endfn":
                flush()
            elif cmd == "skip":
                flush()
                nm, _, why = rest.partition(" : ")
                kind, nm = nm.strip().split(" ", 1)
                for i in src.items:
                    if i.kind == kind and text(parse(i.name)) == text(parse(nm)):
                        src.seen.add((kind, i.name))
                        for m in i.items:
                            src.seen.add((kind, i.name, m.name))
                out.skipped.append(f"{src.path}: {kind} {nm}: {why}")
            elif cmd == "require":
                # a token sequence that must be somewhere in the file
                t = text(parse(rest))
                if t not in text([x for i in src.items for x in i.all]):
                    raise Lost(f"{src.path}: expected {rest}")
            elif cmd == "complete":
                flush()
                for i in src.items:
                    if i.kind in ("use", "mod") or i.is_test():
                        continue
                    if (i.kind, i.name) not in src.seen:
                        out.soft.append(f"{src.path}: {i.kind} {i.name} has no contract")
            else:
                raise Lost(f"{path}:{ln}: unknown directive {cmd}")
        except Lost as e:
            raise Lost(f"{os.path.basename(path)}:{ln}: {e}")
        except (IndexError, KeyError, StopIteration, AttributeError) as e:
            if os.environ.get("VERIF_DEBUG"):
                raise
            raise Lost(f"{os.path.basename(path)}:{ln}: {type(e).__name__} {e}")
    try:
        flush()
    except Lost as e:
        raise Lost(f"{os.path.basename(path)}: {e}")


class _Anchor:
    def __init__(self, a):
        self.a = a

    def append(self, x):
        self.a[3] += x + "\n"


if __name__ == "__main__":
    # extract.py OUT.rs FILE.ov... : write the verified file (development aid)
    nf = os.path.join(HERE, "contracts", "names.json")
    names = json.load(open(nf)) if os.path.exists(nf) else {}
    o = build(sys.argv[2:], names)
    open(sys.argv[1], "w").write("".join(o.text))
    for s in o.soft:
        print("soft:", s)
    for k, why in list(o.demoted.items()) + list(o.hintlost.items()):
        print("DEMOTED:", k, why)
