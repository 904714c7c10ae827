"""Reader for the ANTLR grammar files of the repository: recognisers and sentence generators straight from the .g4 text.

Expression forms: ("seq", [e..]) ("alt", [e..]) ("star"|"plus"|"opt", e) ("tok", name) ("rule", name)
lexer only: ("str", text) ("set", intervals)
"""
import re

MAXC = 0x10FFFF


class GrammarError(Exception):
    pass


def strip_comments(s):
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if s.startswith("/*", i):
            j = s.index("*/", i) + 2
            out.append(" ")
            i = j
        elif s.startswith("//", i):
            j = s.find("\n", i)
            i = len(s) if j < 0 else j
        elif c == "'":
            j = i + 1
            while s[j] != "'":
                j += 2 if s[j] == "\\" else 1
            out.append(s[i : j + 1])
            i = j + 1
        elif c == "[":
            j = i + 1
            while s[j] != "]":
                j += 2 if s[j] == "\\" else 1
            out.append(s[i : j + 1])
            i = j + 1
        else:
            out.append(c)
            i += 1
    return "".join(out)


TOK = re.compile(r"\s*(?:(?P<str>'(?:\\.|[^'\\])*')|(?P<set>\[(?:\\.|[^\]\\])*\])|(?P<id>[A-Za-z_]\w*)|(?P<op>->|\.\.|[:;|()*+?~]))", re.S)


def tokens(s):
    i, out = 0, []
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise GrammarError(f"cannot read grammar at {s[i:i+40]!r}")
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


def unesc(body):
    """characters of a literal or set body -> list of (code point, escaped?)"""
    out, i = [], 0
    while i < len(body):
        c = body[i]
        if c != "\\":
            out.append((ord(c), False))
            i += 1
            continue
        d = body[i + 1]
        if d == "u":
            if body[i + 2] == "{":
                j = body.index("}", i)
                out.append((int(body[i + 3 : j], 16), True))
                i = j + 1
            else:
                out.append((int(body[i + 2 : i + 6], 16), True))
                i += 6
        else:
            out.append((ord({"n": "\n", "r": "\r", "t": "\t", "f": "\f", "b": "\b"}.get(d, d)), True))
            i += 2
    return out


def read_set(text):
    cs = unesc(text[1:-1])
    iv, i = [], 0
    while i < len(cs):
        if i + 2 < len(cs) and cs[i + 1] == (ord("-"), False):
            iv.append((cs[i][0], cs[i + 2][0]))
            i += 3
        else:
            iv.append((cs[i][0], cs[i][0]))
            i += 1
    return merge(iv)


def merge(iv):
    out = []
    for a, b in sorted(iv):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return out


def invert(iv):
    out, p = [], 0
    for a, b in merge(iv):
        if p < a:
            out.append((p, a - 1))
        p = b + 1
    if p <= MAXC:
        out.append((p, MAXC))
    return out


class Grammar:
    def __init__(self, path):
        src = strip_comments(open(path, encoding="utf-8").read())
        src = re.sub(r"(?s)options\s*\{.*?\}", "", src)
        self.t = tokens(src)
        self.i = 0
        self.rules, self.fragments, self.skip = {}, set(), set()
        m = [x[1] for x in self.t[:3]]
        self.lexer = m[0] == "lexer"
        while self.t[self.i][1] != ";":
            self.i += 1
        self.i += 1
        while self.i < len(self.t):
            self.rule_()

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def take(self, v=None):
        t = self.t[self.i]
        if v is not None and t[1] != v:
            raise GrammarError(f"expected {v!r}, found {t[1]!r}")
        self.i += 1
        return t

    def rule_(self):
        k, name = self.take()
        if name == "fragment":
            name = self.take()[1]
            self.fragments.add(name)
        if self.peek()[0] != "op":
            raise GrammarError(f"unsupported rule head {name!r}")
        self.take(":")
        e = self.alt()
        if self.peek()[1] == "->":
            self.take()
            cmd = self.take()[1]
            if cmd != "skip":
                raise GrammarError(f"unsupported lexer command {cmd}")
            self.skip.add(name)
        self.take(";")
        self.rules[name] = e

    def alt(self):
        xs = [self.seq()]
        while self.peek()[1] == "|" and self.peek()[0] == "op":
            self.take()
            xs.append(self.seq())
        return xs[0] if len(xs) == 1 else ("alt", xs)

    def seq(self):
        xs = []
        while not (self.peek()[0] == "op" and self.peek()[1] in ("|", ")", ";", "->")):
            xs.append(self.suffix())
        return xs[0] if len(xs) == 1 else ("seq", xs)

    def suffix(self):
        e = self.atom()
        while self.peek()[0] == "op" and self.peek()[1] in "*+?":
            op = self.take()[1]
            if op == "?" and e[0] in ("star", "plus", "opt"):
                raise GrammarError("non-greedy operators are not supported")
            e = ({"*": "star", "+": "plus", "?": "opt"}[op], e)
        return e

    def atom(self):
        k, v = self.take()
        if v == "(" and k == "op":
            e = self.alt()
            self.take(")")
            return e
        if v == "~" and k == "op":
            return ("set", invert(self.as_set(self.atom())))
        if k == "str":
            s = "".join(chr(c) for c, _ in unesc(v[1:-1]))
            if self.peek()[1] == ".." and self.peek()[0] == "op":
                self.take()
                hi = "".join(chr(c) for c, _ in unesc(self.take()[1][1:-1]))
                return ("set", [(ord(s), ord(hi))])
            return ("str", s)
        if k == "set":
            return ("set", read_set(v))
        if k == "id":
            return ("tok", v) if v[0].isupper() and not self.lexer else ("rule", v)
        raise GrammarError(f"unsupported grammar element {v!r}")

    def as_set(self, e):
        if e[0] == "set":
            return e[1]
        if e[0] == "str" and len(e[1]) == 1:
            return [(ord(e[1]), ord(e[1]))]
        if e[0] == "alt":
            return merge([p for x in e[1] for p in self.as_set(x)])
        if e[0] == "rule":
            return self.as_set(self.rules[e[1]])
        raise GrammarError("unsupported operand of ~")


# --------------------------------------------------------------------------- lexer


class Lexer:
    """All token rules as one NFA: longest match wins, then the first rule."""

    def __init__(self, g):
        self.g = g
        self.eps, self.edges, self.final = [], [], {}
        self.start = self.state()
        self.names = [n for n in g.rules if n not in g.fragments]
        for idx, n in enumerate(self.names):
            a, b = self.build(g.rules[n])
            self.eps[self.start].append(a)
            self.final[b] = idx

    def state(self):
        self.eps.append([])
        self.edges.append([])
        return len(self.eps) - 1

    def build(self, e):
        a, b = self.state(), self.state()
        k = e[0]
        if k == "str":
            p = a
            for c in e[1]:
                n = self.state()
                self.edges[p].append((ord(c), ord(c), n))
                p = n
            self.eps[p].append(b)
        elif k == "set":
            for lo, hi in e[1]:
                self.edges[a].append((lo, hi, b))
        elif k == "seq":
            p = a
            for x in e[1]:
                s, t = self.build(x)
                self.eps[p].append(s)
                p = t
            self.eps[p].append(b)
        elif k == "alt":
            for x in e[1]:
                s, t = self.build(x)
                self.eps[a].append(s)
                self.eps[t].append(b)
        elif k in ("star", "plus", "opt"):
            s, t = self.build(e[1])
            self.eps[a].append(s)
            self.eps[t].append(b)
            if k != "plus":
                self.eps[a].append(b)
            if k != "opt":
                self.eps[t].append(s)
        else:
            s, t = self.build(self.g.rules[e[1]])
            self.eps[a].append(s)
            self.eps[t].append(b)
        return a, b

    def closure(self, ss):
        seen, todo = set(ss), list(ss)
        while todo:
            for n in self.eps[todo.pop()]:
                if n not in seen:
                    seen.add(n)
                    todo.append(n)
        return seen

    def lex(self, q):
        """-> (tokens [(name, start, stop)], offset of the first character no token starts with or None)"""
        out, i = [], 0
        first = self.closure([self.start])
        while i < len(q):
            cur, j, best = first, i, None
            while cur:
                acc = [self.final[s] for s in cur if s in self.final]
                if acc and j > i:
                    best = (j, min(acc))
                if j == len(q):
                    break
                c = ord(q[j])
                nxt = {t for s in cur for lo, hi, t in self.edges[s] if lo <= c <= hi}
                cur = self.closure(nxt)
                j += 1
            if best is None:
                return out, i
            n = self.names[best[1]]
            if n not in self.g.skip:
                out.append((n, i, best[0]))
            i = best[0]
        return out, None


# --------------------------------------------------------------------------- parser


class Recogniser:
    """Which prefixes of a token sequence does a rule match (grammar without left recursion)."""

    def __init__(self, g, toks):
        self.g, self.toks, self.memo = g, toks + ["EOF"], {}

    def ends(self, e, i):
        k = e[0]
        if k == "tok":
            return frozenset([i + 1]) if i < len(self.toks) and self.toks[i] == e[1] else frozenset()
        if k == "rule":
            key = (e[1], i)
            if key not in self.memo:
                self.memo[key] = frozenset()
                self.memo[key] = self.ends(self.g.rules[e[1]], i)
            return self.memo[key]
        if k == "seq":
            cur = {i}
            for x in e[1]:
                cur = {n for p in cur for n in self.ends(x, p)}
            return frozenset(cur)
        if k == "alt":
            return frozenset(n for x in e[1] for n in self.ends(x, i))
        if k == "opt":
            return self.ends(e[1], i) | {i}
        seen = set() if k == "plus" else {i}
        todo = [i]
        done = set()
        while todo:
            p = todo.pop()
            if p in done:
                continue
            done.add(p)
            for n in self.ends(e[1], p):
                seen.add(n)
                todo.append(n)
        return frozenset(seen)

    def accepts(self, rule):
        return len(self.toks) in self.ends(("rule", rule), 0)


# --------------------------------------------------------------------------- generators


def heights(g):
    """least derivation height per rule, so that generation can be steered to an end"""
    INF = 10**6
    h = {n: INF for n in g.rules}

    def of(e):
        k = e[0]
        if k in ("tok", "str", "set"):
            return 0
        if k == "rule":
            return h[e[1]] + 1
        if k == "seq":
            return max([of(x) for x in e[1]], default=0)
        if k == "alt":
            return min(of(x) for x in e[1])
        if k == "plus":
            return of(e[1])
        return 0

    for _ in range(len(h) + 1):
        for n in h:
            h[n] = min(h[n], of(g.rules[n]))
    return h, of


def sentence(g, rule, draw, st, depth, budget=40):
    """token names (parser grammar) or characters (lexer grammar) of a random sentence"""
    h, of = heights(g)
    out = []

    def go(e, d):
        k = e[0]
        if k in ("tok", "str"):
            out.append(e[1])
        elif k == "set":
            a, b = e[1][draw(st.integers(0, len(e[1]) - 1))]
            edge = draw(st.integers(0, 3))
            out.append(chr(a if edge == 0 else b if edge == 1 else draw(st.integers(a, min(b, a + 300)))))
        elif k == "rule":
            go(g.rules[e[1]], d - 1)
        elif k == "seq":
            for x in e[1]:
                go(x, d)
        elif k == "alt":
            xs = [x for x in e[1] if of(x) <= d] if len(out) < budget else []
            if not xs:
                xs = sorted(e[1], key=of)[:1]
            go(xs[draw(st.integers(0, len(xs) - 1))], d)
        else:
            lo, hi = {"star": (0, 3), "plus": (1, 3), "opt": (0, 1)}[k]
            n = draw(st.integers(lo, hi)) if of(e[1]) <= d and len(out) < budget else lo
            for _ in range(n):
                go(e[1], d)

    go(("rule", rule), depth)
    return out
