"""Independent reference model of FCS-QL 2.0 (lexer, parser, tree semantics).

Written from the FCS-QL grammar and documentation; imports nothing from the
code under test.  The context-free part of the language is LL(2), so this
recursive-descent recogniser fails exactly at the first token that no valid
query can have at that place (viable prefix property).
"""
import re
import unicodedata
from dataclasses import dataclass, field

UNBOUNDED = -1
WS = frozenset(
    [chr(c) for c in (0x9, 0xA, 0xB, 0xC, 0xD, 0x20, 0x85, 0xA0, 0x1680)]
    + [chr(c) for c in range(0x2000, 0x200B)]
    + [chr(c) for c in (0x2028, 0x2029, 0x202F, 0x205F, 0x3000)]
)
WS_LIST = sorted(WS)
SCOPES = {
    "sentence": "Sentence", "s": "Sentence",
    "utterance": "Utterance", "u": "Utterance",
    "paragraph": "Paragraph", "p": "Paragraph",
    "turn": "Turn", "t": "Turn",
    "text": "Text",
    "session": "Session",
}
FLAG_CHARS = {"i": "ci", "c": "ci", "I": "cs", "C": "cs", "l": "lit", "d": "dia"}
ESC_PLAIN = {"\\": "\\", '"': '"', "'": "'", "n": "\n", "t": "\t"}
ESC_REGEX = ".^$*+?(){}[]|"
ESC_HEX = {"x": 2, "u": 4, "U": 8}
HEXDIGITS = frozenset("0123456789abcdefABCDEF")
PUNCT = {
    "(": "LP", ")": "RP", "[": "LB", "]": "RB", "|": "OR", "&": "AND", "!": "NOT", "/": "SL",
    "{": "LC", "}": "RC", "+": "+", "*": "*", "?": "?", ",": "COMMA", "=": "EQ", "!=": "NE", ":": "COLON",
}
_IDENT = re.compile(r"[a-zA-Z](?:[a-zA-Z0-9\-]*[a-zA-Z0-9])?")
_INT = re.compile(r"[0-9]+")
NAME_KINDS = ("IDENT", "WITHIN", "SCOPE", "FLAGS")


class Reject(Exception):
    """kind: 'lex' | 'syntax' | 'semantic'; offset: where in the query."""

    def __init__(self, kind, offset, msg="", tok=None):
        super().__init__(kind, offset, msg)
        self.kind, self.offset, self.msg, self.tok = kind, offset, msg, tok


@dataclass
class Tok:
    kind: str
    text: str
    start: int
    stop: int  # exclusive


@dataclass
class N:
    """Model node. type is the public class name of the node."""

    type: str
    children: list = field(default_factory=list)
    span: tuple = None
    attrs: dict = field(default_factory=dict)

    def walk(self):
        yield self
        for c in self.children:
            yield from c.walk()

    def key(self, loc=False):
        a = tuple(sorted((k, tuple(sorted(v)) if isinstance(v, (set, frozenset)) else v) for k, v in self.attrs.items()))
        return (self.type, a, self.span if loc else None, tuple(c.key(loc) for c in self.children))

    def show(self, loc=False):
        a = " ".join(f"{k}={sorted(v) if isinstance(v, (set, frozenset)) else v!r}" for k, v in self.attrs.items())
        s = f"@{self.span}" if loc else ""
        return f"({self.type}{s}{' ' + a if a else ''}{''.join(' ' + c.show(loc) for c in self.children)})"


def classify_word(w):
    if w == "within":
        return "WITHIN"
    if w in SCOPES:
        return "SCOPE"
    if all(ch in FLAG_CHARS for ch in w):
        return "FLAGS"
    return "IDENT"


def scan_string(q, i):
    """q[i] is a quote; returns index after the closing quote or None."""
    quote = q[i]
    n = len(q)
    i += 1
    while i < n:
        c = q[i]
        if c == quote:
            return i + 1
        if c == "\\":
            if i + 1 >= n:
                return None
            e = q[i + 1]
            if e in ESC_PLAIN or e in ESC_REGEX:
                i += 2
            elif e in ESC_HEX:
                k = ESC_HEX[e]
                h = q[i + 2 : i + 2 + k]
                if len(h) != k or any(x not in HEXDIGITS for x in h):
                    return None
                i += 2 + k
            else:
                return None
        else:
            i += 1
    return None


def lex(q):
    toks = []
    i, n = 0, len(q)
    while i < n:
        c = q[i]
        if c in WS:
            i += 1
            continue
        if q.startswith("!=", i):
            toks.append(Tok("NE", "!=", i, i + 2))
            i += 2
            continue
        if c in PUNCT:
            toks.append(Tok(PUNCT[c], c, i, i + 1))
            i += 1
            continue
        if c in "\"'":
            j = scan_string(q, i)
            if j is None:
                raise Reject("lex", i, "string")
            toks.append(Tok("STR", q[i:j], i, j))
            i = j
            continue
        m = _IDENT.match(q, i)
        if m:
            toks.append(Tok(classify_word(m.group()), m.group(), i, m.end()))
            i = m.end()
            continue
        m = _INT.match(q, i)
        if m:
            toks.append(Tok("INT", m.group(), i, m.end()))
            i = m.end()
            continue
        raise Reject("lex", i, "char")
    return toks


def decode_literal(lit):
    """Decode a (lexically valid) quoted literal; no Unicode normalisation."""
    s = lit[1:-1]
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        if c != "\\":
            out.append(c)
            i += 1
            continue
        e = s[i + 1]
        if e in ESC_PLAIN:
            out.append(ESC_PLAIN[e])
            i += 2
        elif e in ESC_REGEX:
            out.append("\\" + e)
            i += 2
        else:
            k = ESC_HEX[e]
            cp = int(s[i + 2 : i + 2 + k], 16)
            if cp > 0x10FFFF:
                raise Reject("semantic", None, "codepoint")
            out.append(chr(cp))
            i += 2 + k
    return "".join(out)


def decode_flags(txt):
    fl = {FLAG_CHARS[c] for c in txt}
    if "ci" in fl and "cs" in fl:
        raise Reject("semantic", None, "flags")
    if "lit" in fl and len(fl) > 1:
        raise Reject("semantic", None, "flags")
    return frozenset(fl)


class _P:
    def __init__(self, q, toks, cfg):
        self.q, self.t, self.i, self.cfg = q, toks, 0, cfg
        self.semantic = None

    def peek(self, k=0):
        j = self.i + k
        return self.t[j].kind if j < len(self.t) else "EOF"

    def fail(self):
        if self.i < len(self.t):
            raise Reject("syntax", self.t[self.i].start, "unexpected token", self.t[self.i])
        raise Reject("syntax", len(self.q), "unexpected end", None)

    def eat(self, *kinds):
        if self.peek() not in kinds:
            self.fail()
        t = self.t[self.i]
        self.i += 1
        return t

    def sem(self, r):
        if self.semantic is None:
            self.semantic = r

    def span(self, first):
        return (self.t[first].start, self.t[self.i - 1].stop)

    # --- query level
    def query(self):
        a = self.i
        node = self.disjunction()
        if self.peek() == "WITHIN":
            self.i += 1
            b = self.i
            s = self.eat("SCOPE")
            w = N("SimpleWithin", [], (s.start, s.stop), {"scope": SCOPES[s.text]})
            node = N("QueryWithWithin", [node, w], self.span(a))
        if self.peek() != "EOF":
            self.fail()
        return node

    def disjunction(self):
        a = self.i
        alts = [self.sequence()]
        while self.peek() == "OR":
            self.i += 1
            alts.append(self.sequence())
        return alts[0] if len(alts) == 1 else N("QueryDisjunction", alts, self.span(a))

    def sequence(self):
        a = self.i
        items = [self.item()]
        while self.peek() in ("STR", "LB", "LP"):
            items.append(self.item())
        return items[0] if len(items) == 1 else N("QuerySequence", items, self.span(a))

    def item(self):
        a = self.i
        k = self.peek()
        if k == "LP":
            self.i += 1
            c = self.disjunction()
            self.eat("RP")
            typ = "QueryGroup"
        elif k == "STR":
            c = self.implicit()
            typ = "QuerySegment"
        elif k == "LB":
            self.i += 1
            if self.peek() == "RB":
                self.i += 1
                c = N("ExpressionWildcard", [], self.span(a))
            else:
                c = self.e_or()
                self.eat("RB")
            typ = "QuerySegment"
        else:
            self.fail()
        lo, hi = self.quantifier()
        return N(typ, [c], self.span(a), {"min": lo, "max": hi})

    def quantifier(self):
        k = self.peek()
        if k == "+":
            self.i += 1
            return 1, UNBOUNDED
        if k == "*":
            self.i += 1
            return 0, UNBOUNDED
        if k == "?":
            self.i += 1
            return 0, 1
        if k != "LC":
            return 1, 1
        a = self.i
        self.i += 1
        if self.peek() == "COMMA":
            self.i += 1
            lo, hi = 0, int(self.eat("INT").text)
        else:
            lo = hi = int(self.eat("INT").text)
            if self.peek() == "COMMA":
                self.i += 1
                hi = UNBOUNDED
                if self.peek() == "INT":
                    hi = int(self.eat("INT").text)
        self.eat("RC")
        if hi != UNBOUNDED and lo > hi:
            self.sem(Reject("semantic", self.t[a].start, "range"))
        return lo, hi

    def implicit(self):
        a = self.i
        rx, fl = self.regexp()
        return N("Expression", [], self.span(a), {
            "qualifier": None, "identifier": self.cfg["identifier"], "operator": self.cfg["operator"],
            "regex": rx, "flags": fl})

    def regexp(self):
        t = self.eat("STR")
        rx, fl = None, frozenset()
        try:
            rx = decode_literal(t.text)
            if self.cfg["norm"]:
                rx = unicodedata.normalize(self.cfg["norm"], rx)
        except Reject as r:
            self.sem(Reject("semantic", t.start, r.msg))
        if self.peek() == "SL":
            self.i += 1
            f = self.eat("FLAGS")
            try:
                fl = decode_flags(f.text)
            except Reject as r:
                self.sem(Reject("semantic", f.start, r.msg))
        return rx, fl

    # --- expression level
    def e_or(self):
        a = self.i
        xs = [self.e_and()]
        while self.peek() == "OR":
            self.i += 1
            xs.append(self.e_and())
        return xs[0] if len(xs) == 1 else N("ExpressionOr", xs, self.span(a))

    def e_and(self):
        a = self.i
        xs = [self.e_unary()]
        while self.peek() == "AND":
            self.i += 1
            xs.append(self.e_unary())
        return xs[0] if len(xs) == 1 else N("ExpressionAnd", xs, self.span(a))

    def e_unary(self):
        a = self.i
        k = self.peek()
        if k == "NOT":
            self.i += 1
            c = self.e_unary()
            return N("ExpressionNot", [c], self.span(a))
        if k == "LP":
            self.i += 1
            c = self.e_or()
            self.eat("RP")
            return N("ExpressionGroup", [c], self.span(a))
        q = None
        ident = self.eat(*NAME_KINDS).text
        if self.peek() == "COLON":
            self.i += 1
            q = ident
            ident = self.eat(*NAME_KINDS).text
        op = self.eat("EQ", "NE")
        rx, fl = self.regexp()
        return N("Expression", [], self.span(a), {
            "qualifier": q, "identifier": ident, "operator": "Eq" if op.kind == "EQ" else "Ne",
            "regex": rx, "flags": fl})


DEFAULT_CFG = {"identifier": "text", "operator": "Eq", "norm": "NFC"}


def parse_syntax(q, cfg=None):
    """-> (node, semantic Reject or None); raises Reject('lex'|'syntax')."""
    p = _P(q, lex(q), {**DEFAULT_CFG, **(cfg or {})})
    node = p.query()
    return node, p.semantic


def parse(q, cfg=None):
    node, sem = parse_syntax(q, cfg)
    if sem is not None:
        raise sem
    return node


def verdict(q, cfg=None):
    """-> (node, None) or (None, Reject)"""
    try:
        return parse(q, cfg), None
    except Reject as r:
        return None, r


def nontrivial_seq(n):
    return n.type == "QuerySequence" and len(n.children) == 1


def collapse(n):
    """Drop single-element sequences (the grammar wraps lone alternatives and group contents in them)."""
    while nontrivial_seq(n):
        n = n.children[0]
    return N(n.type, [collapse(c) for c in n.children], n.span, n.attrs)


# --------------------------------------------------------------------------
# validator model

UPOS = "ADJ ADV INTJ NOUN PROPN VERB ADP AUX CCONJ DET NUM PART PRON SCONJ PUNCT SYM X".split()
KNOWN_LAYERS = "text lemma pos orth norm phonetic".split()
META = frozenset("()[]{}?*+-|^$\\.&~#\t\n\r\v\f")  # what re.escape escapes, without the blank


def likely_regex(value):
    """the documented guess: escaping the string (re.escape), blanks aside, would change it"""
    return any(c in META for c in value)


def issues(node, allowed_ids=None, allowed_quals=None):
    """Expected issues in document order: list of (severity, kind, node, detail). None if unspecified."""
    out = []
    for n in node.walk():
        if n.type != "Expression":
            continue
        i, q = n.attrs["identifier"], n.attrs["qualifier"]
        if allowed_ids:
            if i not in allowed_ids:
                out.append(("error", "identifier", n, i))
        elif i not in KNOWN_LAYERS:
            if i == "word":
                out.append(("warning", "legacy", n, i))
            elif i.startswith("x-"):
                out.append(("warning", "custom", n, i))
            else:
                out.append(("error", "identifier", n, i))
        if q and allowed_quals:
            lst = None
            for ident, quals in allowed_quals:
                if ident == i:
                    lst = quals
                    break
            if lst is None or q not in lst:
                out.append(("error", "qualifier", n, q))
        if i == "pos" and not q:
            rx = n.attrs["regex"]
            if rx not in UPOS and not n.attrs["flags"]:
                if not likely_regex(rx):
                    out.append(("warning", "pos", n, rx))
    return out
