"""Hypothesis strategies: abstract queries, their rendering to text, mutants and token soup.

A generated query is a model tree (ref.N) plus a token list; rendering joins
tokens with generated white space and fills in source spans, so the expected
result is known by construction, without parsing.
"""
import re
import unicodedata

from hypothesis import strategies as st

from . import ref
from .ref import N

# ------------------------------------------------------------------ words

KEYWORDS = ["within", "sentence", "s", "utterance", "u", "paragraph", "p", "turn", "t", "text", "session",
            "i", "I", "c", "C", "l", "d", "il", "dC", "Ii"]
LAYERS = ["text", "word", "lemma", "pos", "orth", "norm", "phonetic", "entity", "x-a", "x-y1", "x", "X-y", "posx",
          "tex", "texts", "Text", "withinx", "s1", "a", "lemmas", "p-p", "i-c", "a--b", "x1-", "POS", "pos2"]
LAYERS = [w for w in LAYERS if not w.endswith("-")]
ident_free = st.from_regex(r"\A[a-zA-Z]([a-zA-Z0-9\-]{0,6}[a-zA-Z0-9])?\Z")
ident = st.one_of(st.sampled_from(LAYERS), st.sampled_from(KEYWORDS), ident_free)
known_layer = st.sampled_from(["text", "lemma", "pos", "orth", "norm", "phonetic", "word", "x-a"])

# ------------------------------------------------------------------ literals

NORM_CHARS = ["a\u030c", "\u01ce", "e\u0301", "\u212b", "\u0041\u030a", "\ufb01", "\u1e9b\u0323", "\u1100\u1161",
              "\uac00", "o\u0308", "\xf6", "\u0344", "\u2126", "\uff21", "\u00bd"]
PLAIN = st.sampled_from(list("abzAZ019 _-.,;:!?*+()[]{}|&/=^$#~@%<>") + ["ü", "\u00df", "\u4e2d", "\U0001d4b3", "\U0001f600"])
WILD = st.sampled_from(["\t", "\n", "\r", "\x00", "\x1b", "\x85", "\xa0", "\u2028", "\u3000", "\ufeff", "\u200b", "\u200d",
                        "\x7f", "\uffff", "\U0010ffff", "\ud800", "\udfff"])
ANYCHAR = st.characters()
# code points that mean something together: decoding each of them on its own must not combine them
CLUSTERS = [[0xD83D, 0xDE00], [0xDE00, 0xD83D], [0x5C, 0x6E], [0x5C, 0x5C], [0x5C, 0x78, 0x34, 0x31], [0x5C, 0x22], [0x0D, 0x0A], [0x6F, 0x308], [0x1100, 0x1161, 0x11A8],
            [0x22, 0x22], [0x27, 0x22], [0x1F468, 0x200D, 0x1F469], [0x26, 0x6C, 0x74, 0x3B], [0x25, 0x34, 0x31], [0x5C, 0x2E], [0x5B, 0x5D], [0xFEFF, 0x61], [0x61, 0x323, 0x307], [0x30, 0x660]]


def hexesc(cp, draw):
    forms = []
    if cp <= 0xFF:
        forms.append(("x", 2))
    if cp <= 0xFFFF:
        forms.append(("u", 4))
    forms.append(("U", 8))
    k, n = draw(st.sampled_from(forms))
    h = f"{cp:0{n}x}"
    mode = draw(st.sampled_from(["l", "u", "m"]))
    if mode == "u":
        h = h.upper()
    elif mode == "m":
        h = "".join(c.upper() if j % 2 else c for j, c in enumerate(h))
    return "\\" + k + h


SAFE_TEXT = st.text(alphabet="abcdeXYZ019 ", max_size=6)


@st.composite
def literal(draw, rich=1, quote=None):
    """-> (source incl. quotes, decoded value before normalisation, feature set)"""
    quote = quote or draw(st.sampled_from(['"', "'"]))
    if rich == 0:
        s = draw(SAFE_TEXT)
        return quote + s + quote, s, frozenset()
    n = draw(st.sampled_from([0, 1, 1, 2, 3, 5, 8] if rich == 1 else [0, 1, 2, 3, 4, 6, 9, 14]))
    src, val, feats = [], [], set()
    for _ in range(n):
        k = draw(st.sampled_from(["plain", "plain", "oq", "escq", "simple", "regex", "hex", "norm", "wild", "any", "cluster"]))
        feats.add(k)
        if k == "plain":
            c = draw(PLAIN)
            src.append(c); val.append(c)
        elif k == "oq":
            c = "'" if quote == '"' else '"'
            src.append(c); val.append(c)
        elif k == "escq":
            c = draw(st.sampled_from(["'", '"']))
            src.append("\\" + c); val.append(c)
        elif k == "simple":
            c = draw(st.sampled_from(["\\", "n", "t"]))
            src.append("\\" + c); val.append(ref.ESC_PLAIN[c])
        elif k == "regex":
            c = draw(st.sampled_from(list(ref.ESC_REGEX)))
            src.append("\\" + c); val.append("\\" + c)
        elif k == "hex":
            cp = draw(st.one_of(
                st.sampled_from([0, 0x22, 0x27, 0x41, 0x5C, 0x6E, 0xFF, 0x100, 0xF6, 0x30C, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF]),
                st.integers(0, 0xFF), st.integers(0, 0xD7FF), st.integers(0xE000, 0x10FFFF)))
            src.append(hexesc(cp, draw)); val.append(chr(cp))
        elif k == "cluster":
            for cp in draw(st.sampled_from(CLUSTERS)):
                c = chr(cp)
                if c in "\\'\"" or 0xD800 <= cp < 0xE000 or draw(st.booleans()):
                    src.append("\\" + c if c in "\\'\"" and draw(st.booleans()) else hexesc(cp, draw))
                else:
                    src.append(c)
                val.append(c)
        elif k == "norm":
            c = draw(st.sampled_from(NORM_CHARS))
            src.append(c); val.append(c)
        elif k == "wild":
            c = draw(WILD)
            src.append(c); val.append(c)
        else:
            c = draw(ANYCHAR)
            if c in "\\'\"":
                src.append("\\" + c)
            else:
                src.append(c)
            val.append(c)
    return quote + "".join(src) + quote, "".join(val), frozenset(feats)


FLAGSETS = {
    frozenset(): [""],
    frozenset(["ci"]): ["i", "c", "ic", "ii"],
    frozenset(["cs"]): ["I", "C", "CI"],
    frozenset(["lit"]): ["l", "ll"],
    frozenset(["dia"]): ["d", "dd"],
    frozenset(["ci", "dia"]): ["id", "di", "cd", "dc", "cid", "did"],
    frozenset(["cs", "dia"]): ["Id", "dI", "Cd", "dCI"],
}
flags = st.one_of(
    st.just((frozenset(), "")),
    st.sampled_from([(fs, t) for fs, ts in FLAGSETS.items() for t in ts]),
    st.text(alphabet="icICld", min_size=1, max_size=6).map(lambda t: (_fl(t), t)).filter(lambda p: p[0] is not None),
)


def _fl(t):
    try:
        return ref.decode_flags(t)
    except ref.Reject:
        return None


BADFLAGS = st.text(alphabet="icICld", min_size=2, max_size=6).filter(lambda t: _fl(t) is None)

# ------------------------------------------------------------------ token builder


class B:
    """Token list under construction."""

    def __init__(self):
        self.toks = []

    def add(self, *ts):
        self.toks.extend(ts)

    def mark(self):
        return len(self.toks)

    def node(self, first, type, children=(), **attrs):
        n = N(type, list(children), None, attrs)
        n.trange = (first, len(self.toks) - 1)
        return n


class Cfg:
    """Size and feature knobs of the query generator."""

    def __init__(self, leaves=6, nots=4, depth=3, rich=1, names=ident, identifier="text", operator="Eq", norm="NFC",
                 quant=True, within=True):
        self.leaves, self.nots, self.depth, self.rich, self.names = leaves, nots, depth, rich, names
        self.identifier, self.operator, self.norm = identifier, operator, norm
        self.quant, self.within = quant, within

    def ref(self):
        return {"identifier": self.identifier, "operator": self.operator, "norm": self.norm}


class G:
    def __init__(self, draw, cfg):
        self.draw, self.cfg, self.b = draw, cfg, B()
        self.leaves = cfg.leaves
        self.nots = cfg.nots
        self.feats = set()

    def norm(self, s):
        return unicodedata.normalize(self.cfg.norm, s) if self.cfg.norm else s

    # literals & flags
    def regexp(self):
        src, val, feats = self.draw(literal(self.cfg.rich))
        self.feats |= {"lit:" + f for f in feats}
        self.b.add(src)
        fs, txt = self.draw(flags)
        if txt:
            self.b.add("/", txt)
            self.feats.add("flags")
        return self.norm(val), fs

    def basic(self):
        b = self.b
        a = b.mark()
        q = None
        if self.draw(st.integers(0, 2)) == 0:
            q = self.draw(self.cfg.names)
            b.add(q, ":")
            self.feats.add("qualifier")
        i = self.draw(self.cfg.names)
        b.add(i)
        op = self.draw(st.sampled_from(["Eq", "Ne"]))
        b.add("=" if op == "Eq" else "!=")
        rx, fl = self.regexp()
        self.leaves -= 1
        return b.node(a, "Expression", qualifier=q, identifier=i, operator=op, regex=rx, flags=fl)

    def unary(self, depth):
        b, draw = self.b, self.draw
        opts = ["basic", "basic"]
        if depth > 0:
            opts.append("group")
        if self.nots > 0:
            opts.append("not")
        k = draw(st.sampled_from(opts))
        a = b.mark()
        if k == "basic":
            return self.basic()
        if k == "not":
            self.nots -= 1
            b.add("!")
            c = self.unary(depth)
            self.feats.add("not")
            return b.node(a, "ExpressionNot", [c])
        b.add("(")
        c = self.e_or(depth - 1)
        b.add(")")
        self.feats.add("egroup")
        return b.node(a, "ExpressionGroup", [c])

    def many(self, one, sep, type, weights):
        n = min(self.draw(st.sampled_from(weights)), max(1, self.leaves))
        a = self.b.mark()
        xs = [one()]
        for _ in range(n - 1):
            if self.leaves <= 0:
                break
            if sep:
                self.b.add(sep)
            xs.append(one())
        if len(xs) == 1:
            return xs[0]
        self.feats.add(type)
        return self.b.node(a, type, xs)

    def e_and(self, depth):
        return self.many(lambda: self.unary(depth), "&", "ExpressionAnd", [1, 1, 2, 2, 3, 4])

    def e_or(self, depth):
        return self.many(lambda: self.e_and(depth), "|", "ExpressionOr", [1, 1, 2, 2, 3, 4])

    def quantifier(self):
        if not self.cfg.quant:
            return 1, 1
        toks, lo, hi = self.draw(quantifier)
        self.b.add(*toks)
        if toks:
            self.feats.add("quant:" + toks[0])
        return lo, hi

    def item(self, depth):
        b, draw = self.b, self.draw
        k = draw(st.sampled_from(["implicit", "segment", "segment", "wild", "group"] if depth > 0 else
                                 ["implicit", "segment", "wild"]))
        a = b.mark()
        if k == "implicit":
            rx, fl = self.regexp()
            c = b.node(a, "Expression", qualifier=None, identifier=self.cfg.identifier, operator=self.cfg.operator,
                       regex=rx, flags=fl)
            self.leaves -= 1
            self.feats.add("implicit")
        elif k == "wild":
            b.add("[", "]")
            c = b.node(a, "ExpressionWildcard")
            self.leaves -= 1
            self.feats.add("wildcard")
        elif k == "segment":
            b.add("[")
            c = self.e_or(self.cfg.depth - 1)
            b.add("]")
        else:
            b.add("(")
            c = self.disj(depth - 1)
            b.add(")")
            self.feats.add("qgroup")
        lo, hi = self.quantifier()
        return b.node(a, "QueryGroup" if k == "group" else "QuerySegment", [c], min=lo, max=hi)

    def seq(self, depth):
        return self.many(lambda: self.item(depth), None, "QuerySequence", [1, 1, 2, 3])

    def disj(self, depth):
        return self.many(lambda: self.seq(depth), "|", "QueryDisjunction", [1, 1, 1, 2, 3])

    def query(self):
        b = self.b
        a = b.mark()
        n = self.disj(self.cfg.depth)
        if self.cfg.within and self.draw(st.integers(0, 3)) == 0:
            b.add("within")
            w = b.mark()
            s = self.draw(st.sampled_from(sorted(ref.SCOPES)))
            b.add(s)
            self.feats.add("within")
            n = b.node(a, "QueryWithWithin", [n, b.node(w, "SimpleWithin", scope=ref.SCOPES[s])])
        return n


INT = st.one_of(st.integers(0, 5), st.integers(0, 5), st.sampled_from([9, 10, 11, 99, 100, 255, 2**31, 2**63, 10**30]))


def spell_int(n, zeros):
    return "0" * zeros + str(n)


@st.composite
def curly(draw, ok=True):
    """{..} quantifier token lists -> (tokens, lo, hi)"""
    z = st.sampled_from([0, 0, 0, 1, 3])
    form = draw(st.sampled_from(["n", "n,", ",n", "n,m"]))
    x = draw(INT)
    if form == "n":
        return ["{", spell_int(x, draw(z)), "}"], x, x
    if form == "n,":
        return ["{", spell_int(x, draw(z)), ",", "}"], x, ref.UNBOUNDED
    if form == ",n":
        return ["{", ",", spell_int(x, draw(z)), "}"], 0, x
    y = draw(INT)
    lo, hi = min(x, y), max(x, y)
    return ["{", spell_int(lo, draw(z)), ",", spell_int(hi, draw(z)), "}"], lo, hi


quantifier = st.one_of(
    st.just(([], 1, 1)), st.just(([], 1, 1)),
    st.sampled_from([(["+"], 1, -1), (["*"], 0, -1), (["?"], 0, 1)]),
    curly(),
)

# ------------------------------------------------------------------ rendering

_WORD = frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-")
ws1 = st.one_of(st.just(" "), st.sampled_from(ref.WS_LIST),
                st.lists(st.sampled_from(ref.WS_LIST), min_size=1, max_size=3).map("".join))
WS_MODES = ["none", "space", "mixed", "wild", "lines"]
NEWLINES = ["\n", "\n", "\n", "\r\n", "\r", "\n\n", "\n  ", "\n\t", " \n"]


def need_ws(a, b):
    return bool(a) and bool(b) and a[-1] in _WORD and b[0] in _WORD


def glue(draw, toks, mode=None, edges=True):
    """-> (text, token start offsets, token stop offsets)"""
    mode = mode or draw(st.sampled_from(WS_MODES))
    out, starts, stops, pos = [], [], [], 0

    def ws(required):
        if mode == "none":
            return " " if required else ""
        if mode == "space":
            return " "
        if mode == "lines":  # a line of its own for every token
            return draw(st.sampled_from(NEWLINES)) if len(toks) <= 60 else "\n"
        k = draw(st.integers(0, 3))
        if k == 0 or (required and k < 3):
            return " " if mode == "mixed" else draw(ws1)
        if k == 3 and mode == "wild":
            return draw(ws1)
        return " " if required else ""

    prev = None
    for t in toks:
        s = ws(need_ws(prev, t)) if (prev is not None or edges) else ""
        out.append(s)
        pos += len(s)
        starts.append(pos)
        out.append(t)
        pos += len(t)
        stops.append(pos)
        prev = t
    if edges and toks:
        out.append(ws(False))
    return "".join(out), starts, stops


def place(n, starts, stops):
    a, b = n.trange
    n.span = (starts[a], stops[b])
    for c in n.children:
        place(c, starts, stops)
    return n


class Q:
    """A generated valid query: text, expected tree (with spans), tokens, features."""

    def __init__(self, text, tree, toks, feats, cfg):
        self.text, self.tree, self.toks, self.feats, self.cfg = text, tree, toks, feats, cfg

    def __repr__(self):
        return f"Q({self.text!r})"


@st.composite
def queries(draw, mode=None, **knobs):
    cfg = Cfg(**knobs)
    g = G(draw, cfg)
    tree = g.query()
    text, a, b = glue(draw, g.b.toks, mode)
    place(tree, a, b)
    return Q(text, tree, list(g.b.toks), frozenset(g.feats), cfg)


@st.composite
def cfg_queries(draw, **knobs):
    """Valid queries together with a parser configuration."""
    c = draw(parser_cfgs)
    return draw(queries(**{**knobs, **c}))


parser_cfgs = st.fixed_dictionaries({
    "identifier": st.sampled_from(["text", "text", "lemma", "word", "x-y", "pos", "Foo"]),
    "operator": st.sampled_from(["Eq", "Eq", "Ne"]),
    "norm": st.sampled_from(["NFC", "NFC", "NFD", "NFKC", "NFKD", None]),
})

# ------------------------------------------------------------------ near misses and junk

SOUP_TOKENS = ["(", ")", "[", "]", "|", "&", "!", "/", "{", "}", "+", "*", "?", ",", "=", "!=", ":", "within",
               "s", "text", "i", "iI", "l", "abc", "x-y", "pos", "0", "3", "12", '"a"', "'b'", '""', '"\\."', "-", "$",
               '"', "'", "\\", "<", "1a", "WITHIN", "Within", "S", "Sentence", "PARAGRAPH", '"\\q"', "#", ".", "[]", '[a="b"]', "{1,2}", "{2,1}", "withinx"]


WORD = re.compile("[a-zA-Z]+")


def cap_nots(s, k=8):
    """Keep junk queries small."""
    out, n = [], 0
    for i, ch in enumerate(s):
        if ch == "!":
            nxt = s[i + 1 : i + 2]
            if nxt != "=":
                n += 1
                if n > k:
                    continue
        out.append(ch)
    return "".join(out)


def cap_ops(s, k=24):
    n = 0
    out = []
    for ch in s:
        if ch in "&|":
            n += 1
            if n > k:
                continue
        out.append(ch)
    return "".join(out)


def cap(s):
    return cap_ops(cap_nots(s))


@st.composite
def mutants(draw, **knobs):
    """A valid query with 1-3 token-level or character-level edits (usually, not always, invalid)."""
    knobs = {"leaves": 4, "rich": 1, **knobs}
    q = draw(queries(**knobs))
    toks = list(q.toks)
    if draw(st.booleans()):
        for _ in range(draw(st.integers(1, 2))):
            k = draw(st.sampled_from(["del", "dup", "swap", "rep", "ins", "cut"]))
            if not toks:
                toks = [draw(st.sampled_from(SOUP_TOKENS))]
                continue
            i = draw(st.integers(0, len(toks) - 1))
            if k == "del":
                del toks[i]
            elif k == "dup":
                toks.insert(i, toks[i])
            elif k == "swap":
                j = draw(st.integers(0, len(toks) - 1))
                toks[i], toks[j] = toks[j], toks[i]
            elif k == "rep":
                toks[i] = draw(st.sampled_from(SOUP_TOKENS))
            elif k == "ins":
                toks.insert(i, draw(st.sampled_from(SOUP_TOKENS)))
            else:
                toks = toks[:i]
        text, _, _ = glue(draw, toks)
        return cap(text)
    text = q.text
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(["del", "ins", "rep", "cut", "tail", "case"]))
        if k == "case":
            # other letter case for a word of the query
            words = [m.span() for m in WORD.finditer(text)]
            if words:
                a, b = draw(st.sampled_from(words))
                text = text[:a] + draw(st.sampled_from([str.upper, str.title, str.swapcase]))(text[a:b]) + text[b:]
            continue
        i = draw(st.integers(0, max(0, len(text) - 1)))
        c = draw(st.sampled_from(list("()[]|&!/{}+*?,=:\"'\\ \n-$ai1xXuU.") + ["\xa0", "\u200b", "ü", "\ud800", "\x00"]))
        if k == "del":
            text = text[:i] + text[i + 1 :]
        elif k == "ins":
            text = text[:i] + c + text[i:]
        elif k == "rep":
            text = text[:i] + c + text[i + 1 :]
        elif k == "cut":
            text = text[:i]
        else:
            text = text[i:]
    return cap(text)


@st.composite
def soup(draw, max_size=12):
    toks = draw(st.lists(st.sampled_from(SOUP_TOKENS), max_size=max_size))
    return cap(draw(st.sampled_from(["", " "])).join(toks))


@st.composite
def semantic_bad(draw):
    """Syntactically fine queries that break a semantic rule (flags, range, code point)."""
    k = draw(st.sampled_from(["flags", "range", "codepoint"]))
    if k == "flags":
        body = [draw(st.sampled_from(['"a"', "''", '"x y"'])), "/", draw(BADFLAGS)]
        quant = []
    elif k == "range":
        lo = draw(st.one_of(st.integers(1, 12), st.sampled_from([100, 2**31, 2**64])))
        hi = draw(st.integers(0, min(lo - 1, 10**6)))
        body, quant = ['"a"'], ["{", spell_int(lo, draw(st.integers(0, 1))), ",", spell_int(hi, draw(st.integers(0, 1))), "}"]
    else:
        cp = draw(st.one_of(st.integers(0x110000, 0xFFFFFFFF),
                            st.sampled_from([0x110000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xD8000000])))
        pre, post = draw(SAFE_TEXT), draw(SAFE_TEXT)
        body, quant = [f'"{pre}\\U{cp:08x}{post}"'], []
    shape = draw(st.integers(0, 4))
    if shape == 0:
        toks = body + quant
    elif shape == 1:
        toks = ["[", "text", "="] + body + ["]"] + quant
    elif shape == 2:
        toks = ["[", "]", "("] + body + quant + [")"]
    elif shape == 3:
        toks = ["[", "pos", "=", '"X"', "&", "!", "("] + ["lemma", "!="] + body + [")", "]"] + quant + ["within", "s"]
    else:
        toks = ['"b"', "|", "("] + ["[", "text", "="] + body + ["]", '"c"', ")"] + quant
    text, _, _ = glue(draw, toks)
    return text, k


EDGE = ["\x00", "\ufeff", "\u200b", "\u200d", "\x1a", "\x04", "\x7f", "\x1b", "\x08", "\x0b", "\x1c", "\x85", "\xa0", "\u2028", "\u3000", "\u00ad", "\ufffd", "\uffff", "\ud800", "\U0010ffff", ";", "#", "//", "--", "\\", "\\n", "\n;", "<EOF>", "$", "%", "%s", "%d", "%(a)s", "{}", "{0}", "{a}", "${a}", "%%"]
JUNK = ["$", "#", "@", "\u00e4", "\x00", "]", ")", "|", "&", "9", "=", "within", "/", "\\q", "-"]


@st.composite
def anything(draw):
    """Any query string: valid, near-valid, semantically bad, junk. -> (text, class)"""
    k = draw(st.sampled_from(["valid", "mutant", "mutant", "mutant", "soup", "sem", "text"] * 4 + ["large", "large-mutant", "large-mutant", "noisy", "noisy", "edge", "edge"]))
    if k == "edge":
        t = draw(queries(leaves=3)).text
        e = "".join(draw(st.lists(st.sampled_from(EDGE), min_size=1, max_size=2)))
        p = draw(st.integers(0, 3))
        i = draw(st.integers(0, len(t)))
        return [e + t, t + e, e + t + e, t[:i] + e + t[i:]][p], k
    if k == "noisy":  # many problems in one query
        toks = draw(queries(leaves=5)).toks
        junk = draw(st.lists(st.sampled_from(JUNK), min_size=1, max_size=3))
        for i in draw(st.lists(st.integers(0, 60), min_size=1, max_size=40)):
            toks.insert(i % (len(toks) + 1), junk[i % len(junk)])
        return cap(" ".join(toks)), k
    if k.startswith("large"):
        t = draw(large())[0]
        if k == "large":
            return t, k
        i = draw(st.one_of(st.integers(0, len(t)), st.integers(max(0, len(t) - 10), len(t))))
        e = draw(st.sampled_from(["del", "ins", "cut", "dup"]))
        c = draw(st.sampled_from(list("()[]|&!/{}+*?,=:\"'\\ a1-$") + ["within", "\xa0", "\u200b"]))
        return {"del": t[:i] + t[i + 1 :], "ins": t[:i] + c + t[i:], "cut": t[:i], "dup": t[:i] + t[max(0, i - 3) :]}[e], k
    if k == "valid":
        return draw(queries(leaves=4)).text, k
    if k == "mutant":
        return draw(mutants()), k
    if k == "soup":
        return draw(soup()), k
    if k == "sem":
        return draw(semantic_bad())[0], k
    return cap(draw(st.text(max_size=20))), k

# ------------------------------------------------------------------ one dimension made large

HUGE = [180, 200, 254, 255, 256, 257, 258, 300, 400, 500, 511, 512, 513, 600, 700, 999, 1000, 1001, 1023, 1024, 1025, 1100]
SIZES = [9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 40, 50, 63, 64, 65, 80, 100, 101, 120, 128, 129]


def _join(pool, n, seps, odd=None):
    """n operands, taken in turn from the pool; odd: (index, the one operand that is different)"""
    out = []
    for i in range(n):
        if i and seps:
            s = seps[(i - 1) % len(seps)]
            if s:
                out.append(s)
        out.extend(odd[1] if odd and odd[0] % n == i else pool[i % len(pool)])
    return out


@st.composite
def large(draw):
    """Text of a valid query that is big in one respect: many operands, deep nesting, long literal, name, number, flags, white space."""
    k = draw(st.sampled_from(["expr", "expr", "seq", "disj", "seqdisj", "deep-expr", "deep-query", "nots", "literal", "literal", "runs", "name", "flags", "number", "ws", "segments", "numbered", "numbered", "numbered"]))
    size = draw(st.one_of(st.sampled_from(SIZES), st.integers(9, 130), st.sampled_from(SIZES), st.integers(9, 130), st.integers(9, 130), st.sampled_from(HUGE), st.integers(131, 1100)))
    # now and then longer than 65535 characters altogether
    far = k in ("literal", "runs", "name", "ws") and draw(st.integers(0, 9)) == 9
    lit = lambda rich=0: draw(literal(rich))[0]
    one = lambda: [draw(ident)] + ([":", draw(ident)] if draw(st.integers(0, 3)) == 0 else []) + [draw(st.sampled_from(["=", "!="])), lit()] + draw(st.sampled_from([[], [], ["/", "i"], ["/", "Id"]]))

    def term():
        a = one()
        m = draw(st.integers(0, 5))
        if m == 0:
            return ["!"] + a
        if m == 1:
            return ["("] + a + ["|"] + one() + [")"]
        if m == 2:
            return ["!", "("] + a + ["&"] + one() + [")"]
        return a

    def quant():
        return draw(quantifier)[0]

    def item():
        m = draw(st.integers(0, 4))
        if m == 0:
            return ["[", "]"] + quant()
        if m == 1:
            return [lit(1)] + draw(st.sampled_from([[], [], ["/", "l"]])) + quant()
        if m == 2:
            return ["(", lit()] + [lit(), ")"] + quant()
        if m == 3:
            return ["(", lit(), "|", lit(), ")"] + quant()
        return ["["] + one() + ["]"] + quant()

    pool = lambda f: [f() for _ in range(draw(st.integers(1, 3)))]

    def odd(f):
        if draw(st.integers(0, 2)) == 0:
            return None
        return draw(st.one_of(st.integers(-3, 40), st.sampled_from(SIZES), st.sampled_from(HUGE), st.integers(0, 1100))), f()
    tail = draw(st.sampled_from([[], [], ["within", "s"], ["within", "paragraph"]]))
    if k == "numbered":  # every part is different from all the others
        ws = [draw(st.integers(1, 11)) for _ in range(5)]
        fl = ["", "", "/i", "/C", "/l", "/d", "/id", "/cd", "/Id", "/dc", "/Cd"]

        def leaf(i):
            f = fl[i * ws[0] % 11]
            return (["q%d" % i, ":"] if i % (ws[1] + 1) == 0 else []) + ["n%d" % i, "!=" if i % (ws[2] + 1) == 0 else "=", "'%d'" % i] + (["/", f[1:]] if f else [])

        def count(i):
            return [[], ["{", str(i), "}"], ["{", str(i), ",", "}"], ["{", ",", str(i), "}"], ["{", str(i), ",", str(i + ws[3]), "}"], ["+"], []][i * ws[4] % 7]

        if draw(st.booleans()):
            s = draw(st.lists(st.sampled_from(["&", "|"]), min_size=1, max_size=3))
            toks = ["["] + _join([(["!"] if i % ws[3] == 1 else []) + leaf(i) for i in range(min(size, 300))], min(size, 300), s) + ["]"] + count(size)
        else:
            s = draw(st.lists(st.sampled_from(["", "", "|"]), min_size=1, max_size=3))
            its = [[["["] + leaf(i) + ["]"], ['"%d"' % i], ["(", '"%d"' % i, "[", *leaf(i), "]", ")"], ["[", "]"], ["'%d'" % i, "/", "l"]][i * ws[0] % 5] + count(i) for i in range(size)]
            toks = _join(its, size, s)
    elif k == "expr":
        seps = draw(st.lists(st.sampled_from(["&", "|"]), min_size=1, max_size=4))
        toks = ["["] + _join(pool(term), min(size, 300), seps, odd(term)) + ["]"] + quant()
    elif k == "seq":
        toks = _join(pool(item), size, None, odd(item))
    elif k == "disj":
        toks = _join(pool(item), size, ["|"], odd(item))
    elif k == "seqdisj":
        toks = _join(pool(item), size, [""] * draw(st.integers(1, 6)) + ["|"], odd(item))
    elif k == "segments":
        a, b = pool(one), draw(st.sampled_from(["&", "|"]))
        toks = _join([["["] + x + [b] + a[0] + ["]"] for x in a], min(size, 150), draw(st.sampled_from([None, ["|"], ["", "|"]])), odd(item))
    elif k == "deep-expr":
        d = min(size, draw(st.sampled_from([10, 17, 24, 33])))
        pairs = [draw(st.sampled_from([(["("], [")"]), (["!", "("], [")"]), (["("] + one() + ["&"], [")"]), (["("], ["|"] + one() + [")"]), (["("] + one() + ["|"], ["&"] + one() + [")"])])) for _ in range(draw(st.integers(1, 2)))]
        pre, post = [], []
        for i in range(d):
            a, b = pairs[i % len(pairs)]
            pre, post = pre + a, b + post
        toks = ["["] + pre + one() + post + ["]"]
    elif k == "deep-query":
        d = min(size, draw(st.sampled_from([10, 14, 18, 26])))
        it = item()
        pairs = [draw(st.sampled_from([(["("], [")"]), (["("], [")", "+"]), (["("] + it, [")"]), (["("], ["|"] + it + [")"]), (["("], it + [")", "{", "2", "}"])])) for _ in range(draw(st.integers(1, 2)))]
        pre, post = [], []
        for i in range(d):
            a, b = pairs[i % len(pairs)]
            pre, post = pre + a, b + post
        toks = pre + item() + post
    elif k == "nots":
        toks = ["["] + ["!"] * min(size, 60) + one() + draw(st.sampled_from([[], ["&"] + one(), ["|"] + one()])) + ["]"]
    elif k == "literal":
        body, q = [], draw(st.sampled_from(["'", '"']))
        piece = [draw(st.sampled_from(["a", "b c", "\\n", "\\\\", "\\.", "\\x41", "\\u00e4", "\\U0001F600", "\u00fc", "\U0001d4b3", "o\u0308", "\n", "\\'", '\\"', "(", "|", "]"])) for _ in range(draw(st.integers(1, 4)))]
        for i in range(min(1300, size * draw(st.sampled_from([1, 1, 3, 10]))) if not far else 66000 * len(piece) // sum(map(len, piece)) + 9):
            body.append(piece[i % len(piece)])
        s = q + "".join(body) + q
        toks = draw(st.sampled_from([[s], ["[", "lemma", "=", s, "]"], [s, "/", "d", "+"], ['"x"', "[", "pos", "!=", s, "&", "a", "=", "''", "]"]]))
    elif k == "name":
        p = draw(st.sampled_from(["a", "ab", "x-", "Z9", "s", "i", "within", "A-0"]))
        size = 66000 if far else size
        n = (p * size)[:size].rstrip("-")
        toks = ["["] + draw(st.sampled_from([[n], [n, ":", "pos"], ["q", ":", n], [n, ":", n]])) + ["=", lit(), "]"]
    elif k == "flags":
        f = draw(st.sampled_from(["i", "c", "ic", "I", "C", "IC", "l", "d", "id", "dI", "dcci"]))
        toks = [lit(), "/", (f * size)[:size]] + quant()
    elif k == "number":
        z = "0" * size
        a, b = draw(st.integers(0, 9)), draw(st.integers(0, 9))
        d = draw(st.sampled_from([1, 7, 10**size]))
        toks = draw(st.sampled_from([['"a"'], ["[", "]"], ["(", '"a"', '"b"', ")"]])) + draw(st.sampled_from([
            ["{", z + str(a), "}"], ["{", str(a * d), ",", "}"], ["{", ",", z + str(b * d), "}"], ["{", str(min(a, b)), ",", z + str(max(a, b) * d), "}"], ["{", z + str(a * d), "}"]]))
    else:
        w = draw(st.sampled_from(ref.WS_LIST)) * (66000 if far else size) + draw(st.sampled_from(["", "\n", " "]))
        toks = draw(st.sampled_from([["[", "a", "=", "''", "]"], ['"a"', "{", "1", ",", "2", "}"], ["'a'", "/", "i", "'b'"], ["[", "!", "x", ":", "y", "!=", "'1'", "|", "z", "=", '""', "]", "+"]])) + tail
        i = draw(st.integers(0, len(toks)))
        return " ".join(toks[:i]) + w + " ".join(toks[i:]), k
    return glue(draw, toks + tail, draw(st.sampled_from(["none", "space", "space", "mixed", "lines"])))[0], k
