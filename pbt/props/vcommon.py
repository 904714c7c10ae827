"""Shared by the validator properties."""
import re

from hypothesis import strategies as st

from .. import gen, ref, sut
from ..sut import ensure, fp, fv

LAYERS = ["text", "lemma", "pos", "orth", "norm", "phonetic", "word", "x-a", "x-", "x-y-z", "x", "X-a", "Text", "texts", "tex", "words", "Word", "entity", "posx", "po", "foo", "s", "i",
          "within", "a-x", "xx", "p", "lemm", "normx", "POS"]
LAYERS = [x for x in LAYERS if not x.endswith("-")]
IDENT = re.compile(r"[a-zA-Z]([a-zA-Z0-9\-]*[a-zA-Z0-9])?\Z")


@st.composite
def near(draw):
    """names that almost are one with a special meaning: edits of the known, legacy and custom ones"""
    s = draw(st.sampled_from(["text", "lemma", "pos", "orth", "norm", "phonetic", "word", "x-", "x-a", "x-x-", "x-text", "x-pos"]))
    return edited(draw, s)


def edited(draw, s):
    for _ in range(draw(st.integers(1, 2))):
        k = draw(st.sampled_from(["pre", "post", "ins", "del", "case", "upper", "rep", "double", "rev"]))
        i = draw(st.integers(0, len(s)))
        c = draw(st.sampled_from("axX-s1yp"))
        if k == "pre":
            s = draw(st.sampled_from(["a", "x", "x-", "ax-", "a-", "my", "X-", "x-x-", "lex-"])) + s
        elif k == "post":
            s = s + draw(st.sampled_from(["a", "s", "-a", "-x", "1", "-x-a", "x"]))
        elif k == "ins":
            s = s[:i] + c + s[i:]
        elif k == "del":
            s = s[:i] + s[i + 1 :]
        elif k == "case":
            s = s[:i] + s[i : i + 1].swapcase() + s[i + 1 :]
        elif k == "upper":
            s = s.upper() if draw(st.booleans()) else s.capitalize()
        elif k == "rep":
            s = s[:i] + c + s[i + 1 :]
        elif k == "double":
            s = s + s
        else:
            s = s[::-1]
    return s if IDENT.match(s) else "a" + "".join(x for x in s if x != "-")


names = st.one_of(st.sampled_from(LAYERS), st.sampled_from(LAYERS[:8]), near(), gen.ident)
QUALS = ["a", "b", "ud", "stts", "s", "within", "word", "pos", "x-a"]
quals = st.one_of(st.sampled_from(QUALS), gen.ident)
PATTERNS = ref.UPOS + ["noun", "Noun", "NN", "", " ", "ADJ ", "NOUN|VERB", "N.*", "[A-Z]", "A+", "foo", "föö", "X", "x", "Y", "SY", "SYMX", "NOU", "V\\.", "(X)", "a b", "VERB VERB", "PUNCTX", "1", "ADJADV", "^X",
                       "X$", "a?", "{1}", "CONJ", "SCONJ ", "PROP", "a{99999999999}", "a{4294967296,}", "(", "[", "*a", "a**", "(?P<a", "a{2,1}", "(?i)a", "\\1", "x{,3}", "(a+)+$", "[b-a]", "(?<=a+)b", "[[:alpha:]]"]


WS = st.sampled_from([""] * 9 + [" ", "\n", "\t", "  ", "\r\n", " \n "])


@st.composite
def atoms(draw, names=names, quals=quals, qual_p=3):
    q = draw(quals) if draw(st.integers(0, qual_p)) == 0 else None
    i = draw(names)
    if q and draw(st.integers(0, 5)) == 0:
        q = i
    op = draw(st.sampled_from(["=", "!="]))
    rx = draw(st.sampled_from(PATTERNS))
    fl = draw(st.sampled_from(["", "", "", "/i", "/C", "/l", "/d", "/id"]))
    w = draw(WS)
    return (f"{q}:{w}" if q else "") + i + w + op + w + '"' + rx.replace("\\", "\\\\").replace('"', '\\"') + '"' + fl


@st.composite
def related(draw, many=False):
    """a list of names and names that nearly are on it"""
    listed = draw(st.lists(st.one_of(st.sampled_from(LAYERS), near(), gen.ident), min_size=1, max_size=4, unique=True))
    close = [edited(draw, draw(st.sampled_from(listed))) for _ in range(3)]
    j = draw(st.sampled_from(listed))
    close += [j + "-" + draw(st.sampled_from("ax")), j + j, j.lower(), j.upper(), j[:-1].rstrip("-") or j, j.split("-")[0], j.split("-")[-1], "x-" + j]
    close = [c for c in close if IDENT.match(c)]
    return listed, draw(st.lists(st.one_of(st.sampled_from(close), st.sampled_from(close), st.sampled_from(listed)), min_size=1, max_size=5))


@st.composite
def exprs(draw, atom, depth=2):
    if depth == 0 or draw(st.integers(0, 2)) == 0:
        return draw(atom)
    k = draw(st.sampled_from("&|&|!(-"))
    if k == "-":
        return "!" * draw(st.sampled_from([1, 1, 2])) + draw(atom)
    if k == "!":
        return "!(" + draw(exprs(atom, depth - 1)) + ")"
    if k == "(":
        return "(" + draw(exprs(atom, depth - 1)) + ")"
    return f" {k} ".join(draw(st.lists(exprs(atom, depth - 1), min_size=2, max_size=3)))


REPS = ["", "", "", "", "+", "{2}", "?", "*", "{0}", "{0,0}", "{,3}", "{0,}"]


@st.composite
def vqueries(draw, atom=None, implicit=True):
    """queries made for the validator"""
    atom = atom if atom is not None else atoms()
    if draw(st.integers(0, 4)) == 0:  # few different expressions, each of them several times
        atom = st.sampled_from(draw(st.lists(atom, min_size=1, max_size=3)))
    items = []
    if draw(st.integers(0, 11)) == 0:  # large: many terms or segments, or deeply nested
        a = draw(st.lists(atom, min_size=1, max_size=3))
        if draw(st.integers(0, 2)) == 0:  # many small complaints before a serious one
            a = [draw(st.sampled_from(["word='a'", "x-a='b'", "pos='NN'", "x-b!='c'", "pos='nn' & word='a'"])) for _ in range(draw(st.integers(1, 2)))]
        n = draw(st.one_of(st.sampled_from(gen.SIZES), st.integers(9, 60), st.integers(9, 60), st.sampled_from(gen.HUGE[:12])))
        k = draw(st.sampled_from(["and", "or", "seq", "nest", "not"]))
        ts = [a[i % len(a)] for i in range(n)]
        last = draw(atom)
        if draw(st.booleans()):  # the different one is somewhere in the middle
            i = draw(st.integers(0, n - 1))
            ts[i], last = last, ts[i]
        if k in ("and", "or"):
            return "[" + {"and": " & ", "or": " | "}[k].join(ts + [last]) + "]"
        if k == "seq":
            return " ".join(f"[{t}]" for t in ts + [last])
        n = min(n, 20)
        return "[" + "(" * n + last + "".join(f" & {t})" for t in ts[:n]) + "]" if k == "nest" else "[" + "!(" * n + last + ")" * n + "]"
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(["seg", "seg", "seg", "wild", "imp", "group"]))
        if k == "seg":
            items.append("[" + draw(exprs(atom)) + "]" + draw(st.sampled_from(REPS)))
        elif k == "wild":
            items.append("[]" + draw(st.sampled_from(REPS)))
        elif k == "imp" and implicit:
            items.append('"' + draw(st.sampled_from(["a", "NN", "X"])) + '"')
        else:
            items.append("( [" + draw(exprs(atom, 1)) + "] )" + draw(st.sampled_from(REPS)))
    sep = draw(st.sampled_from([" ", " ", " | "]))
    return sep.join(items) + draw(st.sampled_from(["", "", " within s"]))


def detail(e):
    p = e.position
    return (e.type, (p.start, p.stop) if p is not None else None, e.fragment)


def expected(q, want, sev, loc=True, query=True):
    typ = {"error": "validation-error", "warning": "validation-warning"}[sev]
    return [(typ, n.span if loc else None, q[n.span[0] : n.span[1]] if loc and query and q else None) for s, _, n, _ in want if s == sev]


def validator(cfg, **kw):
    c = dict(kw)
    if cfg.get("ids") is not None:
        c["allowed_layer_identifiers"] = list(cfg["ids"])
    if cfg.get("quals") is not None:
        c["allowed_layer_qualifiers"] = [(a, list(b) if b is not None else None) for a, b in cfg["quals"]]
    return fv.FCSQLValidator(**c)


def model_issues(q, cfg, parse_cfg=None):
    return ref.issues(ref.parse(q, parse_cfg), cfg.get("ids"), cfg.get("quals"))


def collect(q, cfg, loc=True, give_query=True, **kw):
    """-> (result, errors, warnings) of a collecting validator"""
    node = sut.parse_ok(q, loc=loc)
    v = validator(cfg, raise_at_first_violation=False, **({"query": q} if give_query else {}), **kw)
    lists = v.allowed_layer_identifiers, v.allowed_layer_qualifiers
    was = repr(lists)
    res = sut.call(f"validating {q!r} with {cfg}", v.validate, node)
    ensure(repr(lists) == was, lambda: f"validating {q!r} changed the lists given to the validator from {was} to {lists}")
    for e in list(v.errors) + list(v.warnings):
        ensure(isinstance(e, fp.ErrorDetail) and isinstance(e.message, str) and e.message, lambda: f"{q!r}: issue {e!r}")
    return res, v.errors, v.warnings


def compare(q, cfg, errors, warnings, want, loc=True, query=True):
    for sev, got in (("error", errors), ("warning", warnings)):
        w = expected(q, want, sev, loc, query)
        g = [detail(e) for e in got]
        ensure(g == w, lambda: f"{q!r} with {cfg}: {sev}s\n  got  {g}\n  want {w}")
        for e, (_, kind, n, name) in zip(got, [x for x in want if x[0] == sev]):
            ensure(str(name) in e.message, lambda: f"{q!r}: {sev} message {e.message!r} does not mention {name!r}")


MORE = ["l%d" % i for i in range(30)] + ["x-l%d" % i for i in range(20)] + ["A", "Z", "zz", "aa", "M-1"]
MORE_Q = ["q%d" % i for i in range(40)] + ["A", "Z", "zz", "aa"]


def some_of(more):
    """6 to 45 of the given names, in one of many orders"""
    n = len(more)
    steps = [k for k in range(1, n) if all(k % p or n % p for p in range(2, n))] if n < 100 else [1]
    return st.tuples(st.one_of(st.integers(6, 45), st.sampled_from([8, 9, 16, 17, 32, 33])), st.integers(0, n - 1), st.sampled_from([1, n - 1] + steps)).map(lambda t: list(dict.fromkeys(more[(t[1] + i * t[2]) % n] for i in range(t[0]))))


def mix(a, b, at, how):
    """b put into a"""
    a = list(a)
    if how == "end":
        return a + list(b)
    for i, x in enumerate(b):
        a.insert((at + i * 7) % (len(a) + 1), x)
    return a


mixing = st.tuples(st.integers(0, 60), st.sampled_from(["end", "in"]))


def long_list(some, more):
    """a long list in any order: a few interesting names among many others"""
    return st.tuples(some_of(more), st.lists(some, min_size=1, max_size=4), mixing).map(lambda t: list(dict.fromkeys(mix(t[0], t[1], *t[2]))))


ODD = ["*", ".*", "", "x-", "x-*", "%", "any", "all", "None", "default", "!text", "[a-z]+", "TEXT"]  # configured names that mean nothing special
odd_ids = st.tuples(st.lists(names, max_size=3, unique=True), st.lists(st.sampled_from(ODD), min_size=1, max_size=2, unique=True), st.booleans()).map(
    lambda t: t[0] + t[1] if t[2] else t[1] + t[0])

id_lists = st.one_of(st.none(), odd_ids, st.lists(names, min_size=1, max_size=5, unique=True), st.lists(names, min_size=1, max_size=5, unique=True), long_list(names, MORE))


@st.composite
def qual_entries(draw, layers=tuple(LAYERS[:9]), quals=tuple(QUALS)):
    """configured qualifiers; few layers, so that some are listed twice (the first entry counts)"""
    pool = draw(st.lists(st.sampled_from(layers), min_size=1, max_size=4, unique=True))
    one = st.tuples(st.sampled_from(pool), st.one_of(st.none(), st.lists(st.sampled_from(quals), max_size=3), st.lists(st.sampled_from(quals[:3]), max_size=2)))
    ents = [[a, b] for a, b in draw(st.lists(one, min_size=1, max_size=5))]
    m = draw(st.integers(0, 9))
    if m == 0:  # one layer with many qualifiers
        i = draw(st.integers(0, len(ents) - 1))
        ents[i][1] = list(draw(long_list(st.sampled_from(quals), MORE_Q)))
    elif m == 1:  # many layers
        vals = draw(st.lists(st.sampled_from([None, [], ["a"], ["b", "ud"]]), min_size=1, max_size=3))
        ents = mix([[l, vals[i % len(vals)]] for i, l in enumerate(draw(some_of(MORE)))], ents, *draw(mixing))
    elif m == 2:  # names that no query can contain
        ents.insert(draw(st.integers(0, len(ents))), [draw(st.sampled_from(ODD)), draw(st.sampled_from([None, [], list(quals[:2])]))])
    elif m == 3:
        i = draw(st.integers(0, len(ents) - 1))
        ents[i][1] = list(ents[i][1] or []) + [draw(st.sampled_from(ODD))]
    return ents


qual_lists = st.one_of(st.none(), qual_entries(), qual_entries())
cfgs = st.fixed_dictionaries({"ids": id_lists, "quals": qual_lists})
