"""C22: equivalent spellings give the same tree."""
from hypothesis import strategies as st

from .. import gen, ref, sut
from ..common import valid_cfg
from ..core import Prop, Sub
from ..sut import ensure

SCOPE_SYN = {}
for w, s in ref.SCOPES.items():
    SCOPE_SYN.setdefault(s, []).append(w)


def groups(q):
    """token texts grouped so that a quantifier, a flag part and the scope clause are one unit -> list of (kind, text)"""
    toks = ref.lex(q)
    out = []
    i = 0
    while i < len(toks):
        t = toks[i]
        if t.kind == "LC":
            j = i
            while toks[j].kind != "RC":
                j += 1
            ts = [x.text for x in toks[i + 1 : j]]
            if len(ts) == 1:
                lo = hi = int(ts[0])
            elif ts[0] == ",":
                lo, hi = 0, int(ts[1])
            else:
                lo, hi = int(ts[0]), (int(ts[2]) if len(ts) == 3 else -1)
            out.append(("quant", (lo, hi)))
            i = j + 1
        elif t.kind in "+*?":
            out.append(("quant", {"+": (1, -1), "*": (0, -1), "?": (0, 1)}[t.text]))
            i += 1
        elif t.kind == "SL":
            out.append(("flags", ref.decode_flags(toks[i + 1].text)))
            i += 2
        elif t.kind == "STR":
            out.append(("str", t.text))
            i += 1
        elif t.kind == "SCOPE" and i == len(toks) - 1 and toks[i - 1].kind == "WITHIN":
            out.append(("scope", ref.SCOPES[t.text]))
            i += 1
        else:
            out.append(("tok", t.text))
            i += 1
    return out


@st.composite
def respell(draw, q):
    """another way to write the same query"""
    out = []
    for k, v in groups(q):
        if k == "quant":
            lo, hi = v
            z = lambda n: "0" * draw(st.sampled_from([0, 0, 1, 3])) + str(n)
            forms = []
            if hi == -1:
                forms = [["{", z(lo), ",", "}"]] + ([["*"]] if lo == 0 else [["+"]] if lo == 1 else [])
            else:
                forms = [["{", z(lo), ",", z(hi), "}"]]
                if lo == hi:
                    forms.append(["{", z(lo), "}"])
                if lo == 0:
                    forms.append(["{", ",", z(hi), "}"])
                if v == (0, 1):
                    forms.append(["?"])
                if v == (1, 1):
                    forms.append([])
            out.extend(draw(st.sampled_from(forms)))
        elif k == "flags":
            if v in gen.FLAGSETS:
                out.extend(["/", draw(st.sampled_from([t for t in gen.FLAGSETS[v] if t]))])
            else:
                out.extend(["/", "".join({"ci": "i", "cs": "I", "lit": "l", "dia": "d"}[x] for x in sorted(v))])
        elif k == "str":
            val = ref.decode_literal(v)
            quote = draw(st.sampled_from("'\""))
            s = []
            for c in val:
                m = draw(st.sampled_from(["raw", "raw", "raw", "hex"]))
                cp = ord(c)
                if m == "hex":
                    s.append(gen.hexesc(cp, draw))
                elif c == "\\" or c == quote:
                    s.append("\\" + c)
                elif c == "\n" and draw(st.booleans()):
                    s.append("\\n")
                elif c == "\t" and draw(st.booleans()):
                    s.append("\\t")
                elif c in "'\"" and draw(st.booleans()):
                    s.append("\\" + c)
                else:
                    s.append(c)
            out.append(quote + "".join(s) + quote)
        elif k == "scope":
            out.append(draw(st.sampled_from(SCOPE_SYN[v])))
        else:
            out.append(v)
    return gen.glue(draw, out)[0]


@st.composite
def pair(draw, **knobs):
    c = draw(valid_cfg(**knobs))
    return {"q": c["q"], "cfg": c["cfg"], "r": draw(respell(c["q"]))}


def check(case, ctx):
    a, b = case["q"], case["r"]
    x = sut.snap(sut.parse_ok(a, case["cfg"], loc=False))
    y = sut.snap(sut.parse_ok(b, case["cfg"], loc=False))
    if a != b:
        ctx.nontrivial("nt:" + ("spacing-only" if "".join(a.split()) == "".join(b.split()) else "notation"))
    ensure(x.key() == y.key(), lambda: f"{a!r} and {b!r} mean the same but differ:\n  {x.show()}\n  {y.show()}")


@st.composite
def spaced(draw):
    g = draw(gen.queries(leaves=5, depth=3, rich=0))
    texts = [gen.glue(draw, g.toks, m)[0] for m in ("none", "space", "wild")]
    return {"texts": texts}


def spacing(case, ctx):
    trees = [(t, sut.snap(sut.parse_ok(t, loc=False))) for t in case["texts"]]
    ctx.nontrivial("nt:spacing")
    for t, x in trees[1:]:
        ensure(x.key() == trees[0][1].key(), lambda: f"{trees[0][0]!r} and {t!r} differ only in white space, but parse as\n  {trees[0][1].show()}\n  {x.show()}")


@st.composite
def repetition(draw):
    """every notation of one repetition, with leading zeros and white space, at one place of a query"""
    lo = draw(st.sampled_from([0, 0, 1, 2, 3, 4, 7, 8, 9, 10, 12, 99, 100]))
    hi = draw(st.sampled_from([lo, -1, 1, lo + 1, 10, lo + 7, lo * 10 if lo else 8]))
    hi = hi if hi == -1 or hi >= lo else lo
    pads = lambda n: ["0" * k + str(n) for k in (0, 1, draw(st.sampled_from([2, 3, 8])))]
    if hi == -1:
        forms = [["{", a, ",", "}"] for a in pads(lo)]
    else:
        forms = [["{", a, ",", b, "}"] for a in pads(lo) for b in pads(hi)] + [["{", ",", b, "}"] for b in pads(hi) if lo == 0] + [["{", a, "}"] for a in pads(lo) if lo == hi]
    forms += {(0, 1): [["?"]], (1, 1): [[]], (0, -1): [["*"]], (1, -1): [["+"]]}.get((lo, hi), [])
    sp = lambda toks: draw(st.sampled_from(["", "", " ", "\n "])).join(toks)
    at = draw(st.sampled_from(["'a'{}", "[]{}", "('a'){}", "('a' | 'b'){}", "'a' [b='c']{} 'd'", "('a'{} 'b')*", "('a' 'b'){} within s", "[!a='b']{}"]))
    return {"qs": [at.replace("{}", sp(f)) for f in forms], "lo": lo, "hi": hi}


def repetitions(case, ctx):
    trees = [(q, sut.snap(sut.parse_ok(q, loc=False))) for q in case["qs"]]
    ctx.nontrivial("nt:repetition")
    for q, x in trees:
        ensure(x.key() == trees[0][1].key(), lambda: f"{trees[0][0]!r} and {q!r} mean the same repetition, but parse as\n  {trees[0][1].show()}\n  {x.show()}")


PROP = Prop("C22", "pair of different texts with the same meaning (distinct pairs)", [
    Sub("respell", pair(leaves=5, depth=3, rich=1), check, 400, 10000),
    Sub("repetition", repetition(), repetitions, 120, 3000),
    Sub("spacing", spaced(), spacing, 200, 5000),
])
