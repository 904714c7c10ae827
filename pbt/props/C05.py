"""C05: pattern decoding."""
import unicodedata

from hypothesis import strategies as st

from .. import gen, ref, sut
from ..common import labels, model, valid_cfg
from ..core import Prop, Sub
from ..sut import ensure

FORMS = ["NFC", "NFD", "NFKC", "NFKD", None]


def norm(s, form):
    return unicodedata.normalize(form, s) if form else s


def regexes(n):
    return [x.attrs["regex"] for x in n.walk() if x.type == "Expression"]


def first_regex(node):
    return next(n.regex for n in sut.nodes(node) if sut.kind(n) == "Expression")


def check(case, ctx):
    q = case["q"]
    want = model(case)
    labels(case, want, ctx)
    ctx.label("norm:%s" % case["cfg"]["norm"])
    got = sut.snap(sut.parse_ok(q, case["cfg"], loc=False))
    if any(f.startswith("lit:") and f != "lit:plain" for f in case["feats"]):
        ctx.nontrivial("nt")
    ensure(regexes(got) == regexes(want), lambda: f"patterns of {q!r} ({case['cfg']}):\n  got  {regexes(got)!r}\n  want {regexes(want)!r}")


CTX = ["{}", "[text={}]", "[pos != {}]", "[a:b={} & c='d']", "('x' {}/i){{2}}", "[ !(a={})] within s"]


@st.composite
def one_literal(draw):
    src, val, feats = draw(gen.literal(rich=2))
    return {"lit": src, "val": list(val), "feats": sorted(feats), "norm": draw(st.sampled_from(FORMS)), "ctx": draw(st.integers(0, len(CTX) - 1))}


@st.composite
def long_literal(draw):
    """a few generated pieces repeated up to some thousands of characters, shifted by a few plain ones"""
    quote = draw(st.sampled_from("'\""))
    pieces = [draw(gen.literal(rich=2, quote=quote)) for _ in range(draw(st.integers(1, 3)))]
    size = draw(st.one_of(st.integers(60, 1200), st.sampled_from(gen.SIZES + gen.HUGE), st.integers(1200, 9000)))
    shift = draw(st.integers(0, 12))
    src, val, i = ["a" * shift], ["a" * shift], 0
    total = shift
    while total < size and i < 9000:
        s, v, _ = pieces[i % len(pieces)]
        src.append(s[1:-1])
        val.append(v)
        total += len(s) - 2
        i += 1
    return {"lit": quote + "".join(src) + quote, "val": ["".join(val)], "feats": ["long"], "norm": draw(st.sampled_from(FORMS)), "ctx": draw(st.integers(0, len(CTX) - 1))}


ATOMS = [("\\\\", "\\"), ("\\n", "\n"), ("\\t", "\t"), ("\\\"", '"'), ("\\'", "'"), ("\\.", "\\."), ("\\|", "\\|"), ("\\[", "\\["), ("\\x41", "A"), ("\\x5c", "\\"), ("\\u0041", "A"), ("\\u005C", "\\"), ("\\U00000041", "A"),
         ("\\x0A", "\n"), ("\\x27", "'"), ("\\x22", '"')] + [(c, c) for c in "ntx.uU|[a04 \n"] + [("u0041", "u0041"), ("x41", "x41"), ("\u00e9", "\u00e9"), ("e\u0301", "e\u0301")]


# pieces that would mean something in another notation (bytes of UTF-8, surrogate pairs, entities, percent signs, doubled escapes)
FOREIGN = [("\\xc3\\xa9", "\u00c3\u00a9"), ("\\xe2\\x82\\xac", "\u00e2\x82\u00ac"), ("\\xf0\\x9f\\x98\\x80", "\u00f0\x9f\x98\x80"), ("\\ud83d\\ude00", "\ud83d\ude00"), ("\\uD83D\\uDE00", "\ud83d\ude00"),
           ("\\x0d\\x0a", "\r\n"), ("\\xef\\xbb\\xbf", "\u00ef\u00bb\u00bf"), ("\\ufeff", "\ufeff"), ("&#x41;", "&#x41;"), ("&amp;", "&amp;"), ("%41", "%41"), ("%c3%a9", "%c3%a9"), ("\\\\x41", "\\x41"), ("\\\\u0041", "\\u0041"),
           ("\\\\n", "\\n"), ("\\\\\\x41", "\\A"), ("\\x5cx41", "\\x41"), ("\\x5cn", "\\n"), ("\\x5c.", "\\."), ("\\x26amp;", "&amp;"), ("\\xe9", "\u00e9"), ("=C3=A9", "=C3=A9"), ("\\x00", "\0"), ("\\x1b[0m", "\x1b[0m"),
           ("\\U0001F600", "\U0001f600"), ("\\U0000d83d\\U0000de00", "\ud83d\ude00"), ("\\x80", "\x80"), ("\\u2028", "\u2028"), ("\\x85", "\x85")]


@st.composite
def atoms_literal(draw):
    """a few kinds of escapes and plain characters only, in any order, in short and long literals"""
    few = draw(st.lists(st.sampled_from(ATOMS[:16]), min_size=1, max_size=3)) + draw(st.lists(st.sampled_from(ATOMS[16:]), max_size=3))
    if draw(st.integers(0, 2)) == 0:
        few = few[:3] + draw(st.lists(st.sampled_from(FOREIGN), min_size=1, max_size=3))
    run = draw(st.lists(st.sampled_from(few), min_size=1, max_size=14))
    run = run * draw(st.sampled_from([1, 1, 2, 5, 20, 60]))
    quote = draw(st.sampled_from("'\""))
    pad = "a" * draw(st.sampled_from([0, 0, 1, 30, 70, 130, 300]))
    if draw(st.booleans()):
        run = [(pad, pad)] + run
    else:
        run = run + [(pad, pad)]
    return {"lit": quote + "".join(s for s, _ in run) + quote, "val": ["".join(v for _, v in run)], "feats": ["atoms"], "norm": draw(st.sampled_from(FORMS)), "ctx": draw(st.integers(0, len(CTX) - 1))}


def literal(case, ctx):
    lit, form, val = case["lit"], case["norm"], "".join(case["val"])
    q = CTX[case["ctx"]].format(lit)
    ctx.label(*("lit:" + f for f in case["feats"]))
    if case["feats"]:
        ctx.nontrivial("nt:norm-changes" if norm(val, form) != val else "nt")
    rx = [n.regex for n in sut.nodes(sut.parse_ok(q, {"norm": form}, loc=False)) if sut.kind(n) == "Expression"]
    want = norm(val, form)
    ensure(want in rx and len(rx) == len([r for r in regexes(ref.parse(q, {"norm": form}))]), lambda: f"{q!r} with normalisation {form}: patterns {rx!r}, expected {want!r}")


ALPHA = st.one_of(st.characters(), st.sampled_from(gen.CLUSTERS).map(lambda c: "".join(map(chr, c))), st.sampled_from(["\ud83d", "\ude00"]), st.sampled_from(list("\\\"'nrtxuU.^$*+?(){}[]|/&0Af \n\t")), st.sampled_from(gen.NORM_CHARS + ["\u030c", "\u0301", "\u1161", "\u11a8"]))


@st.composite
def text_roundtrip(draw):
    return {"text": list("".join(draw(st.lists(ALPHA, max_size=12)))), "norm": draw(st.sampled_from(FORMS)), "quote": draw(st.sampled_from("'\"")),
            "hex": draw(st.lists(st.sampled_from(["raw", "raw", "x", "u", "U"]), min_size=12, max_size=40)), "other": draw(st.booleans())}


def encode(text, quote, hexes=None, escape_other=False):
    out = []
    for j, c in enumerate(text):
        h = (hexes or ["raw"])[j % len(hexes or [1])]
        cp = ord(c)
        if h == "x" and cp <= 0xFF:
            out.append(f"\\x{cp:02x}")
        elif h == "u" and cp <= 0xFFFF:
            out.append(f"\\u{cp:04X}")
        elif h == "U":
            out.append(f"\\U{cp:08x}")
        elif c == "\\" or c == quote or (escape_other and c in "'\""):
            out.append("\\" + c)
        elif c == "\n" and escape_other:
            out.append("\\n")
        elif c == "\t" and escape_other:
            out.append("\\t")
        else:
            out.append(c)
    return quote + "".join(out) + quote


def roundtrip(case, ctx):
    """any text survives quoting: parse(encode(text)) == normalised text, in every spelling"""
    t, form = "".join(case["text"]), case["norm"]
    want = norm(t, form)
    if t:
        ctx.nontrivial("nt:changed-by-normalisation" if want != t else "nt")
    spell = [encode(t, case["quote"]), encode(t, "'" if case["quote"] == '"' else '"'), encode(t, case["quote"], case["hex"], case["other"])]
    for s in spell:
        for q in (s, f"[lemma={s}]"):
            got = first_regex(sut.parse_ok(q, {"norm": form}, loc=False))
            ensure(got == want, lambda: f"{q!r} with normalisation {form}: pattern {got!r}, expected {want!r}")


def regex_escape(case, ctx):
    """escaped metacharacters keep their backslash, everything else next to them is untouched"""
    parts = case["parts"]
    src = "".join("\\" + c if e else c for c, e in parts)
    want = norm("".join("\\" + c if e else c for c, e in parts), "NFC")
    ctx.nontrivial()
    q = f"[text={case['quote']}{src}{case['quote']}]"
    got = first_regex(sut.parse_ok(q, loc=False))
    ensure(got == want, lambda: f"{q!r}: pattern {got!r}, expected {want!r}")


meta = st.lists(st.tuples(st.sampled_from(list(ref.ESC_REGEX)), st.booleans()), min_size=1, max_size=10)
meta_case = st.fixed_dictionaries({"parts": meta, "quote": st.sampled_from("'\"")})


def badcp(case, ctx):
    q, cp = case["q"], case["cp"]
    ctx.nontrivial("valid" if cp <= 0x10FFFF else "invalid")
    node, exc = sut.try_parse(q, {"norm": None}, loc=False)
    if cp > 0x10FFFF:
        ensure(node is None, lambda: f"{q!r}: code point U+{cp:X} accepted")
    else:
        ensure(node is not None, lambda: f"{q!r}: rejected: {exc}")
        ensure(first_regex(node) == chr(cp), lambda: f"{q!r}: pattern {first_regex(node)!r}, expected {chr(cp)!r}")


@st.composite
def cp_case(draw):
    cp = draw(st.one_of(st.integers(0, 0x10FFFF), st.integers(0, 0xFFFFFFFF), st.sampled_from(
        [0, 0xD800, 0xDFFF, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x1F600, 0x0F0F0F, 0xABCDEF])))
    h = f"{cp:08x}"
    if draw(st.booleans()):
        h = h.upper()
    return {"q": f'"\\U{h}"', "cp": cp}


PROP = Prop("C05", "pattern that contains an escape, an inner quote, a normalisation-sensitive or a non-ASCII/control character (distinct cases)", [
    Sub("tree", valid_cfg(leaves=4, depth=2, rich=2), check, 300, 8000),
    Sub("literal", one_literal(), literal, 700, 25000),
    Sub("atoms", atoms_literal(), literal, 400, 10000),
    Sub("long", long_literal(), literal, 120, 3000),
    Sub("roundtrip", text_roundtrip(), roundtrip, 350, 15000),
    Sub("regex-escape", meta_case, regex_escape, 300, 8000),
    Sub("codepoint", cp_case(), badcp, 400, 15000),
], ["Python's unicodedata is the reference for normalisation"])
