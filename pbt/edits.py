"""Edits of an existing tree through its documented public attributes."""
from hypothesis import strategies as st

from . import sut
from .sut import fp

LISTS = ("ExpressionAnd", "ExpressionOr", "QuerySequence", "QueryDisjunction")
FLAGSETS = [None, ("ci",), ("cs",), ("lit",), ("dia",), ("ci", "dia"), ("cs", "dia")]
ops = st.lists(st.tuples(st.integers(0, 40), st.sampled_from(["append", "insert", "drop", "pop0", "swap", "reverse", "fresh", "replace", "loc", "noloc", "attr", "attr", "attr"]), st.integers(0, 60)).map(list), min_size=1, max_size=5)
NAMES = ["text", "lemma", "pos", "word", "foo", "x-y", "a"]


def new(n, arg):
    """a node of a kind that fits where children of n sit"""
    if sut.kind(n) in ("ExpressionAnd", "ExpressionOr", "ExpressionGroup", "ExpressionNot"):
        return fp.Expression(None, NAMES[arg % 7], fp.Operator.EQUALS, "n%d" % arg, None)
    e = fp.ExpressionWildcard() if arg % 2 else fp.Expression("q", NAMES[arg % 7], fp.Operator.NOT_EQUALS, "n", None)
    return e if sut.kind(n) == "QuerySegment" else fp.QuerySegment(e, arg % 3, 3)


def apply(root, plan):
    """carry out the edits; returns how many took effect"""
    done = 0
    for i, op, arg in plan:
        ns = list(sut.nodes(root))
        n = ns[i % len(ns)]
        k = sut.kind(n)
        ch = n.children
        if op in ("loc", "noloc"):
            n.location = fp.SourceLocation(arg, arg + 3) if op == "loc" else None
        elif op == "attr":
            if k == "Expression":
                w = arg % 5
                if w == 0:
                    n.qualifier = [None, "q", "r"][arg // 5 % 3]
                elif w == 1:
                    n.identifier = NAMES[arg // 5 % 7]
                elif w == 2:
                    n.operator = [fp.Operator.EQUALS, fp.Operator.NOT_EQUALS][arg // 5 % 2]
                elif w == 3:
                    n.regex = ["", "e", "a\nb"][arg // 5 % 3]
                else:
                    f = FLAGSETS[arg // 5 % 7]
                    f = f and {sut.FLAGOF[x] for x in f}
                    if f and isinstance(n.regex_flags, set) and arg % 2:
                        n.regex_flags.clear()
                        n.regex_flags.update(f)
                    else:
                        n.regex_flags = f
            elif k in ("QuerySegment", "QueryGroup"):
                if arg % 2:
                    n.min_occurs = [0, 1, 2][arg // 2 % 3]
                else:
                    n.max_occurs = [1, 2, -1][arg // 2 % 3]
            elif k == "SimpleWithin":
                n.scope = list(fp.SimpleWithinScope)[arg % 6]
            else:
                continue
        elif not isinstance(ch, list):
            continue
        elif op == "replace":
            if not ch or sut.kind(ch[arg % len(ch)]) == "SimpleWithin":
                continue
            ch[arg % len(ch)] = c = new(n, arg)
            c.parent = n
        elif k not in LISTS:
            continue
        elif op in ("append", "insert", "fresh"):
            c = new(n, arg)
            if op == "append":
                ch.append(c)
            elif op == "insert":
                ch.insert(arg % (len(ch) + 1), c)
            else:
                n.children = ch = ch[:1] + [c]
            c.parent = n
        elif op in ("drop", "pop0"):
            if len(ch) < 2:
                continue
            ch.pop(-1 if op == "drop" else 0)
        elif op == "swap":
            if len(ch) < 2:
                continue
            ch[0], ch[-1] = ch[-1], ch[0]
        else:
            ch.reverse()
        done += 1
    return done
