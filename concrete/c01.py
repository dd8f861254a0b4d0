"""C01 companion: spans against python string slicing."""
import itertools
from .lib import *
from docria.model import Text, TextSpan, DataValidationError

ALPH = "a b\t"


def gen_small(rng, tier):
    vals = [None, -7, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 9]
    for txt in ["", "a", " b", "abcd", " a b "]:
        for lo in vals:
            for hi in vals:
                yield {"t": txt, "lo": lo, "hi": hi}
    while True:
        n = rng.randrange(0, 30)
        txt = "".join(rng.choice(" ab\t\n\u00e9\U0001F600") for _ in range(n))
        f = lambda: rng.choice([None, rng.randrange(-n - 3, n + 4)])
        yield {"t": txt, "lo": f(), "hi": f()}


def check_span(sp, text, lo, hi):
    expect_eq((sp.start, sp.stop), (lo, hi), "offsets")
    expect(sp.text is text, "span refers to another text")
    expect_eq(str(sp), text.text[lo:hi], "string")
    expect_eq(len(sp), hi - lo, "length")
    expect_eq(list(sp), list(text.text[lo:hi]), "characters")


def run_text(p):
    s, lo, hi = p["t"], p["lo"], p["hi"]
    t = Text("main", s)
    n = len(s)
    a, b, _ = slice(lo, hi).indices(n)
    if b < a:
        raises(DataValidationError, lambda: t[lo:hi], "text[%s:%s]" % (lo, hi))
    else:
        check_span(t[lo:hi], t, a, b)
        check_span(t[lo:hi:1], t, a, b)
    if lo is not None and hi is not None:
        if 0 <= lo <= hi <= n:
            check_span(t[lo, hi], t, lo, hi)
        else:
            raises(DataValidationError, lambda: t[lo, hi], "text[(%s,%s)]" % (lo, hi))
    if lo is not None:
        if -n <= lo < n:
            expect_eq(t[lo], s[lo], "index")
        else:
            raises(IndexError, lambda: t[lo], "index %d" % lo)
    expect_eq(str(t), s, "str(text)")
    expect_eq(len(t), n, "len(text)")
    expect_eq(list(t), list(s), "iter(text)")


def gen_span(rng, tier):
    for txt in ["abcde", "a bc "]:
        for a in range(6):
            for b in range(a, 6):
                for lo in [None, -4, -2, -1, 0, 1, 2, 4, 6]:
                    for hi in [None, -3, -1, 0, 1, 2, 3, 5, 7]:
                        yield {"t": txt, "a": a, "b": b, "lo": lo, "hi": hi}
    while True:
        n = rng.randrange(0, 40)
        a = rng.randrange(0, n + 1)
        b = rng.randrange(a, n + 1)
        f = lambda: rng.choice([None, rng.randrange(-n - 3, n + 4)])
        yield {"t": "".join(rng.choice(" abc\t") for _ in range(n)), "a": a, "b": b, "lo": f(), "hi": f()}


def run_span(p):
    s, a, b, lo, hi = p["t"], p["a"], p["b"], p["lo"], p["hi"]
    t = Text("main", s)
    sp = t[a:b]
    w = s[a:b]
    n = len(w)
    x, y, _ = slice(lo, hi).indices(n)
    if y < x:
        raises(DataValidationError, lambda: sp[lo:hi], "span[%s:%s]" % (lo, hi))
    else:
        check_span(sp[lo:hi], t, a + x, a + y)
        check_span(sp[lo:hi:1], t, a + x, a + y)
    if lo is not None and hi is not None:
        if 0 <= a + lo and lo <= hi and a + hi <= len(s):
            check_span(sp[lo, hi], t, a + lo, a + hi)
        else:
            raises(DataValidationError, lambda: sp[lo, hi], "span[(%s,%s)]" % (lo, hi))
    if lo is not None:
        if -n <= lo < n:
            expect_eq(sp[lo], w[lo], "index")
        else:
            raises(IndexError, lambda: sp[lo], "index %d" % lo)
    check_span(sp, t, a, b)


def gen_two(rng, tier):
    n = 6
    rs = [(a, b) for a in range(n + 1) for b in range(a, n + 1)]
    for r in rs:
        for q in rs:
            yield {"t": " ab c ", "r": r, "q": q}
    while True:
        n = rng.randrange(1, 40)
        a, b, c, d = [rng.randrange(0, n + 1) for _ in range(4)]
        yield {"t": "x" * n, "r": sorted([a, b]), "q": sorted([c, d])}


def run_two(p):
    s, (a, b), (c, d) = p["t"], p["r"], p["q"]
    t = Text("main", s)
    x, y = t[a:b], t[c:d]
    for arg in (y, (c, d)):
        expect_eq(bool(x.covered_by(arg)), c <= a and b <= d, "covered_by")
        expect_eq(bool(x.intersected_by(arg)), a < d and c < b, "intersected_by")
    if a <= d:
        check_span(x.span_to(y), t, a, d)
    else:
        raises(DataValidationError, lambda: x.span_to(y), "span_to")
    expect_eq(x.text_to(y), s[a:d], "text_to")


def gen_trim(rng, tier):
    for n in range(0, 6):
        for tup in itertools.product("a \t", repeat=n):
            s = "".join(tup)
            for a in range(n + 1):
                for b in range(a, n + 1):
                    yield {"t": s, "a": a, "b": b}
    while True:
        n = rng.randrange(0, 30)
        a = rng.randrange(0, n + 1)
        yield {"t": "".join(rng.choice("  a\u00a0\u2003\n\x1c") for _ in range(n)), "a": a, "b": rng.randrange(a, n + 1)}


def run_trim(p):
    s, a, b = p["t"], p["a"], p["b"]
    t = Text("main", s)
    w = s[a:b]
    st = w.strip()
    if st:
        lo = a + (len(w) - len(w.lstrip()))
        hi = lo + len(st)
    else:
        lo = hi = None
    for inplace in (False, True):
        sp = t[a:b]
        other = t[a:b]
        r = sp.trim_() if inplace else sp.trim()
        if inplace:
            expect(r is sp, "trim_ returns the span itself")
        else:
            expect_eq((sp.start, sp.stop), (a, b), "trim changed the receiver")
        expect_eq((other.start, other.stop), (a, b), "trim changed another span")
        if lo is None:
            expect(a <= r.start == r.stop <= b, "trim of blanks is not an empty span inside: %s" % short((r.start, r.stop)))
            expect_eq(str(r), "", "string")
        else:
            check_span(r, t, lo, hi)
    return st != w


FAMILIES = [
    Family("text-subscript", gen_small, run_text, rule="text, bounds"),
    Family("span-subscript", gen_span, run_span, rule="text, span, bounds"),
    Family("two-spans", gen_two, run_two, rule="pairs of spans"),
    Family("trim", gen_trim, run_trim, rule="span with surrounding blanks (strip changes it)"),
]
