"""C15 companion: token alignment against an independent restatement of the rule."""
from .lib import *
from docria.model import Document, TextSpan
from docria.algorithm import sequence_to_textspans


def oracle(toks, text, so, stop, k):
    lo, hi = so, len(text) if stop is None else stop
    raw = text[lo:hi]
    out = []
    pos = i = 0
    while i < len(toks):
        def first(t):
            for p in range(pos, len(raw) - len(t) + 1):
                if raw[p:p + len(t)] == t:
                    return p
            return None
        here = first(toks[i])
        if here is None:
            out.append((pos, pos))
            i += 1
            continue
        best = None
        for j in range(1, k + 1):
            if i + j < len(toks):
                c = first(toks[i + j])
                if c is not None and c < here:
                    best = (j, c)
                    break
        if best is None:
            out.append((here, here + len(toks[i])))
            pos = here + len(toks[i])
            i += 1
        else:
            j, c = best
            out += [(pos, pos)] * j
            out.append((c, c + len(toks[i + j])))
            pos = c + len(toks[i + j])
            i += j + 1
    return [(lo + a, lo + b) for a, b in out]


def gen(rng, tier):
    import itertools
    alpha = ["a", "b", "ab", "ba", ""]
    for text in ("", "a", "ab", "ba b a", "abab"):
        for n in range(0, 4):
            for toks in itertools.product(alpha, repeat=n):
                for k in (0, 1, 2):
                    yield {"text": text, "toks": list(toks), "so": 0, "stop": None, "k": k}
    chars = ["a", "b", "c", " ", "é", "😀"]
    while True:
        n = rng.randrange(0, 30)
        text = "".join(rng.choice(chars[:rng.randrange(2, 7)]) for _ in range(n))
        so = rng.choice([0, rng.randrange(0, n + 1)])
        stop = rng.choice([None, rng.randrange(so, n + 1)])
        m = rng.randrange(0, 9)
        toks = []
        p = so
        for _ in range(m):
            r = rng.random()
            if r < 0.6 and n:
                a = min(n, p + rng.randrange(0, 3))
                b = min(n, a + rng.randrange(0, 4))
                toks.append(text[a:b])
                p = b
            else:
                toks.append("".join(rng.choice(chars) for _ in range(rng.randrange(0, 3))))
        if rng.random() < 0.2:
            rng.shuffle(toks)
        yield {"text": text, "toks": toks, "so": so, "stop": stop, "k": rng.choice([0, 1, 1, 2, 3, 20])}


def run(p):
    doc = Document()
    t = doc.add_text("main", p["text"])
    args = {}
    if p["so"]:
        args["start_offset"] = p["so"]
    if p["stop"] is not None:
        args["stop_offset"] = p["stop"]
    if p["k"] != 1:
        args["k"] = p["k"]
    got = sequence_to_textspans(p["toks"], t, **args)
    expect_eq(len(got), len(p["toks"]), "number of spans for %s" % p)
    last = p["so"]
    for s, tok in zip(got, p["toks"]):
        expect(isinstance(s, TextSpan) and s.text is t, "spans refer to the text")
        expect(last <= s.start <= s.stop <= (len(p["text"]) if p["stop"] is None else p["stop"]), "ordered inside the range: %s", p)
        last = s.stop
        if s.start != s.stop:
            expect_eq(str(s), tok, "string of a span in %s" % p)
    expect_eq([(s.start, s.stop) for s in got], oracle(p["toks"], p["text"], p["so"], p["stop"], p["k"]), "offsets for %s" % p)
    return bool(p["toks"])


FAMILIES = [Family("align", gen, run, 1.0, "all token sequences up to 3 over 5 words on 5 texts, k 0-2; random texts and ranges")]
