"""C20 companion: rendered tables parsed back."""
import re
from html.parser import HTMLParser
from .lib import *
from docria.printout import Table, TableRow, TableCell, TableStyle, options, truncate, get_representation, set_large_screen
from docria.model import Document, DataTypes as T, Node


class Opt:
    def __init__(self, rows=100, width=30, display=120):
        self.v = (rows, width, display)

    def __enter__(self):
        self.old = (options.max_rows, options.max_column_width, options.max_display_width)
        options.max_rows, options.max_column_width, options.max_display_width = self.v

    def __exit__(self, *a):
        options.max_rows, options.max_column_width, options.max_display_width = self.old


def cell_ok(tok, text, width, display):
    lim = width
    low = min(width, display if display is not None else width) if width is not None else None
    if tok == text:
        return lim is None or len(text) <= lim
    if lim is None or len(text) <= low - 5 or "..." not in tok:
        return False
    for m in re.finditer(re.escape("..."), tok):
        p, s = tok[:m.start()].rstrip(" "), tok[m.end():].lstrip(" ")
        if p and s and text.startswith(p) and text.endswith(s) and len(tok) <= lim and len(p) + len(s) < len(text):
            return True
    return False


def word(rng, tag, n):
    s = tag + "".join(rng.choice("abcdefghijklmnopqrstuvwxyz") for _ in range(max(0, n - 2 * len(tag)))) + tag[::-1]
    return s


def make(p):
    r = random.Random(p["seed"])
    nc, nr = p["cols"], p["rows"]
    t = Table(caption=p.get("caption"), hide_index=p["hide_index"], hide_headers=p["hide_header"], **({"style": TableStyle(p["padding"])} if "padding" in p else {}))
    head = [word(r, "h%dh" % c, r.choice(p["lens"])) for c in range(nc)]
    rows = [[word(r, "q%dx%dq" % (k, c), r.choice(p["lens"])) for c in range(nc)] for k in range(nr)]
    t.set_header(*head) if p["seed"] % 2 else t.set_header(TableRow(*head))
    idx = []
    for k, row in enumerate(rows):
        cells = [TableCell(text=x, html="<em>%s</em>" % x) if p["cellobj"] and (k + c) % 3 == 0 else x for c, x in enumerate(row)]
        if p["named"] and k % 2:
            t.add_body(TableRow(*cells, index="i%di" % k))
            idx.append("i%di" % k)
        elif k % 3 == 1:
            t.add_body(TableRow(*cells))
            idx.append(str(k))
        else:
            t.add_body(*cells)
            idx.append(str(k))
    return t, head, rows, idx


def shown(n, maxrows):
    if maxrows is None or n <= maxrows:
        return list(range(n)), False
    h = maxrows // 2
    return list(range(h)) + list(range(n - h, n)), True


def run_text(p):
    with Opt(*p["opt"]):
        t, head, rows, idx = make(p)
        lines = [[x for x in re.split(r"\s{2,}", l.strip()) if x] for l in t.render_text().split("\n")]
    mr, w, d = p["opt"]
    ks, cut = shown(len(rows), mr)
    nc = len(head)
    col_lines = []
    chunks = set()
    for c in range(nc):
        pos = []
        if not p["hide_header"]:
            hit = [(i, j) for i, l in enumerate(lines) for j, tok in enumerate(l) if tok.startswith("h%dh" % c) or tok.startswith(head[c][:1]) and cell_ok(tok.split(" \\")[0], head[c], w, d)]
            hit = [(i, j) for i, j in hit if cell_ok(re.sub(r" ?\\$", "", lines[i][j]), head[c], w, d)]
            expect_eq(len(hit), 1, "header %s in %s" % (head[c], p))
            pos.append(hit[0][0])
            chunks.add(hit[0][0])
        for k in ks:
            hit = [i for i, l in enumerate(lines) for tok in l if cell_ok(tok, rows[k][c], w, d)]
            expect_eq(len(hit), 1, "cell %s (row %d, column %d) of %s" % (rows[k][c], k, c, {a: b for a, b in p.items()}))
            pos.append(hit[0])
            if not p["hide_index"]:
                expect_eq(lines[hit[0]][0], idx[k], "index of row %d" % k)
        expect_eq(pos, sorted(pos), "rows in order in column %d" % c)
        col_lines.append(pos)
    seen = set()
    for c, pos in enumerate(col_lines):
        for q, i in enumerate(pos):
            seen.add(i)
    for k in range(len(rows)):
        if k not in ks:
            for c in range(nc):
                expect(not any(cell_ok(tok, rows[k][c], None, None) for l in lines for tok in l), "row %d is left out", k)
    dots = [i for i, l in enumerate(lines) if l == ["..."]]
    if nc:
        if cut:
            starts = sorted(set(pos[0] for pos in col_lines if pos))
            if starts:
                expect_eq(len(dots), len(starts), "one ellipsis row per block of columns")
            h = (mr // 2)
            off = 0 if p["hide_header"] else 1
            for pos in col_lines:
                if h and len(pos) > off + h:
                    expect_eq(sum(1 for x in dots if pos[off + h - 1] < x < pos[off + h]), 1, "ellipsis between the halves")
        else:
            expect_eq(len(dots), 0, "no ellipsis row")
    if p.get("caption") and nc:
        expect(any(l and cell_ok(" ".join(l), p["caption"], w, d) for l in lines[:2]), "caption")
    return bool(nc and rows)


def gen_text(rng, tier):
    for nc in (1, 2, 3, 7, 20):
        for nr in (0, 1, 2, 5):
            for mr in (None, 1, 2, 3, 4, 5, 100):
                yield {"seed": nc * 100 + nr, "cols": nc, "rows": nr, "lens": [1, 6, 14], "hide_index": False, "hide_header": False, "cellobj": False, "named": False, "opt": [mr, 30, 120]}
    while True:
        w = rng.choice([7, 8, 9, 12, 13, 30, 31, None])
        d = rng.choice([None, 11, 12, 20, 40, 80, 120])
        mr = rng.choice([None, 1, 2, 3, 4, 7, 10, 100])
        lim = min([x for x in (w, d) if x is not None], default=20)
        big = rng.random() < .6
        yield {"seed": rng.randrange(1 << 30), "cols": rng.choice([0, 1, 2, 3, 5, 9]), "rows": rng.choice([0, 1, 2, 3, 4, 5, 8, 11, 12]) if rng.random() < .9 else 110,
               "lens": ([lim - 6, lim - 5, lim - 4, lim, lim + 1, 3 * lim, 5] if big and lim >= 20 else [0]) if rng.random() < .9 else [12],
               "hide_index": rng.random() < .3, "hide_header": rng.random() < .3, "cellobj": rng.random() < .3, "named": rng.random() < .3,
               "opt": [mr, w, d] if big and lim >= 20 else [mr, None, rng.choice([None, 11, 40, 120])] if rng.random() < .0 else [mr, rng.choice([30, 31, None]), rng.choice([None, 40, 80, 120])],
               "caption": rng.choice([None, "Caption", "C" * 50]), "padding": rng.choice([1, 2, 3, 5])}


class P(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.tags, self.rows, self.cell, self.attrs, self.all = [], [], None, [], ""

    def handle_starttag(self, tag, attrs):
        self.tags.append(tag)
        self.attrs.append((tag, dict(attrs)))
        if tag == "tr":
            self.rows.append([])
        if tag in ("td", "th"):
            self.cell = ""

    def handle_endtag(self, tag):
        if tag in ("td", "th") and self.cell is not None:
            self.rows[-1].append(self.cell)
            self.cell = None

    def handle_data(self, data):
        self.all += data
        if self.cell is not None:
            self.cell += data


def parse(s):
    q = P()
    q.feed(s)
    q.close()
    return q


NASTY = ["<script>alert(1)</script>", "a & b", "\"quoted\" 'single'", "</td></tr></table>", "&lt;", "<b", "plain", "urn:wikidata:Q34", "urn:wikidata:Q'><i>", "urn:wikipedia:sv:Sverige",
         "urn:wikipedia:sv:a'b<x>&", "urn:wikipedia:X<y>", "urn:other:zz<u>", "日本語", "x" * 60, "<" * 60, "urn:wikidata:" + "<i>" * 20]


def run_html(p):
    with Opt(*p["opt"]):
        t = Table(caption=p["caption"], hide_headers=False)
        t.set_header(*p["head"])
        for k, row in enumerate(p["body"]):
            t.add_body(TableRow(*row, index=p["names"][k % len(p["names"])]) if p["names"] else TableRow(*row))
        q = parse(t.render_html())
    mr, w, d = p["opt"]
    ks, cut = shown(len(p["body"]), mr)
    bad = set(q.tags) - {"table", "thead", "tbody", "tr", "th", "td", "em", "a"}
    expect(not bad, "markup %s taken from data %s", bad, p)
    rows = q.rows
    if p["caption"] is not None:
        expect_eq(rows[0], [p["caption"]], "caption")
        rows = rows[1:]
    expect_eq(len(rows), 1 + len(ks) + cut, "rows of %s" % p)
    expect_eq(len(rows[0]), len(p["head"]) + 1, "headers")
    expect(all(cell_ok(a, b, w, d) for a, b in zip(rows[0][1:], p["head"])), "headers %s of %s", rows[0], p["head"])
    body = rows[1:]
    if cut:
        x = body.pop(mr // 2)
        expect_eq(len(x), 1, "one ellipsis row")
    for row, k in zip(body, ks):
        expect_eq(len(row), len(p["head"]) + 1, "cells of row %d" % k)
        expect_eq(row[0], p["names"][k % len(p["names"])] if p["names"] else str(k), "index")
        for a, b in zip(row[1:], p["body"][k]):
            expect(cell_ok(a, b, w, d), "cell %s printed as %s", b, a)
    hrefs = [at for tag, at in q.attrs if tag == "a"]
    expect(all(set(h) == {"href"} and h["href"].startswith("https://") for h in hrefs), "links of %s: %s", p["body"], hrefs)
    for tag, at in q.attrs:
        expect(set(at) <= {"href", "colspan", "style"}, "attributes %s", at)
    urls = {h["href"] for h in hrefs}
    flat = [x for k in ks for x in p["body"][k]] + p["head"]
    if "urn:wikidata:Q34" in flat:
        expect("https://www.wikidata.org/wiki/Q34" in urls, "wikidata link")
    if "urn:wikipedia:sv:Sverige" in flat:
        expect("https://sv.wikipedia.org/wiki/Sverige" in urls, "wikipedia link")
    return True


def gen_html(rng, tier):
    for x in NASTY:
        for w in (30, None):
            yield {"caption": x, "head": [x], "body": [[x], [x]], "names": [], "opt": [100, w, 120]}
            yield {"caption": None, "head": ["h"], "body": [[x], [x], [x]], "names": [x], "opt": [2, w, 120]}
    while True:
        c = rng.randrange(1, 5)
        yield {"caption": rng.choice([None] + NASTY), "head": [rng.choice(NASTY) for _ in range(c)], "body": [[rng.choice(NASTY) for _ in range(c)] for _ in range(rng.randrange(0, 9))],
               "names": rng.choice([[], ["<b>n</b>", "a&b"]]), "opt": [rng.choice([None, 1, 2, 3, 4, 100]), rng.choice([None, 12, 30]), rng.choice([None, 40, 120])]}


def run_trunc(p):
    s = word(random.Random(p["n"]), "ab", p["n"])[:p["n"]] if p["n"] >= 4 else "abc"[:p["n"]]
    with Opt(100, p["w"], p["d"]):
        r = truncate(s)
    expect(cell_ok(r, s, p["w"], p["d"]), "truncate %d characters to %s/%s: %s", len(s), p["w"], p["d"], r)
    return True


def gen_trunc(rng, tier):
    for w in list(range(7, 40)) + [None, 200]:
        for d in (None, 11, 12, 20, 39, 120):
            for n in (0, 1, 2, 3, 5, 6, 7, 8, 12, 13, 24, 25, 26, 30, 31, 35, 36, 61, 300):
                yield {"n": n, "w": w, "d": d}


def run_doc(p):
    r = random.Random(p["seed"])
    doc = Document()
    tname = r.choice(["main", "<i>t</i>"])
    doc.add_text(tname, "text <b>bold</b> & more")
    lname = r.choice(["layer", "l<u>x</u>", "100%", "a%db"])
    L = doc.add_layer(lname, a=T.int32, b=T.string, **{"c<d>": T.string, "s": T.span(tname)})
    O = doc.add_layer("other", r=T.noderef(lname), m=T.noderef_many(lname))
    vals = []
    for k in range(p["n"]):
        v = {"a": 1000 + k, "b": r.choice(["v%dv" % k, "<script>%d" % k]), "c<d>": "w%dw" % k}
        if k % 4 == 3:
            del v["c<d>"]
        vals.append(v)
        n = L.add(**v)
        if k % 4 == 3:
            n.pop("c<d>", None)
        if k % 2:
            n["s"] = doc.text[tname][5:8]
    views = {"layer": L, "list": L.to_list(), "query": L[L["a"] >= 0] if p["n"] else None, "span": L[0].iter_to if False else None}
    ks, cut = shown(p["n"], p["opt"][0])
    with Opt(*p["opt"]):
        for name, v in views.items():
            if v is None:
                continue
            q = parse(v._repr_html_())
            bad = set(q.tags) - {"table", "thead", "tbody", "tr", "th", "td", "em", "a"}
            expect(not bad, "markup %s in %s", bad, name)
            rows = q.rows
            heads = rows[1]
            expect_eq(sorted(heads[1:]), sorted(["a", "b", "c<d>", "s"]), "headers of %s" % name)
            body = rows[2:]
            if cut:
                body = [x for x in body if len(x) > 1]
            expect_eq(len(body), len(ks), "rows of %s" % name)
            for row, k in zip(body, ks):
                got = dict(zip(heads[1:], row[1:]))
                want = {"a": repr(vals[k]["a"]), "b": repr(vals[k]["b"])}
                want["c<d>"] = repr(vals[k]["c<d>"]) if "c<d>" in vals[k] else "NIL"
                for f in want:
                    expect(cell_ok(got[f], want[f], p["opt"][1], p["opt"][2]), "field %s of row %d in %s: %s", f, k, name, got[f])
            s = str(v) if name != "list" else v._table_repr_().render_text()
            for k in ks:
                expect(str(1000 + k) in s, "row %d printed in the text of %s", k, name)
        for k in ks[:3]:
            q = parse(L[k]._repr_html_())
            expect("1%03d" % k in q.all or str(1000 + k) in q.all, "node table")
            expect(not set(q.tags) - {"table", "thead", "tbody", "tr", "th", "td", "em", "a"}, "markup in a node table")
        q = parse(doc.text[tname]._repr_html_())
        expect(set(q.tags) <= {"h3", "pre"}, "markup in the text: %s", q.tags)
        expect(str(doc.text[tname]) in q.all, "whole text")
        s = str(doc)
        expect(truncate(lname) in s, "layer named in the document's table")
        if p["n"]:
            q = parse(L["b"]._repr_html_())
            expect(not set(q.tags) - {"table", "thead", "tbody", "tr", "th", "td", "em", "a"}, "markup in a field table")
    return p["n"] > 0


def gen_doc(rng, tier):
    for n in (0, 1, 2, 5, 12):
        for mr in (None, 4, 100):
            yield {"seed": n, "n": n, "opt": [mr, 30, 120]}
    while True:
        yield {"seed": rng.randrange(1 << 30), "n": rng.randrange(0, 14), "opt": [rng.choice([None, 4, 5, 100]), rng.choice([None, 30]), rng.choice([None, 60, 120])]}


FAMILIES = [Family("text tables", gen_text, run_text, 2.0, "up to 20 columns x 12 rows (110 at times), limits, hidden index/header, wrapped columns, cells at the limit"),
            Family("html tables", gen_html, run_html, 1.0, "cells, headers, captions and row names with markup and URNs"),
            Family("truncate", gen_trunc, run_trunc, .5, "lengths around every limit 7..39"),
            Family("documents", gen_doc, run_doc, .7, "tables of layers, lists, queries, nodes, texts and documents")]
