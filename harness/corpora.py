"""Jobs per property: what is run against the real code."""
import copy
import json
import random
import re

from words import SIZES, TYPES, VOCAB, WORDS
from gen import LOOKS, SYNONYMS, spelled_names, spellings, Gen, Spoiler, walk, timestamps, DAY, BLANKS, WEIRD

ALLCARDS = {}


def _doc(g):
    return g.doc()


def minimal(g, cat, t, optional):
    """An element of type t with all or no optional parts."""
    po, g.p_opt = g.p_opt, 1.0 if optional else 0.0
    pm, g.p_mark = g.p_mark, 1.0 if optional else 0.0
    pt, g.p_title = g.p_title, 1.0 if optional else 0.0
    g.budget = 12
    e = g.mark(t) if cat == "mark" else g.element(t, 5)
    g.p_opt, g.p_mark, g.p_title = po, pm, pt
    return e


def every_element(g, schema, per=2):
    """Every type with all, none and random subsets of its optional attributes."""
    for cat in ("node", "mark"):
        for t in sorted(schema[cat]):
            yield cat, minimal(g, cat, t, True)
            yield cat, minimal(g, cat, t, False)
            for _ in range(per):
                g.budget = 15
                yield cat, (g.mark(t) if cat == "mark" else g.element(t, 4))
            k = schema[cat][t]
            # each optional attribute alone, with every awkward value
            if k["attrs"] != "NONE":
                for name in k["aopt"]:
                    e = minimal(g, cat, t, False)
                    e["attrs"] = dict(e.get("attrs") or {}, **{name: g.attr(cat, t, name)})
                    yield cat, e


def every_value(g, schema):
    """Every attribute with every awkward JSON value (parsing does not interpret values)."""
    vals = LOOKS[:24] + [" x ", "X y", "\n", "\u00e9", "e\u0301", "\u00a0", "\x85", "a\r\nb", "DONE", "none", 760.0, -0.0, 1e21, 1e-7, 2 ** 53 + 1] + \
        ["", "x", 0, 1, -1, 10 ** 15, False, True, None, 0.0, 2.5, [], [0, "", None], {}, {"a": {"b": [1, {"c": None}]}}]
    for cat in ("node", "mark"):
        for t in sorted(schema[cat]):
            k = schema[cat][t]
            for name in (k["areq"] + k["aopt"] if k["attrs"] != "NONE" else []):
                for v in vals:
                    e = minimal(g, cat, t, False)
                    e["attrs"] = dict(e.get("attrs") or {}, **{name: copy.deepcopy(v)})
                    yield cat, e
            for name in k["xreq"]:
                for v in vals:
                    e = minimal(g, cat, t, False)
                    e[name] = copy.deepcopy(v)
                    yield cat, e
    for v in vals + [2, "1"]:
        yield "node", {"type": "doc", "version": copy.deepcopy(v), "content": []}


def chain(g, kinds, leaf):
    """leaf wrapped in the containers of kinds, outermost first."""
    e = leaf
    for t in reversed(kinds):
        e = g.element(t, content=[e])
    return e


def deep(g, depth, leaf=None):
    """A deeply nested supported document."""
    r = g.rng
    e = leaf or {"type": "paragraph", "content": [g.element("text", 9)]}
    pairs = [("bulletList", "listItem"), ("orderedList", "listItem"), ("blockquote",), ("panel",), ("expand",),
             ("table", "tableRow", "tableCell"), ("nestedExpand",), ("table", "tableRow", "tableHeader")]
    for _ in range(depth):
        for t in reversed(r.choice(pairs)):
            e = g.element(t, 9, content=[e])
    return {"type": "doc", "version": 1, "content": [e]}


def routes(schema, t):
    """Shortest nestings leading from element type t to t again: lists of types, without the first t."""
    front, seen, out = [[c] for c in schema["child"].get(t, [])], set(), []
    while front and not out:
        out = [p for p in front if p[-1] == t]
        new = []
        for p in front:
            if p[-1] not in seen:
                seen.add(p[-1])
                new += [p + [c] for c in schema["child"].get(p[-1], [])]
        front = new
    return out


def sized_docs(g, schema, roots=None, width=36, times=5):
    """Each container with many children, and nested in itself several times."""
    r = g.rng
    for t in sorted(schema["child"]):
        if t == "codeBlock" or (roots is not None and t not in roots):
            continue
        for kind in ("any", "one", "two"):
            pool = schema["child"][t] if kind == "any" else r.sample(schema["child"][t], min({"one": 1, "two": 2}[kind], len(schema["child"][t])))
            kids = []
            for i in range(width + r.randint(0, 6)):
                g.budget = 2
                kids.append(g.element(r.choice(pool), 8, fail=False))
            yield wrap(g, t, g.element(t, content=kids))
        rs = routes(schema, t)
        for route in r.sample(rs, min(3, len(rs))):
            g.budget = 1
            e = g.element(t, 8)
            for k in range(times):
                for p in reversed([t] + route[:-1]):
                    kids = [e]
                    if r.random() < 0.5:
                        g.budget = 1
                        kids.insert(r.randint(0, 1), g.element(r.choice(schema["child"][p]), 9, fail=False))
                    e = g.element(p, content=kids)
            yield wrap(g, t, e)
        if t in schema["markof"] or "text" in schema["child"][t]:
            h = t if t in schema["markof"] else "text"
            g.budget = 1
            e = g.element(h, 8, fail=False)
            e["marks"] = [g.mark(r.choice(schema["markof"][h])) for _ in range(width)]
            if h == "text":
                e["text"] = g.word()
                e = g.element(t, content=[e])
            yield wrap(g, t, e)


def crowd_docs(g, schema, roots=None, sizes=(300, 1030)):
    """Each container with hundreds of children, all small and no two alike."""
    r = g.rng

    def small(t):
        if t == "text":
            return {"type": "text", "text": g.word()}
        if t == "taskItem":
            return task(g.word(), r.choice(["TODO", "DONE"]))
        e = minimal(g, "node", t, False)
        if t in schema["child"]:
            c = "text" if "text" in schema["child"][t] else "taskItem" if "taskItem" in schema["child"][t] else "paragraph" if "paragraph" in schema["child"][t] else (schema["child"][t] or [None])[0]
            e["content"] = [small(c)] if c else []
        return e
    for t in sorted(schema["child"]):
        if not schema["child"][t] or (roots is not None and t not in roots):
            continue
        for size in sizes:
            pool = r.sample(schema["child"][t], min(r.choice([1, 2]), len(schema["child"][t])))
            if "text" in schema["child"][t]:
                pool = ["text"]
            yield wrap(g, t, g.element(t, content=[small(r.choice(pool)) for _ in range(size + r.randint(0, 20))]))


def long_text(g, size, how):
    """A text of about the given length: words, one word, lines, blank lines, pipes, spaces."""
    r = g.rng
    w = g.word()
    if how == "words":
        out = []
        while sum(map(len, out)) + len(out) < size:
            out.append(g.word())
        return " ".join(out)
    sep = {"one": "", "lines": "\n", "blank": "\n\n", "pipes": "|", "spaces": " ", "indent": "\n    "}[how]
    if how in ("one", "spaces"):
        return w + (sep or "x") * size + r.choice(["", g.word()])
    out = [w]
    while sum(map(len, out)) + len(out) * len(sep) < size:
        out.append(g.word() if r.random() < 0.5 else r.choice(["", "y", " z"]))
    return sep.join(out)


def long_docs(g, schema, roots=None):
    """Long texts, in every place that shows text."""
    r = g.rng
    hosts = [("paragraph", None), ("heading", None), ("codeBlock", None), ("taskItem", None), ("decisionItem", None), ("bulletList", "listItem"), ("orderedList", "listItem"),
             ("table", "tableCell"), ("table", "tableHeader"), ("blockquote", None), ("panel", None), ("expand", None), ("doc", None)]
    for t, inner in hosts:
        for how in ("words", "one", "lines", "blank", "pipes", "spaces", "indent"):
            for size in (r.choice([90, 140, 260]), r.choice([600, 1100])) + ((r.choice([2100, 4200, 9000]),) if r.random() < 0.3 else ()):
                x = {"type": "text", "text": long_text(g, size, how)}
                if "text" not in schema["child"][t]:
                    x = {"type": r.choice(["paragraph", "paragraph", "codeBlock"]), "content": [x]}
                    if inner == "listItem":
                        x = g.element("listItem", content=[x])
                    elif inner:
                        x = row(g.element(inner, content=[x]), g.element("tableCell", content=[para("z")]))
                elif t != "codeBlock" and r.random() < 0.3:
                    x["marks"] = [g.mark(r.choice(["strong", "em", "strike", "underline"]))]
                d = wrap(g, t, g.element(t, content=[x]))
                if roots is None or any(e.get("type") in roots for e, _ in walk(d)):
                    yield d
    for t, name in sorted(Gen.RENDERS):
        if name not in ("text", "shortName", "extensionKey", "extensionType", "alt", "url", "id", "language"):
            continue
        if t in schema["node"] and (roots is None or t in roots):
            for size in (90, 300, 1000):
                e = minimal(g, "node", t, False)
                v = long_text(g, size, "one")
                e.setdefault("attrs", {})[name] = v if name in ("text", "shortName") else v.replace("Zw", "v")
                yield wrap(g, t, e)


def parents(schema, t, loose=True):
    """The element types that elements of type t are put into."""
    inline = t in schema["child"]["paragraph"]
    return [p for p in sorted(schema["child"]) if t in schema["child"][p] or (loose and inline and p in Gen.HOSTS)
            or (loose and t in schema["child"]["doc"] and p in Gen.HOSTS and t != "table")]


def context_docs(g, schema, roots, make=None, part=4, deeper=(3, 5, 8)):
    """Elements of the given types in every context: below every parent and grandparent, next to every sibling, late and deep."""
    r = g.rng

    def small(t):
        g.budget = r.choice([1, 1, 2, 6])
        return g.element(t, 8)
    for t in sorted(roots):
        one = (lambda: make(t)) if make else (lambda: small(t))
        if t == "doc":
            continue
        ps = parents(schema, t)
        for p in ps:
            if p == "codeBlock" and not make:
                yield wrap(g, p, g.element(p, content=[g.code_text() for _ in range(3)]))
                continue
            sibs = sorted(set(schema["child"][p]) | (set(schema["child"]["doc"]) if p in Gen.HOSTS and r.random() < 0.5 and t != "table" else set()))
            r.shuffle(sibs)
            for i in range(0, len(sibs), part):
                kids = [one()] if r.random() < 0.5 else []
                for x in sibs[i:i + part]:
                    kids += [small(x) if p != "codeBlock" else g.code_text(), one()]
                if r.random() < 0.5:
                    kids.pop()
                if r.random() < 0.2:
                    kids.append(copy.deepcopy(r.choice(kids)))
                yield wrap(g, p, g.element(p, content=kids))
            for q in parents(schema, p) if p != "doc" else []:
                kids = [one() for _ in range(r.choice([1, 1, 2]))]
                if r.random() < 0.5 and p != "codeBlock":
                    kids.insert(r.randint(0, len(kids)), small(r.choice(sibs)))
                x = [g.element(p, content=kids)]
                if r.random() < 0.5:
                    x.insert(r.randint(0, 1), small(r.choice(sorted(schema["child"][q]))))
                yield wrap(g, q, g.element(q, content=x))
            if p != "codeBlock":
                kids = [small(r.choice(sibs)) for _ in range(11)] + [one(), small(r.choice(sibs)), one()]
                yield wrap(g, p, g.element(p, content=kids))
        for n in deeper:
            p = r.choice(ps)
            d = wrap(g, p, g.element(p, content=[one()]))["content"] if p != "doc" else [one()]
            if all(x["type"] in schema["child"]["nestedExpand"] for x in d):
                d = [{"type": "nestedExpand", "attrs": {}, "content": d}]
                yield deep(g, n, d[0])


def texts_of(g, value, split=0.3):
    """Text nodes that say value: one, or several."""
    r = g.rng
    cuts = sorted({r.randint(0, len(value)) for _ in range(r.choice([1, 1, 2]))} - {0, len(value)}) if r.random() < split else []
    cuts = [c for c in cuts if not any(m.start() < c < m.end() for m in re.finditer(r"Zw\d+k", value))]
    return [{"type": "text", "text": value[a:b]} for a, b in zip([0] + cuts, cuts + [len(value)])]


def spelled_contexts():
    """name -> (types, a function from lists of text nodes to a document).  Every place that shows text."""
    P = lambda ts: {"type": "paragraph", "content": ts}
    C = lambda ts: {"type": "codeBlock", "attrs": {"language": "x"}, "content": ts}
    T = lambda ts, i: {"type": "taskItem", "attrs": {"localId": "i", "state": ("TODO", "DONE")[i % 2]}, "content": ts}
    H = lambda ts, i: {"type": "heading", "attrs": {"level": i % 6 + 1}, "content": ts}
    D = lambda ts: {"type": "decisionItem", "attrs": {"localId": "i", "state": "DECIDED"}, "content": ts}
    N = lambda tag, kids, **a: dict({"type": tag, "content": kids}, **({"attrs": a} if a else {}))
    TR = lambda kind, f: lambda xs: dd(table(*[row(cell(kind, f(a)), cell("tableCell", *([f(b)] if b is not None else []))) for a, b in zip(xs[::2], xs[1::2] + [None])]))
    L = lambda kind, f: lambda xs: dd(lst(kind, *[item(f(x), *([lst(("bulletList", "orderedList")[i % 2], item(f(x)))] if i % 3 == 0 else [])) for i, x in enumerate(xs)]))
    return {
        "paragraph": ({"paragraph"}, lambda xs: dd(*map(P, xs))),
        "inline": ({"paragraph"}, lambda xs: dd(P([y for x in xs for y in x]))),
        "heading": ({"heading"}, lambda xs: dd(*[H(x, i) for i, x in enumerate(xs)])),
        "code": ({"codeBlock"}, lambda xs: dd(*map(C, xs))),
        "task": ({"taskList", "taskItem"}, lambda xs: dd(N("taskList", [T(x, i) for i, x in enumerate(xs)], localId="l"))),
        "nested task": ({"taskList", "taskItem"}, lambda xs: dd(N("taskList", [T(xs[0], 0), N("taskList", [T(x, i) for i, x in enumerate(xs[1:])], localId="l")], localId="l"))),
        "decision": ({"decisionList", "decisionItem"}, lambda xs: dd(N("decisionList", list(map(D, xs)), localId="l"))),
        "bullet": ({"bulletList", "listItem"}, L("bulletList", P)), "ordered": ({"orderedList", "listItem"}, L("orderedList", P)),
        "bullet code": ({"bulletList", "listItem", "codeBlock"}, L("bulletList", C)), "ordered code": ({"orderedList", "listItem", "codeBlock"}, L("orderedList", C)),
        "bullet task": ({"bulletList", "taskList"}, lambda xs: dd(lst("bulletList", item(N("taskList", [T(x, i) for i, x in enumerate(xs)], localId="l"))))),
        "cell": ({"table", "tableRow", "tableCell"}, TR("tableCell", P)), "header": ({"table", "tableRow", "tableHeader"}, TR("tableHeader", P)),
        "cell code": ({"table", "tableCell", "codeBlock"}, TR("tableCell", C)), "cell heading": ({"table", "tableHeader", "heading"}, TR("tableHeader", lambda x: H(x, 2))),
        "cell list": ({"table", "tableCell"}, TR("tableCell", lambda x: lst("bulletList", item(P(x), lst("orderedList", item(P(x))))))),
        "cell quote": ({"table", "tableCell"}, TR("tableCell", lambda x: N("blockquote", [P(x)]))),
        "quote": ({"blockquote"}, lambda xs: dd(N("blockquote", list(map(P, xs))))), "quote code": ({"blockquote", "codeBlock"}, lambda xs: dd(*[N("blockquote", [C(x)]) for x in xs])),
        "quote quote": ({"blockquote"}, lambda xs: dd(*[N("blockquote", [N("blockquote", [P(x)]), P(x)]) for x in xs])),
        "quote list": ({"blockquote"}, lambda xs: dd(N("blockquote", [lst("orderedList", *[item(P(x)) for x in xs])]))),
        "panel": ({"panel"}, lambda xs: dd(*[N("panel", [P(x)], panelType="tip") for x in xs])), "panel code": ({"panel", "codeBlock"}, lambda xs: dd(N("panel", list(map(C, xs)), panelType="note"))),
        "panel heading": ({"panel", "heading"}, lambda xs: dd(*[N("panel", [H(x, 3), P(x)], panelType="info") for x in xs])),
        "expand": ({"expand"}, lambda xs: dd(*[N("expand", [P(x)]) for x in xs])), "expand code": ({"expand", "codeBlock"}, lambda xs: dd(N("expand", list(map(C, xs))))),
        "nested": ({"nestedExpand"}, lambda xs: dd(N("expand", [{"type": "nestedExpand", "attrs": {}, "content": list(map(P, xs))}]))),
        "doc": ({"doc"}, lambda xs: dd(*[(P(x), H(x, 1), C(x), lst("bulletList", item(P(x))))[i % 4] for i, x in enumerate(xs)])),
    }


def spelled_docs(g, schema, roots=None, share=1.0, per=24, marks=None, vals=None):
    """Every awkward text in every place that shows text."""
    r = g.rng
    for name, (types, make) in sorted(spelled_contexts().items()):
        if roots is not None and not types & set(roots):
            continue
        vs = vals or spellings(g.word)
        vs = r.sample(vs, int(len(vs) * share))
        for i in range(0, len(vs), per):
            d = make([texts_of(g, v) for v in vs[i:i + per]])
            if marks and "code" not in name:
                for e, c in list(walk(d)):
                    if e["type"] == "text":
                        e["marks"] = marks(e)
            yield d


SPELLED = ("panelType", "state", "text", "shortName", "language", "alt", "url", "id", "extensionKey", "extensionType")


def spelled_attrs(g, schema, roots=None, share=1.0, per=16):
    """Every awkward text as the value of every attribute that is shown (and of the states)."""
    r = g.rng
    for t, name in sorted(Gen.RENDERS):
        if t not in schema["node"] or name not in SPELLED or (roots is not None and t not in roots and not (t == "taskItem" and "taskList" in roots)):
            continue
        n = [0]

        def word():
            n[0] += 1
            return "v%dV" % n[0]
        vals = spellings(g.word if name in ("text", "shortName") else word)
        vals = r.sample(vals, int(len(vals) * share))
        if name == "panelType":
            vals = [v for v in vals if (v.isascii() or v.upper() == v) and len(v.splitlines()) < 2 and v.splitlines() == [v]]
        if name == "state":
            vals += ["DONE" + v for v in vals[::7]] + [v + "DONE" for v in vals[::7]] + ["done", "Done", "UNDONE", "NOT_DONE", "DONE "] * 3
        for i in range(0, len(vals), per):
            kids = []
            for v in vals[i:i + per]:
                g.budget = 1
                e = minimal(g, "node", t, t in ("media", "extension", "embedCard") and r.random() < 0.3)
                if t == "emoji" and name == "shortName":
                    e["attrs"].pop("text", None)
                e.setdefault("attrs", {})[name] = v
                if t == "media":
                    e["attrs"]["type"] = "file" if name == "id" or name == "alt" and r.random() < 0.5 else "external"
                    if e["attrs"]["type"] == "file":
                        e["attrs"].setdefault("id", "i")
                    e["attrs"].setdefault("url", "u")
                if t == "panel":
                    e["content"] = [para("x")]
                kids.append(e)
            h = "paragraph" if t in schema["child"]["paragraph"] else PATH.get(t, ["doc"])[-1] if t != "doc" else "doc"
            yield wrap(g, h, g.element(h, content=kids)) if h != "doc" else dd(*kids)


def spelled_links(g, schema, share=1.0, per=16):
    r = g.rng
    for name in ("href", "title"):
        vals = spellings(lambda: g.uniq("v"))
        vals = r.sample(vals, int(len(vals) * share))
        for i in range(0, len(vals), per):
            yield dd({"type": "paragraph", "content": [{"type": "text", "text": g.word(), "marks": [{"type": "link", "attrs": dict({"href": "h"}, **{name: v})}] + r.choice([[], [{"type": "strong"}], [{"type": "em"}]])}
                                                       for v in vals[i:i + per]]})


FIXED = {"timestamp", "level", "order", "version", "state"}     # values of these are left alone


def slots(e):
    """Places in an element that hold a string: (dict, key, name of the place)."""
    out = []
    for x, c in walk(e):
        if c == "node" and isinstance(x.get("text"), str):
            out.append((x, "text", "%s:text" % x["type"]))
        for k, v in (x.get("attrs") or {}).items():
            if isinstance(v, str) and k not in FIXED:
                out.append((x["attrs"], k, "%s.%s" % (x["type"], k)))
    return out


def coincide(v, how, g):
    """A text that is equal to v, part of it, or contains it."""
    n = len(v)
    return {"equal": v, "front": v[:n // 2], "back": v[n // 2:], "longer": v + g.rng.choice(["x", " ", ".", " x"]), "within": "x " + v, "upper": v.upper(), "lower": v.lower(),
            "at": "@" + v, "colons": ":" + v + ":", "quoted": '"%s"' % v, "twice": v + v, "stars": "**%s**" % v, "bare": v.strip("@:* "), "padded": " %s " % v}[how]


HOWS = ["equal"] * 6 + ["front", "back", "longer", "within", "upper", "lower", "at", "colons", "quoted", "twice", "stars", "bare", "padded"]


def coincidences(g, schema, roots=None, times=3):
    """Elements in which two places hold the same text, or one that is part of the other: an attribute and another one, the
    text that it belongs to, a mark's attribute, a child's or a neighbour's text."""
    r = g.rng
    for t in sorted(schema["node"]):
        if t == "doc" or (roots is not None and t not in roots):
            continue
        for _ in range(times):
            kids = []
            for _ in range(2):
                g.budget = r.choice([1, 2, 4, 8])
                po, g.p_opt, pt, g.p_title, pm, g.p_mark = g.p_opt, 0.9, g.p_title, 0.5, g.p_mark, 0.6
                kids.append(g.element(t, 7, fail=False))
                g.p_opt, g.p_title, g.p_mark = po, pt, pm
            h = "paragraph" if t in schema["child"]["paragraph"] else PATH.get(t, ["doc"])[-1]
            sl = slots({"type": h, "content": kids})
            names = sorted({n for _, _, n in sl})
            pairs = [(a, b) for a in names for b in names]
            r.shuffle(pairs)
            pairs.sort(key=lambda p: not (p[0].startswith(t) and p[1].startswith(t)))
            for a, b in pairs[:14]:
                new = copy.deepcopy(kids)
                sl = slots({"type": h, "content": new})
                src = [x for x in sl if x[2] == a and x[0][x[1]].strip()]
                if not src:
                    continue
                s = r.choice(src)
                dst = [x for x in sl if x[2] == b and (x[0] is not s[0] or x[1] != s[1])]
                if not dst:
                    continue
                d = r.choice(dst)
                v = coincide(s[0][s[1]], r.choice(HOWS), g)
                if d[1] == "type" or (d[2] == "panel.panelType" and not (v.isascii() and v.splitlines() == [v])):
                    continue
                if d[2] == "text:text":
                    v = v.replace("\n", " ")
                d[0][d[1]] = v
                for x in new:
                    yield wrap(g, t, x) if r.random() < 0.3 else wrap(g, h, g.element(h, content=new))
                    break


def said(g, w, many=False, word=None):
    """Texts with the word w in them."""
    word = word or g.word
    out = [w + word(), word() + w, w + " " + word(), word() + " " + w + " " + word(), word() + " " + w, w * 2, w.upper(), w.lower(), w.capitalize(), "(%s)" % w, w + ":", " " + w]
    return [w] + (out if many else g.rng.sample(out, 3))


def host_of(schema, t):
    return "paragraph" if t in schema["child"]["paragraph"] else PATH.get(t, ["doc"])[-1]


def word_attrs(g, schema, roots=None, few=10):
    """Elements of the given types with words of the dictionary as values of each of their attributes that hold text, and
    objects with such keys where any value goes."""
    r = g.rng
    for cat in ("node", "mark"):
        for t in sorted(schema[cat]):
            k = schema[cat][t]
            if k["attrs"] == "NONE" or t == "doc" or (roots is not None and t not in roots and not (cat == "mark" and "paragraph" in roots)):
                continue
            for name in k["areq"] + k["aopt"]:
                v = g.attr(cat, t, name)
                if name in ("parameters", "data", "properties"):
                    keys = WORDS.some(r, 6) + r.sample(SYNONYMS, 12)
                    vals = [{x: r.choice(["v", "https://h/v", {"value": "v"}, ["v"], True, 7, {"url": "u", "name": "n"}])} for x in keys] + [{"url": "https://h/u", "name": "n", "@type": "Document", "@id": "i"}]
                    vals += [{"macroParams": {x: {"value": "v"}}} for x in keys[:6]]
                elif isinstance(v, str) and name not in FIXED and (name != "type" or t == "media"):
                    vals = list(VOCAB.get((t, name)) or VOCAB.get(name) or [])
                    new = [x for w in WORDS.new[:60] for x in said(g, w, word=lambda: g.uniq("w"))]
                    vals = vals + (new if len(new) < 240 else r.sample(new, 240)) + r.sample(WORDS.old, min(few, len(WORDS.old)))
                    if name == "panelType":
                        vals = [x for x in vals if x.isascii() and x.splitlines() == [x]]
                    if t == "media" and name == "type":
                        vals = [x for x in vals if x != "external"]
                elif name == "isNumberColumnEnabled":
                    vals = [True, False]
                else:
                    continue
                kids = []
                for i, v in enumerate(vals):
                    g.budget = 1
                    if cat == "mark":
                        m = g.mark(t)
                        m.setdefault("attrs", {})[name] = v
                        h = [x for x in sorted(schema["markof"]) if t in schema["markof"][x]] or ["text"]
                        e = g.element(r.choice(h), 8, fail=False)
                        e["marks"] = [m] + ([g.mark(r.choice(["em", "strong", "underline"]))] if e["type"] == "text" and r.random() < 0.3 else [])
                    else:
                        po, g.p_opt = g.p_opt, r.choice([0.0, 0.4, 0.9])
                        e = g.element(t, 8, fail=False) if name != "data" or r.random() < 0.6 else g.element(t, 8, fail=True)
                        g.p_opt = po
                        e.setdefault("attrs", {})[name] = v
                        if "content" in e and not e["content"] and schema["child"].get(t) and r.random() < 0.7:
                            e["content"] = [g.element(r.choice(schema["child"][t]), 8, fail=False)]
                        if t == "emoji" and name == "shortName" and r.random() < 0.7:
                            e["attrs"].pop("text", None)
                        if t == "media" and name in ("id", "url"):
                            e["attrs"]["type"] = {"id": "file", "url": "external"}[name]
                    kids.append(e)
                for i in range(0, len(kids), 12):
                    h = host_of(schema, kids[i]["type"])
                    yield dd(*kids[i:i + 12]) if h == "doc" else wrap(g, h, g.element(h, content=kids[i:i + 12]))


def word_docs(g, schema, roots=None, few=10, texts=3):
    """Words of the dictionary in all places that show text, and as values of attributes."""
    r = g.rng
    vals = [x for w in WORDS.some(r, few) for x in said(g, w)]
    if vals:
        for d in spelled_docs(g, schema, roots, min(1.0, 400 / len(vals)), vals=vals):
            yield d
    for d in word_attrs(g, schema, roots, few):
        yield d


def measured_docs(g, schema, roots=None):
    """Containers, texts, attributes, marks and nestings of given sizes: some fixed ones, and those around numbers of the dictionary."""
    r = g.rng
    sizes = [(n, True) for n in WORDS.sizes[:8]] + [(n, False) for n in SIZES]
    for n, new in sizes:
        for t in sorted(schema["child"]):
            if (roots is not None and t not in roots) or (not new and r.random() < 0.6):
                continue
            if new and len(WORDS.sizes) > 3 and r.random() > 3 / min(8, len(WORDS.sizes)):      # there are many: some for each type
                continue
            for k in ((n - 1, n, n + 1, n + 3) if new else (n,)):
                if 0 < k <= 420 and (k <= 150 or r.random() < 0.3):
                    kids = []
                    one = r.choice(schema["child"][t]) if r.random() < 0.5 else None
                    for i in range(k):
                        g.budget = 0
                        kids.append(g.code_text() if t == "codeBlock" else g.element(one or r.choice(schema["child"][t]), 9, fail=False))
                    yield wrap(g, t, g.element(t, content=kids))
                if new and k <= 40 and (t in schema["child"][t] or routes(schema, t)):
                    yield wrap(g, t, nested(g, schema, t, k))
            if "text" in schema["child"][t]:
                for k in ((n, n + 1) if new else (n,)):
                    x = g.word() + " " + "".join(r.choice("abc de") for _ in range(k))
                    yield wrap(g, t, g.element(t, content=[{"type": "text", "text": x[:k]}]))
                    if t != "codeBlock" and k <= 60:
                        yield wrap(g, t, g.element(t, content=[{"type": "text", "text": "x", "marks": [g.mark(r.choice(["strong", "em", "strike", "underline", "link"])) for _ in range(k)]}]))
        if new:
            for t in sorted(schema["node"]):
                kk = schema["node"][t]
                for name in kk["areq"] + kk["aopt"] if kk["attrs"] != "NONE" and (roots is None or t in roots) else []:
                    v = g.attr("node", t, name)
                    if isinstance(v, str) and name not in FIXED and name not in ("type", "panelType"):
                        e = g.element(t, 9, fail=False)
                        e.setdefault("attrs", {})[name] = ("v" * (n + 1))[:n + r.randint(0, 1)]
                        h = host_of(schema, t)
                        yield dd(e) if h == "doc" else wrap(g, h, g.element(h, content=[e]))
                    if t == "orderedList" and name == "order":
                        for k in (n - 1, n, n + 1):
                            yield dd(lst("orderedList", item(para("a")), item(para("b"), lst("bulletList", item(para("c")))), order=k))


def nested(g, schema, t, k):
    """An element of type t with k more of its type around it, which have something else inside, too."""
    r = g.rng
    full = {"paragraph": lambda: para(g.word()), "text": lambda: {"type": "text", "text": g.word()}, "taskItem": lambda: task(g.word())}

    def with_kids(p, e):
        kids = [e] if e else []
        for c in sorted(set(schema["child"][p]) & set(full)):
            if r.random() < 0.8:
                kids.insert(r.choice([0, 0, len(kids)]), full[c]())
        return g.element(p, content=kids)
    route = r.choice(routes(schema, t) or [[t]])
    e = None
    for _ in range(k + 1):
        for p in reversed([t] + route[:-1]):
            e = with_kids(p, e)
    return e


def nested_docs(g, schema, roots=None):
    r = g.rng
    for t in sorted(schema["child"]):
        if (roots is None or t in roots) and (t in schema["child"][t] or routes(schema, t)):
            most = 104 // len((routes(schema, t) or [[t]])[0])       # what TLC can read
            few = (r.choice([4, 5, 6, 7, 8]), r.choice([9, 10, 11, 12]), r.choice([13, 16, 20]), r.choice([26, 33]), r.randint(34, 104))
            for k in few + (most,) if roots else (r.choice([5, 7, 9, 11]), r.choice([13, 16, 20, 26, 33]), most - r.randint(0, 2)):
                yield wrap(g, t, nested(g, schema, t, min(k, most)))


def edge_docs(g, schema, roots=None):
    """Empty elements of every kind in front of, behind, and between others, one and several of them."""
    r = g.rng
    for p in sorted(schema["child"]):
        if (roots is not None and p not in roots) or p == "codeBlock":
            continue
        for c in schema["child"][p]:
            if c == "text":
                empties = [{"type": "text", "text": x} for x in ("", " ", "\n")]
            else:
                e = minimal(g, "node", c, False)
                if schema["node"][c]["content"] == "NONE":
                    empties = [e]
                else:
                    empties = [dict(e, content=[])]
                    if schema["node"][c]["content"] == "OPT":
                        e.pop("content", None)
                        empties.append(e)
                    if "text" in schema["child"].get(c, []) and c != "codeBlock":
                        empties.append(dict(empties[0], content=[{"type": "text", "text": " "}]))
            for pat in ("FE", "FEE", "FEEE", "EF", "EEF", "E", "EE", "FEF", "FEEF"):
                if r.random() < 0.5 and pat not in ("FEE", "EEF"):
                    continue
                kids = []
                g.budget = 6
                for ch in pat:
                    kids.append(copy.deepcopy(r.choice(empties)) if ch == "E" else g.element(r.choice(schema["child"][p]), 8, fail=False))
                yield wrap(g, p, g.element(p, content=kids))


def all_child_pairs(g, schema):
    """Every parent/child pair of the nesting table, the child at first, middle and last place."""
    for p in sorted(schema["child"]):
        for c in schema["child"][p]:
            for n in (1, 3):
                kids = []
                g.budget = 10
                for i in range(n):
                    kids.append(g.element(c if i != 1 else g.rng.choice(schema["child"][p]), 7))
                if p == "codeBlock":
                    kids = [g.code_text() for _ in range(n)]
                yield wrap(g, p, g.element(p, content=kids))


PARTS = ("listItem", "taskItem", "decisionItem", "tableRow")
PATH = {"doc": [], "listItem": ["bulletList"], "taskItem": ["taskList"], "decisionItem": ["decisionList"], "caption": ["mediaSingle"],
        "media": ["mediaSingle"], "tableRow": ["table"], "tableCell": ["table", "tableRow"], "tableHeader": ["table", "tableRow"],
        "nestedExpand": ["expand"], "text": ["paragraph"]}


def wrap(g, t, e):
    """A document holding element e of type t."""
    if t == "doc":
        return e
    if t in ("hardBreak", "emoji", "date", "mention", "status", "inlineCard", "mediaInline", "text"):
        path = ["paragraph"]
    else:
        path = PATH.get(t, [])
    for p in reversed(path):
        e = g.element(p, content=[e])
    return {"type": "doc", "version": 1, "content": [e]}


# ---------------------------------------------------------------- parsing -----
def parse_docs(seed, schema, n, **opt):
    g = Gen(seed, schema, **dict(dict(p_anyval=0.3, p_opt=0.5, p_lb=0.05, p_loose=0.1, loose="any"), **opt))
    for cat, e in every_element(g, schema):
        yield cat, e
    for d in all_child_pairs(g, schema):
        yield "node", d
    for i in range(n):
        g.p_opt = g.rng.choice([0.1, 0.5, 0.9])
        g.maxdepth = g.rng.choice([3, 5, 8, 12])
        g.budget0 = g.rng.choice([6, 15, 40, 80])
        d = g.doc()
        if i % 5 == 0:
            d = alike(twice(d, g.rng), g.rng.choice([1, 2]))
        yield "node", d
    for depth in (5, 20, 40):
        yield "node", deep(g, depth)
    for d in sized_docs(g, schema):
        yield "node", d
    for d in long_docs(g, schema):
        yield "node", d
    for d in context_docs(g, schema, schema["node"]):
        yield "node", d
    for d in list(spelled_docs(g, schema, None, 0.05)) + list(spelled_attrs(g, schema, None, 0.05)) + list(edge_docs(g, schema)) + list(coincidences(g, schema, None, 1)) + list(measured_docs(g, schema)) + list(nested_docs(g, schema)):
        yield "node", d
    for d in word_attrs(g, schema, None, 3):
        yield "node", d
    g.maxkids = 60
    g.budget0 = 150
    yield "node", g.doc(content=[g.element("paragraph", 7, content=[g.element("text", 9) for _ in range(120)])])
    yield "node", g.doc(content=[g.element("paragraph", 7) for _ in range(60)])


def with_ignored(g, schema, many=2):
    """Elements that have no content or no marks, with such a field: (category, with the field, without it, alone or in a document)."""
    sp = Spoiler(g)
    for cat in ("node", "mark"):
        for t in sorted(schema[cat]):
            for name in ("content", "marks"):
                if schema[cat][t][name] != "NONE":
                    continue
                vals = [[{"x": 1}], [5], [sp.unsupported("node" if name == "content" else "mark")],
                        [{"type": "heading"}] if name == "content" else [{"type": "link"}]] + [sp.ignored(name) for _ in range(many)]
                for v in vals:
                    e = minimal(g, cat, t, g.rng.random() < 0.5)
                    x = dict(e, **{name: v})
                    yield cat, x, e
                    hosts = [h for h in sorted(schema["child" if cat == "node" else "markof"])
                             if t in schema["child" if cat == "node" else "markof"][h] and h != "codeBlock"]
                    if hosts and g.rng.random() < 0.6:
                        h = g.rng.choice(hosts)
                        g.budget = 1
                        if cat == "node":
                            yield "node", wrap(g, h, g.element(h, content=[copy.deepcopy(x)])), None
                        else:
                            y = g.element(h, 8)
                            y["marks"] = [copy.deepcopy(x)]
                            yield "node", wrap(g, h, y), None


def jobs_C01(seed, schema, tier):
    n = 500 if tier == "quick" else 3000
    out = [{"raw": e, "cat": c, "how": ("fn", "cls")[i % 2]} for i, (c, e) in enumerate(parse_docs(seed, schema, n))]
    g = Gen(seed + 1, schema)
    out += [{"raw": e, "cat": c} for c, e in every_value(g, schema)]
    out += [{"raw": x, "cat": c} for c, x, _ in with_ignored(g, schema, 1)]
    sp = Spoiler(g)
    for i in range(n // 2):
        out.append({"raw": sp.insert_unsupported(sp.insert_unknown(g.doc()), g.rng.randint(0, 3)), "cat": "node"})
    return out


def prune(raw, schema, cat="node"):
    """Remove unsupported elements (the specification checks that this is Prune)."""
    out = dict(raw)
    for key, c in (("content", "node"), ("marks", "mark")):
        if isinstance(raw.get(key), list):
            out[key] = [prune(x, schema, c) for x in raw[key]
                        if not (isinstance(x, dict) and "type" in x and x["type"] not in schema[c])]
    return out


def every_skip_position(g, schema):
    """For each container type and mark holder: unsupported at each position of small lists, alone and in runs."""
    sp = Spoiler(g)
    patterns = ["U", "US", "SU", "USU", "SUS", "UUS", "SUU", "UU", "SUUS", "USUSU"]
    for p in sorted(schema["child"]):
        for pat in patterns:
            kids = []
            g.budget = 8
            for ch in pat:
                kids.append(sp.unsupported("node") if ch == "U" else g.element(g.rng.choice(schema["child"][p]), 8))
            yield wrap(g, p, g.element(p, content=kids))
    for h in sorted(schema["markof"]):
        for pat in patterns:
            e = g.element(h, 8)
            e["marks"] = [sp.unsupported("mark") if ch == "U" else g.mark(g.rng.choice(schema["markof"][h])) for ch in pat]
            yield wrap(g, h, e)


def skip_docs(seed, schema, n):
    g = Gen(seed, schema, budget=25, p_anyval=0.1, p_loose=0.1, loose="any")
    sp = Spoiler(g)
    for d in every_skip_position(g, schema):
        yield d
    words = list(dict.fromkeys(TYPES + WORDS.new + ["n" * k for n in WORDS.sizes[:8] for k in (n - 1, n, n + 1, n + 20)] + WORDS.old))
    for u in words:         # types of the dictionary, as marks and as nodes among others of the same kind
        if u not in schema["mark"]:
            yield dd({"type": "paragraph", "content": [{"type": "text", "text": g.word(), "marks": [{"type": u}, {"type": g.rng.choice(["em", "strong"])}, {"type": u, "attrs": {"x": u}}]}]})
        if u not in schema["node"]:
            h = g.rng.choice(["doc", "paragraph", "tableCell", "listItem", "blockquote", "panel", "tableRow", "table", "bulletList", "mediaGroup", "taskList"])
            ok = g.rng.choice(schema["child"][h])
            yield wrap(g, h, g.element(h, content=[{"type": u}, g.element(ok, 8), {"type": u, "text": g.word(), "attrs": {"title": g.word()}, "content": [{"type": "text", "text": g.word()}], "marks": []}]))
    for u in schema["unsupported"]:
        for h in ("doc", "paragraph", "tableCell", "listItem"):
            e = {"type": u, "content": [{"type": "paragraph", "content": []}]}
            yield wrap(g, h, g.element(h, content=[g.element("text" if h == "paragraph" else "paragraph", 8), e,
                                                   g.element("text" if h == "paragraph" else "paragraph", 8)]))
    for i in range(n):
        d = g.doc()
        yield sp.insert_unsupported(d, g.rng.choice([1, 1, 2, 3, 6, 10]))
    for d in list(sized_docs(g, schema)):
        yield sp.insert_unsupported(d, g.rng.choice([1, 5, 40]))
    for d in list(context_docs(g, schema, schema["node"])):
        yield sp.insert_unsupported(d, g.rng.choice([1, 3, 10]))
    for depth in (6, 20):
        yield sp.insert_unsupported(deep(g, depth), g.rng.choice([5, 20]))


def jobs_C02(seed, schema, tier):
    n = 500 if tier == "quick" else 4000
    return [{"raw": d, "raw2": prune(d, schema), "cat": "node"} for d in skip_docs(seed, schema, n)]


def jobs_C03(seed, schema, tier):
    n = 500 if tier == "quick" else 3000
    rng = random.Random(seed)
    out = []
    for d in skip_docs(seed, schema, n):
        out.append({"raw": d, "cat": "node", "offFirst": rng.random() < 0.5,
                    "before": [rng.random() < 0.5 for _ in range(rng.randint(0, 3))], "how": rng.choice(["fn", "cls"])})
    g = Gen(seed + 5, schema)
    sp = Spoiler(g)

    def broken():            # a document that skips elements and then cannot be parsed
        while True:
            d = g.doc()
            if sp.defects(d):
                sp.spoil(rng.choice(sp.defects(d)))
                return sp.insert_unsupported(d, rng.randint(1, 5))
    for j in rng.sample(out, len(out) // 2):
        j["prior"] = [broken() if rng.random() < 0.8 else g.doc() for _ in range(rng.randint(1, 2))]
    for i in range(80):      # fully supported: silence
        out.append({"raw": g.doc(), "cat": "node", "offFirst": bool(i % 2), "before": [], "prior": [broken() for _ in range(i % 3)]})
    for i, (c, x, _) in enumerate(with_ignored(g, schema)):      # nothing is skipped in a field that is ignored
        out.append({"raw": x, "cat": c, "offFirst": bool(i % 2), "before": []})
    return out


def jobs_C04(seed, schema, tier):
    n = 20 if tier == "quick" else 200
    g = Gen(seed, schema, budget=15, p_loose=0.1, loose="any")
    sp = Spoiler(g)
    out = []
    # every class, every required thing, alone and nested at several places
    for cat in ("node", "mark"):
        for t in sorted(schema[cat]):
            e0 = minimal(g, cat, t, True)
            for i in range(len(sp.defects(e0, cat))):
                e = copy.deepcopy(e0)
                dfs = sp.defects(e, cat)
                if dfs[i][0] is not e:
                    continue
                sp.spoil(dfs[i])
                out.append({"raw": e, "cat": cat, "how": ("fn", "cls")[i % 2] if "type" in e else "fn"})
                if "type" in e:
                    out.append({"raw": e, "cat": cat, "how": "ctor"})
                # inside a document, among good siblings
                if cat == "mark":
                    h = [x for x in sorted(schema["markof"]) if t in schema["markof"][x]]
                    for hh in (h or ["text"])[:2]:
                        x = g.element(hh, 8)
                        x["marks"] = [g.mark(g.rng.choice(schema["markof"][hh])), copy.deepcopy(e)]
                        if g.rng.random() < 0.5:
                            x["marks"].reverse()
                        out.append({"raw": wrap(g, hh, x), "cat": "node"})
                else:
                    ps = [p for p in sorted(schema["child"]) if t in schema["child"][p]]
                    for p in (ps if len(ps) < 4 else g.rng.sample(ps, 3)):
                        g.budget = 8
                        kids = [g.element(g.rng.choice(schema["child"][p]), 8) for _ in range(2)]
                        kids.insert(g.rng.randint(0, 2), copy.deepcopy(e))
                        out.append({"raw": wrap(g, p, g.element(p, content=kids)), "cat": "node"})
    # unsupported types asked for directly
    from gen import UNKNOWN_TYPES
    for cat, other in (("node", "mark"), ("mark", "node")):
        for t in sorted((set(schema["unsupported"]) | set(UNKNOWN_TYPES) | set(TYPES) | set(WORDS.new) | set(WORDS.old) | set(schema[other])) - set(schema[cat])):
            out.append({"raw": {"type": t, "attrs": {"x": 1}, "content": [{"notype": 1}]}, "cat": cat})
    # no defect in a field that is ignored
    for i, (c, x, _) in enumerate(with_ignored(g, schema)):
        out.append({"raw": x, "cat": c, "how": ("fn", "cls")[i % 2]})
    # random documents with one defect, and the same documents without
    sized = list(sized_docs(g, schema, width=14, times=3)) + list(context_docs(g, schema, schema["node"]))
    for i in range(n * 4 + len(sized)):
        d = g.doc() if i < n * 4 else sized[i - n * 4]
        sp.insert_unsupported(d, g.rng.choice([0, 0, 1, 3]))
        out.append({"raw": copy.deepcopy(d), "cat": "node"})
        dfs = sp.defects(d)
        for k in g.rng.sample(range(len(dfs)), min(3, len(dfs))):
            e = copy.deepcopy(d)
            sp.spoil(sp.defects(e)[k])
            out.append({"raw": e, "cat": "node"})
    return out


def jobs_C05(seed, schema, tier):
    n = 500 if tier == "quick" else 4000
    g = Gen(seed, schema, budget=20, p_loose=0.1)
    sp = Spoiler(g)
    r = g.rng
    out = []
    for cat, e in every_element(g, schema, per=3):
        d = sp.insert_unknown(copy.deepcopy(e)) if cat == "node" else _mark_unknown(sp, copy.deepcopy(e))
        out.append({"raw": d, "raw2": e, "cat": cat})
    for c, x, e in with_ignored(g, schema, 4):
        if e is not None:
            out.append({"raw": x, "raw2": e, "cat": c})
    for cat in ("node", "mark"):        # names much like those that could be there
        for t in sorted(schema[cat]):
            k = schema[cat][t]
            e = minimal(g, cat, t, False)
            if k["attrs"] != "NONE":
                e.setdefault("attrs", {})
            for d, absent in ((lambda y: y, [x for x, c in (("attrs", k["attrs"]), ("content", k["content"]), ("marks", k["marks"])) if c == "OPT" and x not in e] + ["type", "content", "marks", "attrs", "text"]),
                              (lambda y: y["attrs"], [x for x in k["aopt"] if x not in e.get("attrs", {})] + k["areq"] if "attrs" in e else [])):
                for i in range(7 if absent else 0):
                    names = [r.choice(spelled_names(x)) for x in absent if r.random() < 0.7] + r.sample(SYNONYMS, 5)
                    names = [x for x in dict.fromkeys(names) if x not in ("type", "attrs", "content", "marks", "version") + tuple(k["xreq"] + k["areq"] + k["aopt"])]
                    if names:
                        y = copy.deepcopy(e)
                        for x in names:
                            d(y)[x] = r.choice(["q", "q", 1, True, ["q"], {"q": 1}, [{"type": "text", "text": "q"}], [{"type": "em"}], None])
                        out.append({"raw": y, "raw2": e, "cat": cat})
    for cat in ("node", "mark"):        # words of the dictionary as names, on each type
        for t in sorted(schema[cat]):
            k = schema[cat][t]
            known = set(("type", "attrs", "content", "marks", "version", "text") + tuple(k["xreq"] + k["areq"] + k["aopt"]))
            words = [w for w in WORDS.new + r.sample(WORDS.old, min(12, len(WORDS.old))) + r.sample(TYPES, 4) if w not in known]
            e = minimal(g, cat, t, False)
            for i in range(0, len(words), 12):
                y, z = copy.deepcopy(e), copy.deepcopy(e)
                for w in words[i:i + 12]:
                    y[w] = r.choice(["q", 1, True, ["q"], {"q": 1}, [{"type": "text", "text": "q"}], None])
                    if k["attrs"] != "NONE":
                        z.setdefault("attrs", {})[w] = r.choice(["q", 1, True, ["q"], {"q": 1}, None])
                out.append({"raw": y, "raw2": e, "cat": cat})
                if "attrs" in e and z != e:
                    out.append({"raw": z, "raw2": e, "cat": cat})
    for d in [g.doc() for _ in range(n)] + list(sized_docs(g, schema, width=20, times=3)) + list(context_docs(g, schema, schema["node"])):
        out.append({"raw": sp.insert_unknown(copy.deepcopy(d)), "raw2": d, "cat": "node"})
    return out


def _mark_unknown(sp, e):
    t = {"type": "text", "text": "x", "marks": [e]}
    return sp.insert_unknown(t)["marks"][0]


def jobs_C06(seed, schema, tier):
    n = 500 if tier == "quick" else 3000
    out = [{"raw": e, "cat": c} for c, e in parse_docs(seed, schema, n)]
    g = Gen(seed + 1, schema, p_anyval=0.2)
    out += [{"raw": e, "cat": c} for c, e in every_value(g, schema)]
    out += [{"raw": x, "cat": c} for c, x, _ in with_ignored(g, schema, 1)]
    sp = Spoiler(g)
    for i in range(n // 2):
        out.append({"raw": sp.insert_unsupported(sp.insert_unknown(g.doc()), g.rng.randint(0, 3)), "cat": "node"})
    return out


def jobs_C07(seed, schema, tier):
    return jobs_C06(seed + 7, schema, tier)


# -------------------------------------------------------------- rendering -----
RENDER = dict(p_opt=0.5, p_anyval=0.0, p_loose=0.1)


def alike(raw, k=2):
    """The document with its words taken from an alphabet of k words only: many equal texts, and equal blocks."""
    return json.loads(re.sub(r"Zw(\d+)k", lambda m: "Zw%dk" % (int(m.group(1)) % k), json.dumps(raw)))


def twice(raw, rng):
    """The document with some of its children doubled in place."""
    most = 300      # nothing more than this is added
    for e, cat in list(walk(raw)):
        c = e.get("content")
        if most > 0 and cat == "node" and isinstance(c, list) and c and e.get("type") != "mediaSingle" and rng.random() < 0.4:
            i = rng.randrange(len(c))
            c.insert(i, copy.deepcopy(c[i]))
            most -= sum(1 for _ in walk(c[i]))
    return raw


def render_docs(seed, schema, n, roots=None, **opt):
    """Documents for rendering: all parent/child pairs, then random ones rich in the given types,
    some of them with few different words or doubled parts."""
    rng = random.Random(seed + 5)
    for d in render_docs1(seed, schema, n, roots, **opt):
        x = rng.random()
        if x < 0.1:
            d = alike(d, rng.choice([1, 2, 3]))
        elif x < 0.2:
            d = twice(d, rng)
        yield d


def render_docs1(seed, schema, n, roots=None, share=0.5, plain=False, **opt):
    g = Gen(seed, schema, **dict(RENDER, **opt))
    for d in all_child_pairs(g, schema):
        if roots is None or any(e.get("type") in roots for e, _ in walk(d)):
            yield d
    parts = roots and set(roots) | {x for t in roots for x in schema["child"].get(t, []) if x in PARTS}
    parts = parts and parts | ({"tableCell", "tableHeader"} if "tableRow" in parts else set())
    for d in sized_docs(g, schema, parts):
        yield d
    for d in long_docs(g, schema, roots):
        yield d
    for d in crowd_docs(g, schema, parts, (300, 1030) if roots else (300,)):
        yield d
    for i in range(3 if roots else 1):
        for d in context_docs(g, schema, parts or schema["node"]):
            yield d
    for d in spelled_docs(g, schema, roots, share if roots else share / 4):
        yield d
    for d in spelled_attrs(g, schema, roots, share if roots else share / 4):
        yield d
    for d in edge_docs(g, schema, roots):
        yield d
    if not plain:
        for d in coincidences(g, schema, roots, 3 if roots else 1):
            yield d
    for d in word_docs(g, schema, roots, 10 if roots else 2):
        yield d
    for d in list(measured_docs(g, schema, roots)) + list(nested_docs(g, schema, roots)):
        yield d
    for depth in (4, 8, 12, 4, 8, 12):
        d = deep(g, depth)
        if roots is None or any(e.get("type") in roots for e, _ in walk(d)):
            yield d
    for i in range(n):
        g.p_opt = g.rng.choice([0.2, 0.5, 0.9])
        g.maxdepth = g.rng.choice([3, 5, 7])
        g.maxkids = g.rng.choice([1, 2, 3, 5])
        g.budget0 = g.rng.choice([8, 16, 30])
        g.p_empty = g.rng.choice([0.02, 0.1, 0.4])
        g.loose = g.rng.choice(["blocks", "blocks", "inline"])
        if roots:
            t = g.rng.choice(sorted(roots))
            g.budget = g.budget0
            yield wrap(g, t, g.element(t, 1))
        else:
            yield g.doc()


def _render_jobs(docs, **kw):
    return [dict({"raw": d}, **kw) for d in docs]


def jobs_C10(seed, schema, tier):
    n = 500 if tier == "quick" else 5000
    out = _render_jobs(render_docs(seed, schema, n, p_blank=0.05, p_lb=0.03, plain=True), words=True)
    g = Gen(seed + 3, schema, **RENDER)
    for depth in (4, 8, 14):
        for _ in range(3):
            out.append({"raw": deep(g, depth), "words": True})
    g.budget0 = 250
    g.maxkids = 12
    for _ in range(4):
        out.append({"raw": g.doc(), "words": True})
    rng = random.Random(seed + 4)
    for j in list(out):
        if rng.random() < 0.2:
            out.append({"raw": alike(twice(copy.deepcopy(j["raw"]), rng), rng.choice([1, 2])), "words": True})
    return out


def jobs_C11(seed, schema, tier):
    n = 500 if tier == "quick" else 5000
    g = Gen(seed, schema, **RENDER)
    r = g.rng
    out = []
    inline = [m for m in schema["markof"]["text"]]
    texts = ["abc", " abc ", "a b", "", " ", "\t\u00a0", "\n", "a*b_c", "`x`", "[l](u)", "a|b", "\u3000", "~~", "**"]
    texts += [x for x in BLANKS + WEIRD if x not in texts]

    def p(*kids, **kw):
        return {"type": "doc", "version": 1, "content": [dict({"type": "paragraph", "content": list(kids)}, **kw)]}
    for m in inline:                                   # every mark on every awkward text
        kids = []
        for t in texts:
            if m == "code" and "\n" in t:
                continue
            kids.append({"type": "text", "text": t, "marks": [g.mark(m)]})
        out.append({"raw": p(*kids)})
    core = ["strong", "em", "strike", "code", "link", "underline", "textColor"]
    for a in core:                                     # ordered pairs and triples
        kids = []
        for b in core:
            if a != b:
                kids.append({"type": "text", "text": g.text(False), "marks": [g.mark(a), g.mark(b)]})
        out.append({"raw": p(*kids)})
        for b in core:
            if a == b:
                continue
            out.append({"raw": p(*[{"type": "text", "text": r.choice(["x", g.text(False), " "]),
                                    "marks": [g.mark(a), g.mark(b), g.mark(c)]} for c in core if c not in (a, b)])})
    for m in core:                                     # the same mark twice
        out.append({"raw": p({"type": "text", "text": "dd", "marks": [g.mark(m), g.mark(m)]})})
    for k in (7, 8, 9, 12, 20, 40):                    # many marks
        for pool in (inline, ["strong", "em"], ["underline", "link"], core):
            ms = [g.mark(r.choice(pool)) for _ in range(k)]
            out.append({"raw": p({"type": "text", "text": r.choice(["x", "a b", " y "]), "marks": ms})})
    for lv in range(1, 7):
        for marks in ([{"type": "indentation", "attrs": {"level": lv}}],
                      [{"type": "alignment", "attrs": {"align": "center"}}, {"type": "indentation", "attrs": {"level": lv}}]):
            out.append({"raw": p({"type": "text", "text": g.text()}, {"type": "text", "text": "b", "marks": [{"type": "em"}]}, marks=marks)})
    out.append({"raw": p(marks=[{"type": "indentation", "attrs": {"level": 2}}])})
    def marked(t):
        x = g.element("text", 9)
        x["marks"] = [g.mark(r.choice(r.choice([core, inline]))) for _ in range(r.choice([1, 1, 2, 3]))]
        if any(m["type"] == "code" for m in x["marks"]):
            x["text"] = x["text"].replace("\n", " ")
        return x
    for i in range(2):
        for d in context_docs(g, schema, {"text"}, make=marked):
            out.append({"raw": d})
    def some(*pool):
        def f(e):
            ms = [g.mark(r.choice(pool)) for _ in range(r.choice([1, 1, 1, 2]))]
            if any(m["type"] == "code" for m in ms):
                e["text"] = e["text"].replace("\n", " ")
            return ms
        return f
    for m in core:
        out += _render_jobs(d for d in spelled_docs(g, schema, {"paragraph"}, 0.5, marks=some(m)))
    out += _render_jobs(spelled_docs(g, schema, {"heading", "taskItem", "decisionItem", "tableCell", "listItem", "panel"}, 0.15, marks=some(*core)))
    out += _render_jobs(spelled_links(g, schema))
    for t in sorted(schema["child"]):
        if "text" in schema["child"][t]:
            for how in ("words", "one", "lines", "spaces"):
                for m in core:
                    x = {"type": "text", "text": long_text(g, r.choice([60, 250, 900]), how), "marks": [g.mark(m)]}
                    if m == "code":
                        x["text"] = x["text"].replace("\n", " ")
                    out.append({"raw": wrap(g, t, g.element(t, content=[x]))})
    for i in range(n):
        kids = []
        for _ in range(r.randint(1, 5)):
            ms = [g.mark(m) for m in r.sample(inline, r.randint(0, 5))]
            t = g.text()
            if any(m["type"] == "code" for m in ms) and r.random() < 0.9:
                t = t.replace("\n", " ")
            kids.append({"type": "text", "text": t, "marks": ms})
            if r.random() < 0.2:
                kids.append(g.element(r.choice(["hardBreak", "emoji", "mention", "status"]), 9))
        out.append({"raw": p(*kids)})
    return out


def item(*kids):
    return {"type": "listItem", "content": list(kids)}


def para(t):
    return {"type": "paragraph", "content": [{"type": "text", "text": t}] if t != "" else []}


def lst(kind, *items, **attrs):
    e = {"type": kind, "content": list(items)}
    if kind == "taskList":
        e["attrs"] = {"localId": "t"}
    elif attrs:
        e["attrs"] = attrs
    return e


def dd(*content):
    return {"type": "doc", "version": 1, "content": list(content)}


def task(text, state="TODO"):
    e = {"type": "taskItem", "attrs": {"localId": "i", "state": state}}
    if text is not None:
        e["content"] = [{"type": "text", "text": text}] if text else []
    return e


def jobs_C12(seed, schema, tier):
    n = 500 if tier == "quick" else 5000
    out = []
    g = Gen(seed, schema, **RENDER)
    # long lists and all start numbers
    for start in (None, 0, 1, 2, 7, 9, 10, 95, 99, 100, 998, 9998, 32766, 65534, 99999998, 99999999, 999999997, 999999998, 999999999, 1000000000, 2147483646, 4294967294,
                  9999999998, 9007199254740990, 99999999999999998, 9223372036854775806, 18446744073709551614, 10 ** 30 - 2):
        for cnt in (1, 3, 12, 105 if start in (None, 1, 5) else 4):
            a = {} if start is None else {"order": start}
            out.append({"raw": dd(lst("orderedList", *[item(para("i%d" % i)) for i in range(cnt)], **a))})
    out.append({"raw": dd(lst("orderedList", *[item(para("i")) for i in range(3)], localId="z"))})
    out.append({"raw": dd(lst("bulletList", *[item(para("i")) for i in range(30)]))})
    # every chain of list kinds to depth 4
    kinds = ("bulletList", "orderedList")
    for k1 in kinds:
        for k2 in kinds + ("taskList",):
            for k3 in kinds:
                def inner(k, *it):
                    if k == "taskList":
                        return lst(k, task("t1", "DONE"), task("t2"), lst("taskList", task("t3")))
                    return lst(k, *it, **({"order": 4} if k == "orderedList" else {}))
                c = inner(k3, item(para("c1")), item(para("c2")))
                b = inner(k2, item(para("b1"), c), item(para("b2")), item(para("")))
                a = inner(k1, item(para("a1"), b, para("a1 more")), item(b), item(para("a2")))
                out.append({"raw": dd(a)})
                d = inner(k1, item(para("x1"), inner(k2, item(para("y"), inner(k3, item(para("z"), inner(k1, item(para("w"))))))), inner(k3, item(para("s")))), item(para("x2")))
                out.append({"raw": dd(d)})
    # item contents
    for t in ("", " ", "a  ", "a\nb", "a\n\nb\n", "\n", "  lead", "- x", "1. y", "tab\t", "nb\u00a0"):
        for k in kinds:
            out.append({"raw": dd(lst(k, item(para(t)), item(), item(para("z"), para(t)), item(para(t), para(t), para("q"))))})
    for d in render_docs(seed, schema, n, roots={"bulletList", "orderedList"},
                         weight={"bulletList": 3, "orderedList": 3, "taskList": 2}, p_newline=0.1):
        out.append({"raw": d})
    return out


def jobs_C13(seed, schema, tier):
    n = 500 if tier == "quick" else 5000
    out = []
    st = ("TODO", "DONE")
    for a in st:
        for b in st:
            for c in st:
                out.append({"raw": dd(lst("taskList", task("a", a), task("b", b), task("c", c)))})
                out.append({"raw": dd(lst("taskList", task("a", a), lst("taskList", task("n", b), lst("taskList", task("m", c)), task("n2", a)), task("z", c)))})
                out.append({"raw": dd(lst("taskList", lst("taskList", task("n", b)), task(None, a), task("", c), task("  ", b), task("x  ", b), task("x\n y\n", c)))})
    e = task("bottom", "DONE")
    for _ in range(6):
        e = lst("taskList", task("p"), e if e["type"] == "taskItem" else e, task("q", "DONE"))
    out.append({"raw": dd(e)})
    out.append({"raw": dd(lst("taskList", *[task("t%d" % i, st[i % 3 == 0]) for i in range(40)]))})
    out.append({"raw": dd(lst("taskList"))})
    for d in render_docs(seed, schema, n, roots={"taskList"}, weight={"taskList": 2, "taskItem": 2}, p_newline=0.08):
        out.append({"raw": d})
    return out


def cell(t, *kids):
    return {"type": t, "content": list(kids)}


def row(*cells):
    return {"type": "tableRow", "content": list(cells)}


def table(*rows):
    return {"type": "table", "content": list(rows)}


def jobs_C14(seed, schema, tier):
    n = 500 if tier == "quick" else 5000
    out = []
    H, D = "tableHeader", "tableCell"
    for r1 in ("", "H", "D", "HH", "HD", "DH", "HHH", "DHH"):
        for r2 in ("", "H", "DD", "HD", "DDD"):
            for r3 in (None, "D", "HH"):
                rows = []
                for rr in (r1, r2) + ((r3,) if r3 is not None else ()):
                    rows.append(row(*[cell(H if c == "H" else D, para("c%d" % i)) for i, c in enumerate(rr)]))
                out.append({"raw": dd(table(*rows))})
    out.append({"raw": dd(table())})
    for t in ("a|b", "||", "\\|", "a\nb", "\n", "  x", " \n  y\n   z", "", " ", "a\\", "|", "| --- |", "<br>", "&nbsp;", "x\n\n\ny", "\tt"):
        for c in (H, D):
            out.append({"raw": dd(table(row(cell(c, para(t)), cell(D, para("n"))), row(cell(D), cell(c, para(t), para(t)))))})
            out.append({"raw": dd(table(row(cell(c, {"type": "codeBlock", "content": [{"type": "text", "text": t}] if t else []},
                                                 lst("bulletList", item(para(t), lst("orderedList", item(para(t))))),
                                                 {"type": "heading", "attrs": {"level": 2}, "content": [{"type": "text", "text": t}] if t else []}))))})
    for d in render_docs(seed, schema, n, roots={"table"}, weight={"table": 2}, p_special=0.6, p_newline=0.1, maxkids=3):
        out.append({"raw": d})
    return out


def jobs_C15(seed, schema, tier):
    n = 500 if tier == "quick" else 5000
    out = []

    def panel(t, *k):
        return {"type": "panel", "attrs": {"panelType": t}, "content": list(k)}

    def quote(*k):
        return {"type": "blockquote", "content": list(k)}

    def dec(*texts):
        kids = []
        for t in texts:
            kids.append({"type": "hardBreak"} if t is None else {"type": "text", "text": t})
        return {"type": "decisionItem", "attrs": {"localId": "d", "state": "DECIDED"}, "content": kids}

    def decs(*items):
        return {"type": "decisionList", "attrs": {"localId": "l"}, "content": list(items)}
    code = {"type": "codeBlock", "attrs": {"language": "py"}, "content": [{"type": "text", "text": "a\n\n\nb\n"}]}
    bodies = [[], [para("")], [para("a")], [para("a"), para(""), para("b")], [code], [para("a"), code, para("b")],
              [para("a\n\nb")], [para(" \n ")], [lst("bulletList", item(para("x"), lst("orderedList", item(para("y")))))],
              [para(""), para(""), para(""), para("e")], [para("t\n")], [para(""), code], [quote(para("q"), quote(para("qq"), code))]]
    for b in bodies:
        out.append({"raw": dd(quote(*b))})
        out.append({"raw": dd(quote(quote(*b), para("z")))})
        for t in ("info", "note", "tip", "warning", "error", "success", "custom"):
            out.append({"raw": dd(panel(t, *b))})
        out.append({"raw": dd(panel("info", {"type": "rule"}, *b), quote(panel("tip", *b)), table(row(cell("tableCell", panel("note", *b)))))})
    for texts in ([], [""], ["a"], ["a", None, "b"], ["a\n\nb"], ["a\n\n\nb\n\nc"], ["\n\na\nb\n\n\n\nc  \n"], ["a", None, None, "b", None, None, None, "c"],
                  ["  a"], ["a \n \n b"], ["a\nb\n \n\n  \nc\n"], [" "], ["a\nb\n\nc\n\n\nd"]):
        out.append({"raw": dd(decs(dec(*texts)))})
        out.append({"raw": dd(decs(dec("first"), dec(*texts), dec("last", None, "x")))})
    out.append({"raw": dd(decs())})
    for d in render_docs(seed, schema, n, roots={"blockquote", "panel", "decisionList"},
                         weight={"blockquote": 3, "panel": 3, "decisionList": 3}, p_newline=0.12):
        out.append({"raw": d})
    return out


def jobs_C16(seed, schema, tier):
    n = 500 if tier == "quick" else 5000
    out = []
    g = Gen(seed, schema, **dict(RENDER, p_blank=0.1))
    blocks = schema["child"]["doc"]
    for a in blocks:                      # all ordered pairs of blocks
        kids = []
        for b in blocks:
            g.budget = 3
            kids += [g.element(a, 8), g.element(b, 8)]
        out.append({"raw": dd(*kids)})
        for c in ("doc", "expand", "nestedExpand"):
            for b in g.rng.sample(blocks, 4):
                g.budget = 3
                body = [g.element(a, 8), g.element(b, 8), g.element(a, 8)]
                out.append({"raw": dd(*body) if c == "doc" else dd(g.element(c, content=[x for x in body if x["type"] != "expand"]))})
    sp = [para(""), {"type": "rule"}, {"type": "heading", "attrs": {"level": 1}}, {"type": "heading", "attrs": {"level": 3}, "content": [{"type": "text", "text": "h"}]},
          {"type": "blockCard", "attrs": {"url": "u"}}, {"type": "codeBlock"}, lst("bulletList"), {"type": "mediaGroup", "content": []}, para("\n\n\n"),
          {"type": "mediaSingle"}, para("x")]
    for a in sp:
        for b in sp:
            out.append({"raw": dd(a, b)})
            for k in (1, 2, 5, 9):
                out.append({"raw": dd(para("a"), a, *([b] * k), a, para("z"))})
    for k in range(0, 40):
        out.append({"raw": dd(para("a"), *([para("")] * k), para("b"))})
        out.append({"raw": dd(para("a" + "\n" * k + "b"))})
        out.append({"raw": dd({"type": "expand", "content": [{"type": "rule"}] * (k % 7) + [para("")] * k + [{"type": "rule"}]})})
    for d in render_docs(seed, schema, n, roots={"doc", "expand", "nestedExpand"}, p_newline=0.1,
                         weight={"rule": 2, "heading": 2, "codeBlock": 2, "bulletList": 2}):
        out.append({"raw": d})
    return out


def jobs_C17(seed, schema, tier):
    n = 500 if tier == "quick" else 5000
    out = []
    g = Gen(seed, schema, **RENDER)
    r = g.rng
    langs = [None, "python", "none", "", "None", "NONE", "c++", "js", "plaintext", "text", "java", "objective-c", "shell script", "none ", "nonesuch", "PYTHON", "yaml", "json", "c#", None]
    codes = ["", " ", "\n", "\n\n\n\n", "a", "  a  ", "a\n", "\na", "a\n\n\n\nb", "\tx\n\ty", "a|b\\n$1", "``", "> q", "x \n y \n", "\r\n", "a\rb", "\u2028", "\x0c", "*b* _c_ ~~d~~", "<br>&nbsp;",
             "```", "```js\nx\n```", "a\n```\nb", "~~~\nx\n~~~", "````", "    four\n  two", "#!/bin/sh", "\ufeffx", "a\u00a0", "\\", "\x00", "a\\\nb", "{{x}}", "%s {0}", "\t\t",
             "```\n", "\n```", "1\n2\n3\n4\n5", "e\u0301", "\u200b", " \n \n ", "none", "lang"]
    for c in codes:
        a = g.rng.choice([None, {"language": g.rng.choice(langs[1:-1])}])
        e = {"type": "codeBlock", "content": [{"type": "text", "text": c}]}
        if a is not None:
            e["attrs"] = a
        t = g.rng.choice(["doc", "listItem", "blockquote", "panel", "tableCell", "expand"])
        out.append({"raw": dd(e)})
        out.append({"raw": wrap(g, t, g.element(t, content=[e]))})
    for l in langs:
        for a in ([None] if l is None else [{"language": l}, {"language": l, "uniqueId": "u", "localId": "v"}]):
            kids = []
            for c in codes:
                e = {"type": "codeBlock", "content": [{"type": "text", "text": c}]}
                if a is not None:
                    e["attrs"] = a
                kids.append(e)
            out.append({"raw": dd(*kids)})
    for a in (None, {}, {"language": None}, {"localId": "q"}, {"language": "rust"}):
        for content in (None, [], [{"type": "text", "text": "a"}, {"type": "text", "text": "\n  b"}, {"type": "text", "text": ""}, {"type": "text", "text": "c\n"}]):
            e = {"type": "codeBlock"}
            if a is not None:
                e["attrs"] = a
            if content is not None:
                e["content"] = content
            out.append({"raw": dd(e)})
    for i in range(n):
        g.budget = 8
        t = g.rng.choice(["doc", "listItem", "blockquote", "panel", "tableCell", "expand"])
        e = g.element("codeBlock", 3)
        if g.rng.random() < 0.3:
            e["content"] = [{"type": "text", "text": g.rng.choice(codes) + g.text() + g.rng.choice(codes)} for _ in range(g.rng.randint(1, 4))]
        out.append({"raw": wrap(g, t, g.element(t, content=[e]))})

    def block(t):
        e = g.element("codeBlock", 3)
        if r.random() < 0.5:
            e["content"] = [{"type": "text", "text": r.choice(codes)}]
        return e
    for i in range(3):
        for d in context_docs(g, schema, {"codeBlock"}, make=block):
            out.append({"raw": d})
    for k in (4, 8, 20, 60):
        out.append({"raw": dd({"type": "codeBlock", "content": [g.code_text() for _ in range(k)]})})
    for d in list(long_docs(g, schema, {"codeBlock"})) + list(spelled_docs(g, schema, {"codeBlock"}, 0.5)) + list(spelled_attrs(g, schema, {"codeBlock"})) + list(edge_docs(g, schema, {"codeBlock"})):
        out.append({"raw": d})
    return out


def fail_docs(seed, schema, n):
    g = Gen(seed, schema, **dict(RENDER, budget=14))
    fl = Gen(seed + 1, schema, **RENDER)
    r = g.rng
    inline = ("text", "date", "inlineCard", "emoji")
    hosts = [p for p in sorted(schema["child"]) if any(f in schema["child"][p] for f in Gen.FAILABLE)]
    for p in hosts + [h for h in Gen.HOSTS if h not in hosts]:   # each failing leaf in each host at each place of small lists
        for f in Gen.FAILABLE:
            if f not in schema["child"][p] and (p not in Gen.HOSTS or f not in inline + ("blockCard",)):
                continue
            for pat in ("F", "FS", "SF", "SFS", "FSF", "FF", "SFFS"):
                kids = [fl.element(f, 9, fail=True) if ch == "F" else g.element(r.choice(schema["child"][p]), 8, fail=False) for ch in pat]
                x = g.element(p, content=kids)
                yield wrap(g, p, x)
                if r.random() < 0.4:      # deeper
                    q = r.choice(["blockquote", "panel", "tableCell", "tableHeader", "listItem", "expand", "nestedExpand"])
                    if p in schema["child"][q]:
                        g.budget = 5
                        yield wrap(g, q, g.element(q, content=[g.element(r.choice(schema["child"][q]), 8), x, g.element(r.choice(schema["child"][q]), 8)]))
    for i in range(n):
        g.p_fail = r.choice([0.05, 0.15, 0.5])
        g.budget0 = r.choice([10, 20, 40])
        g.maxdepth = r.choice([4, 6, 8])
        g.p_loose = r.choice([0, 0, 0.1, 0.3])
        g.loose = r.choice(["blocks", "inline"])
        yield g.doc()
    g.p_loose = 0
    for t in sorted(schema["child"]):        # many that fail, in one place and all over
        fs = [f for f in Gen.FAILABLE if f in schema["child"][t] and t not in ("codeBlock", "caption", "mediaGroup")]
        if not fs:
            ks = [c for c in schema["child"][t] if set(schema["child"].get(c, [])) & set(Gen.FAILABLE) and c not in ("codeBlock", "caption", "mediaGroup")]
            for k in (9, 20):
                if ks and t != "mediaSingle":
                    yield wrap(g, t, g.element(t, content=[g.element(c, content=[fl.element(r.choice([f for f in Gen.FAILABLE if f in schema["child"][c]]), 9, fail=True), g.element(r.choice(schema["child"][c]), 9, fail=False)])
                                                           for c in r.choices(ks, k=k)]))
            continue
        for k in (5, 9, 12, 17, 33, 60, 110):
            kids = [fl.element(r.choice(fs), 9, fail=True) for _ in range(k)]
            for _ in range(r.choice([0, 1, 2, k // 2])):
                g.budget = 1
                kids.insert(r.choice([0, len(kids), r.randint(0, len(kids))]), g.element(r.choice(schema["child"][t]), 9, fail=False))
            yield wrap(g, t, g.element(t, content=kids))
    for i in range(30):
        g.p_fail = r.choice([0.5, 0.9])
        g.budget0, g.maxdepth, g.maxkids = 90, 6, 8
        yield g.doc()
    g.p_fail, g.maxkids = 0, 4
    for f in Gen.FAILABLE:
        for d in context_docs(g, schema, {f}, make=lambda t: fl.element(t, 9, fail=fl.rng.random() < 0.7)):
            yield d
    for d in sized_docs(g, schema, roots=set(schema["child"]) - {"caption", "mediaGroup"}, width=20, times=3):
        spots = [e["content"] for e, cat in walk(d) if cat == "node" and e.get("content") and e["type"] in schema["child"]
                 and e["type"] not in ("codeBlock", "mediaGroup", "caption") and set(schema["child"][e["type"]]) & set(Gen.FAILABLE)]
        for _ in range(r.choice([1, 2, 9])):
            if spots:
                c = r.choice(spots)
                f = [x for x in Gen.FAILABLE if any(x in schema["child"][h] and c[0]["type"] in schema["child"][h] for h in schema["child"] if h != "codeBlock")]
                if f:
                    c.insert(r.choice([0, len(c), r.randint(0, len(c))]), fl.element(r.choice(f), 9, fail=True))
        yield d
    g.p_fail = 0
    for depth in (3, 6, 10):
        for f in ("blockCard", "inlineCard", "date", "text", "media", "emoji"):
            leaf = fl.element(f, 9, fail=True)
            good = g.element("text", 9)
            host = {"type": "mediaSingle", "content": [leaf]} if f == "media" else leaf if f == "blockCard" else {"type": "paragraph", "content": [good, leaf, g.element("text", 9)]}
            yield deep(g, depth, host)


def jobs_C18(seed, schema, tier):
    n = 500 if tier == "quick" else 4000
    return _render_jobs(fail_docs(seed, schema, n), twin=True)


def jobs_C19(seed, schema, tier):
    n = 500 if tier == "quick" else 4000
    out = _render_jobs(fail_docs(seed + 11, schema, n))
    out += _render_jobs(render_docs(seed + 12, schema, n))
    return out


TZS = ["UTC", "America/Los_Angeles", "Asia/Tokyo", "Pacific/Kiritimati", "Pacific/Niue", "Europe/Berlin", "XXX-13:59", "YYY+12"]


def jobs_C20(seed, schema, tier):
    n = 400 if tier == "quick" else 10000
    rng = random.Random(seed)
    days = [0, 1, -1, 59, 58, 60, 365, 364, 789, 790, 10957, 11015, 11016, 11017, 11322, 11323, 18262, 18320, 18321, 18322, 18628, 19782,
            -719162, -719161, 2932896, 2932895, -25567, -25509, -25508, 47540, 47541, 47540 + 59, -141428, 16801, 24837, 24855, 24856, -1000, -719102, -718797]
    # first and last day of every month of some years
    import datetime
    for y in (1, 4, 100, 400, 1582, 1600, 1899, 1900, 1904, 1969, 1970, 1972, 1999, 2000, 2001, 2004, 2023, 2024, 2038, 2100, 2400, 9999):
        for m in range(1, 13):
            d = (datetime.date(y, m, 1) - datetime.date(1970, 1, 1)).days
            days.append(d)
            if d > -719162:
                days.append(d - 1)
    stamps = []
    for d in days:
        for off in (0, DAY - 1, 1, 12 * 3600000, 999, 3 * 3600000, 22 * 3600000):
            stamps.append(d * DAY + off)
    stamps += [int(timestamps(rng)) for _ in range(n)]
    out = []

    def node(ts):
        return {"type": "date", "attrs": {"timestamp": ts}}
    for i in range(0, len(stamps), 8):
        chunk = stamps[i:i + 8]
        out.append({"raw": dd({"type": "paragraph", "content": [node(str(x)) for x in chunk]}), "tz": TZS[(i // 8) % len(TZS)]})
    for i in range(0, len(stamps), 24):
        out.append({"raw": dd({"type": "paragraph", "content": [node(x) for x in stamps[i:i + 4]]}), "tz": TZS[(i // 24) % len(TZS)]})
    g = Gen(seed, schema, **RENDER)
    for i in range(2):
        for k, d in enumerate(context_docs(g, schema, {"date"})):
            out.append({"raw": d, "tz": TZS[k % len(TZS)]})
    for b in ("abc", "", "12.5", "9" * 16, "253402300800000", "-62135596800001", "-", "0x10", "1e3", "9" * 60, "9" * 5000, "inf", "nan", None, [], {}, ["0"]):
        out.append({"raw": dd({"type": "paragraph", "content": [node(b)]}), "tz": "UTC"})
    for z in ("0", "00", "007", "-0", "0086400000"):
        out.append({"raw": dd({"type": "paragraph", "content": [node(z)]}), "tz": "Asia/Tokyo"})
    return out


LEAF21 = ("inlineCard", "blockCard", "embedCard", "media", "mediaInline", "mediaGroup", "mediaSingle", "caption",
          "emoji", "mention", "status", "extension")


def jobs_C21(seed, schema, tier):
    n = 500 if tier == "quick" else 5000
    out = []
    g = Gen(seed, schema, **RENDER)
    r = g.rng
    import itertools
    for t in LEAF21:
        k = schema["node"][t]
        if k["attrs"] == "NONE":
            continue
        shown = [a for a in k["aopt"] if (t, a) in Gen.RENDERS]
        for sub in itertools.product((0, 1, 2, 3), repeat=len(shown)):     # absent, value, "", null
            e = minimal(g, "node", t, False)
            a = e.setdefault("attrs", {})
            for name, s in zip(shown, sub):
                a.pop(name, None)
                if s == 1:
                    a[name] = g.attr("node", t, name) or "v"
                elif s == 2:
                    a[name] = ""
                elif s == 3:
                    a[name] = None
            if t == "media":
                for ty in ("file", "external", "link", "weird"):
                    x = copy.deepcopy(e)
                    x["attrs"]["type"] = ty
                    if ty == "file" and not isinstance(x["attrs"].get("id"), str):
                        x["attrs"]["id"] = "i"
                    out.append({"raw": wrap(g, t, x)})
                    y = copy.deepcopy(x)
                    y["marks"] = [g.mark("link"), g.mark("border")]
                    out.append({"raw": wrap(g, t, y)})
            else:
                out.append({"raw": wrap(g, t, e)})
    for d in render_docs(seed, schema, n, roots=set(LEAF21), p_blank=0.1):
        out.append({"raw": d})
    for i in range(n // 3):
        g.p_fail = 0.2
        g.budget = 6
        out.append({"raw": dd({"type": "paragraph", "content": [g.element(r.choice(["inlineCard", "emoji", "mention", "status", "mediaInline"]), 9) for _ in range(r.randint(1, 5))]},
                              g.element(r.choice(["blockCard", "embedCard", "extension"]), 9), {"type": "mediaSingle", "content": [g.element("media", 9), g.element("caption", 9)]})})
    return out


def jobs_C22(seed, schema, tier):
    n = 500 if tier == "quick" else 5000
    out = []
    g = Gen(seed, schema, **RENDER)
    r = g.rng
    for lv in range(1, 7):
        for c in (None, [], [{"type": "text", "text": "h"}], [{"type": "text", "text": " h "}, {"type": "hardBreak"}, {"type": "text", "text": "i", "marks": [{"type": "em"}]}],
                  [{"type": "text", "text": "a\nb"}]):
            for m in (None, [{"type": "alignment", "attrs": {"align": "end"}}], [{"type": "indentation", "attrs": {"level": 2}}]):
                e = {"type": "heading", "attrs": {"level": lv}}
                p = {"type": "paragraph"}
                for x in (e, p):
                    if c is not None:
                        x["content"] = c
                    if m is not None:
                        x["marks"] = m
                out.append({"raw": dd(e, p)})
    for a in (None, {}, {"text": "\n"}, {"text": "x", "localId": "l"}):
        h = {"type": "hardBreak"}
        q = {"type": "rule"}
        if a is not None:
            h["attrs"] = a
            q["attrs"] = {"localId": "r"} if a else {}
        out.append({"raw": dd({"type": "paragraph", "content": [h, {"type": "text", "text": "t"}, h, h]}, q, q)})
    for d in render_docs(seed, schema, n, roots={"paragraph", "heading", "hardBreak", "rule"}, p_newline=0.1, p_lb=0.05, p_mark=0.5):
        out.append({"raw": d})
    out.append({"raw": dd({"type": "paragraph", "content": [g.element("text", 9) for _ in range(150)]})})
    for i in range(n // 2):
        t = r.choice(["paragraph", "heading"])
        kids = [g.element(r.choice(schema["child"][t]), 9, fail=False) for _ in range(r.randint(0, 8))]
        out.append({"raw": dd(g.element(t, content=kids))})
    return out


def jobs_C23(seed, schema, tier):
    out = []
    g = Gen(seed, schema, budget=10)
    rng = g.rng
    from gen import UNKNOWN_TYPES
    names = sorted(set(schema["node"]) | set(schema["mark"]) | set(schema["unsupported"]))
    cased = {f(t) for t in names for f in (str.lower, str.upper, str.capitalize, lambda x: x + "s", lambda x: " " + x, lambda x: x + " ",
                                           lambda x: x + "\n", lambda x: x[:-1], lambda x: re.sub("([A-Z])", r"_\1", x).lower(), str.title,
                                           lambda x: re.sub("([A-Z])", r"-\1", x).lower(), lambda x: "Node" + x[0].upper() + x[1:])} - set(names)
    for cat in ("node", "mark"):
        for t in sorted(set(names) | set(UNKNOWN_TYPES) | cased | set(TYPES) | set(WORDS.new) | set(WORDS.old)):
            if t in schema[cat]:
                for o in (False, True):
                    for how in ("fn", "cls"):
                        out.append({"k": "type", "raw": minimal(g, cat, t, o), "cat": cat, "how": how})
            else:
                out.append({"k": "type", "raw": {"type": t}, "cat": cat})
        for t in sorted(schema[cat]):
            raw = minimal(g, cat, t, False)
            for q in names:                     # single-type queries: the full cross product
                out.append({"k": "query", "raw": raw, "cat": cat, "q": [q], "single": True})
            for _ in range(6):
                out.append({"k": "query", "raw": raw, "cat": cat, "q": rng.sample(names, rng.randint(0, 8)) + rng.choice([[], [t]])})
            out.append({"k": "query", "raw": raw, "cat": cat, "q": [x for x in names if x != t]})
            out.append({"k": "query", "raw": raw, "cat": cat, "q": names})
            # one list used for several queries and changed in between
            qs = [rng.choice([[], [t], [x for x in names if x != t], rng.sample(names, 3), rng.sample(names, 3) + [t]]) for _ in range(4)]
            out += [{"k": "query", "raw": raw, "cat": cat, "q": q, "before": qs[:i]} for i, q in enumerate(qs)]
    out.append({"k": "enum"})
    out.append({"k": "api"})
    return out


def jobs_C24(seed, schema, tier):
    n = 500 if tier == "quick" else 5000
    out = []
    g = Gen(seed, schema, **RENDER)
    for cat, e in every_element(g, schema, per=2):
        if cat == "node":
            out.append({"raw": e, "keep": True})
    # every container: content absent, empty, and left empty by skipping
    for t in sorted(schema["node"]):
        k = schema["node"][t]
        if k["content"] == "NONE":
            continue
        for content in ("absent", [], [{"type": "placeholder"}]):
            for attrs in (True, False):
                e = minimal(g, "node", t, attrs)
                e["content"] = content
                if content == "absent":
                    if k["content"] != "OPT":
                        continue
                    del e["content"]
                out.append({"raw": wrap(g, t, e), "keep": True})
                if t in schema["child"]["listItem"]:
                    out.append({"raw": dd(lst("bulletList", item(e), item(e))), "keep": True})
    g.p_fail = 0
    for d in render_docs(seed, schema, n, p_lb=0.02):
        out.append({"raw": d, "keep": True})
    g.p_fail = 0.2
    for i in range(n // 4):
        out.append({"raw": g.doc(), "keep": True})
    sp = Spoiler(g)
    g.p_fail = 0
    for i in range(n // 2):
        g.p_opt = g.rng.choice([0, 0.3, 0.9])
        out.append({"raw": sp.insert_unsupported(g.doc(), g.rng.randint(1, 6)), "keep": True})
    return out


def other(v):
    """Values much like v, which is no string."""
    if isinstance(v, bool) or v is None:
        return [not v, 2]
    if isinstance(v, (int, float)):
        return [v + 1, -v - 1, v + 0.5]
    if isinstance(v, list):
        return [v + [0], v[:-1], v[::-1], [v]] + [v[:-1] + [x] for x in (other(v[-1]) if v and not isinstance(v[-1], str) else ["q"] if v else [])]
    out = [dict(v, q=0), dict(list(v.items())[1:])]
    for k in v:
        out += [dict(v, **{k: x}) for x in (other(v[k])[:2] if not isinstance(v[k], str) else [v[k] + " "])]
    return out


def neighbours(raw, cat, schema, g, many=False):
    """Elements that differ from raw in one place."""
    r = g.rng
    out = []

    def at(i, change):
        e = copy.deepcopy(raw)
        x, c = list(walk(e, cat))[i]
        if change(x) is not False:
            out.append(e)
    for i, (x, c) in enumerate(walk(raw, cat)):
        k = schema[c].get(x.get("type"))
        if k is None:
            continue
        for d, names in ((None, k["xreq"]), ("attrs", (k["areq"] + k["aopt"]) if isinstance(x.get("attrs"), dict) else [])):
            for name in names:
                get = (lambda y: y) if d is None else (lambda y: y["attrs"])
                req = d is None or name in k["areq"]
                v = get(x).get(name, out)
                if v is out:
                    at(i, lambda y: get(y).__setitem__(name, r.choice([None, "", "q"])))
                    continue
                if not req:
                    at(i, lambda y: get(y).__delitem__(name))
                new = [None, "q"] + other(v) if not isinstance(v, str) else [v + " ", v + "q", v.swapcase(), v[1:], None, " " + v, v.replace("\u00e9", "e\u0301"), v.strip()]
                for w in (new if many else [r.choice(new)]):
                    if w != v:
                        at(i, lambda y: get(y).__setitem__(name, w))
        if k["attrs"] == "OPT":
            at(i, lambda y: y.__delitem__("attrs") if "attrs" in y else y.__setitem__("attrs", {}))
        for name in ("content", "marks"):
            if k[name] == "NONE":
                continue
            v = x.get(name)
            if not isinstance(v, list):
                at(i, lambda y: y.__setitem__(name, []))
                continue
            if v:
                n = r.randrange(len(v))
                at(i, lambda y: y[name].pop())
                at(i, lambda y: y[name].pop(0))
                at(i, lambda y: y[name].insert(n, copy.deepcopy(y[name][n])))
                at(i, lambda y: y[name].reverse())
            elif k[name] == "OPT":
                at(i, lambda y: y.__delitem__(name))
            pool = schema["child"].get(x["type"]) if name == "content" else schema["markof"].get(x["type"])
            if pool:
                g.budget = 1
                new = g.mark(r.choice(sorted(pool))) if name == "marks" else g.code_text() if x["type"] == "codeBlock" else g.element(r.choice(sorted(pool)), 9)
                at(i, lambda y: y[name].append(new))
                if v:
                    at(i, lambda y: y[name].__setitem__(n, new))
    return out


def late(d, schema, g):
    """Elements that differ from d only towards the end (or in the middle) of its longest list, string or nesting."""
    r = g.rng
    out = []

    def at(i, change):
        e = copy.deepcopy(d)
        change(list(walk(e))[i][0])
        if e != d:
            out.append(e)
    els = [(i, x) for i, (x, c) in enumerate(walk(d))]
    lists = sorted(((len(x[k]), i, k) for i, x in els for k in ("content", "marks") if isinstance(x.get(k), list) and x[k]), key=lambda y: (y[0], y[1]))[-1:]
    for n, i, k in lists:
        t = els[i][1]["type"]
        pool = sorted(schema["child"].get(t) or []) if k == "content" else sorted(schema["markof"].get(t) or [])
        for pos in {n - 1, n - 2, n // 2}:
            if pos >= 0 and pool:
                g.budget = 1
                new = g.mark(r.choice(pool)) if k == "marks" else g.code_text() if t == "codeBlock" else g.element(r.choice(pool), 9)
                at(i, lambda y: y[k].__setitem__(pos, new))
                at(i, lambda y: y[k].insert(pos, new))
        at(i, lambda y: y[k].pop())
        at(i, lambda y: y[k].append(y[k][-1]))
        if n > 2:
            at(i, lambda y: y[k].__setitem__(slice(n - 2, n), y[k][n - 2:][::-1]))
            at(i, lambda y: y[k].__setitem__(slice(n // 2, n), y[k][n // 2:][::-1]))
    texts = sorted(((len(v), i, a, k) for i, x in els for a, part in ((None, x), ("attrs", x.get("attrs") or {})) for k, v in part.items() if isinstance(v, str) and k != "type"), key=lambda y: y[0])[-1:]
    for n, i, a, k in texts:
        get = (lambda y: y) if a is None else (lambda y: y["attrs"])
        v = get(els[i][1])[k]
        for w in (v[:-1] + "\u00a7", v[:-1], v + " ", v[:n // 2] + "\u00a7" + v[n // 2 + 1:], v[:n * 3 // 4] + v[n * 3 // 4:].swapcase()):
            at(i, lambda y: get(y).__setitem__(k, w))
    for i, x in els[-1:]:
        if "text" in x:
            at(i, lambda y: y.__setitem__("text", y["text"] + "q"))
        elif isinstance(x.get("content"), list):
            at(i, lambda y: y.__delitem__("content"))
    return out


def nested_values(g):
    """Pairs of JSON values that differ deep inside, late, or in kind only."""
    r = g.rng
    for depth in (1, 2, 3, 4, 5, 6, 8, 12, 20):
        for a, b in ((1, 2), ("a", "b"), ([], {}), (None, 0), ([1, 2], [2, 1]), ("", None), ({"q": None}, {}), ("a", "a "), (False, None)):
            how = [r.choice("ld") for _ in range(depth)]
            for h in how:
                a, b = ([a], [b]) if h == "l" else ({"k": a}, {"k": b}) if r.random() < 0.6 else ({"a": 1, "k": a, "z": []}, {"z": [], "k": b, "a": 1})
            yield {"k": a}, {"k": b}
    for n in (10, 30, 70, 200, 1100):
        yield {"k": list(range(n))}, {"k": list(range(n - 1)) + [0]}
        yield {"k": "v" * n}, {"k": "v" * (n - 1) + "w"}
        yield dict(("k%d" % i, i) for i in range(n)), dict([("k%d" % i, i) for i in range(n - 1)] + [("k%d" % (n - 1), 0)])


def reordered(raw, rng):
    """The same JSON with its keys in another order."""
    if isinstance(raw, dict):
        items = [(k, reordered(v, rng)) for k, v in raw.items()]
        rng.shuffle(items)
        return dict(items)
    return [reordered(x, rng) for x in raw] if isinstance(raw, list) else raw


def jobs_C25(seed, schema, tier):
    n = 120 if tier == "quick" else 1500
    g = Gen(seed, schema, p_anyval=0.2, p_opt=0.6, budget=12, p_loose=0.05, loose="any")
    sp = Spoiler(g)
    r = g.rng
    out = []

    def add(a, b, cat, cat2=None):
        out.append({"raw": a, "raw2": b, "cat": cat, "cat2": cat2 or cat, "how": r.choice(["fn", "cls"])})

    def same(e, cat):
        b = reordered(copy.deepcopy(e), r)
        if r.random() < 0.5:
            b = sp.insert_unknown(b) if cat == "node" else _mark_unknown(sp, b)
        if r.random() < 0.5 and cat == "node" and "marks" in b:
            b = sp.insert_unsupported(b, r.randint(1, 3))
        return b
    small = []
    for cat in ("node", "mark"):
        for t in sorted(schema[cat]):
            for o in (True, False):
                e = minimal(g, cat, t, o)
                if len(json.dumps(e)) > 600 and "content" in e:
                    e["content"] = e["content"][:1]
                small.append((cat, e))
                add(e, same(e, cat), cat)
                ns = neighbours(e, cat, schema, g, many=not o or len(json.dumps(e)) < 300)
                for x in r.sample(ns, min(12 if tier == "quick" else 60, len(ns))):
                    add(e, x, cat)
                if cat == "mark":       # the difference lies deeper
                    h = [y for y in sorted(schema["markof"]) if t in schema["markof"][y]] or ["text"]
                    y = g.element(h[0], 9)
                    for x in r.sample(ns, min(2, len(ns))):
                        add(wrap(g, h[0], dict(y, marks=[e])), wrap(g, h[0], dict(y, marks=[x])), "node")
    for cat, a in r.sample(small, len(small)):      # different types with equal parts
        c2 = r.choice(["node", "mark"])
        t2 = r.choice(sorted(schema[c2]))
        add(a, dict(a, type=t2), cat, c2)
    for i in range(n):
        d = g.doc()
        add(d, same(d, "node"), "node")
        ns = neighbours(d, "node", schema, g)
        for x in r.sample(ns, min(3, len(ns))):
            add(d, x, "node")
    for v, w in nested_values(g):
        for t, name in r.sample([("extension", "parameters"), ("bodiedExtension", "parameters"), ("inlineExtension", "parameters"), ("inlineCard", "data"), ("blockCard", "data")], 2):
            if t in schema["node"] and name in schema["node"][t]["aopt"] + schema["node"][t]["areq"]:
                a, b = minimal(g, "node", t, r.random() < 0.5), None
                a.setdefault("attrs", {})[name] = v
                b = copy.deepcopy(a)
                b["attrs"][name] = w
                add(a, b, "node")
                add(a, same(a, "node"), "node")
    meas = list(measured_docs(g, schema))
    for d in r.sample(meas, min(200, len(meas))) + r.sample(list(sized_docs(g, schema, times=2)), 40) + r.sample(list(long_docs(g, schema)), 25) + [deep(g, k) for k in (4, 8, 12, 16, 24)]:
        ls = late(d, schema, g)
        for x in r.sample(ls, min(3, len(ls))):
            add(d, x, "node")
    big = list(sized_docs(g, schema, width=12, times=3)) + list(long_docs(g, schema)) + list(context_docs(g, schema, schema["node"]))
    for d in [deep(g, 5), deep(g, 15)] + r.sample(big, 120 if tier == "quick" else len(big)):
        add(d, same(d, "node"), "node")
        for x in r.sample(neighbours(d, "node", schema, g), 3):
            add(d, x, "node")
    return out


JOBS = {k[5:]: v for k, v in list(globals().items()) if k.startswith("jobs_")}
