"""Document generator: random ADF documents over the catalogue exported from the specification."""
import random

from words import TYPES, WORDS

SPECIAL = ["|", "\\", "*", "_", "`", "~", "#", ">", "-", "[x]", "](", "<br>", "&nbsp;", "&", "<", "1.", "||",
           "\\|", "'", '"', "{", "$1", "\u00e9", "e\u0301", "\u4f60\u597d", "\U0001f600", "\u200b", "\ufeff", "%s", "{0}", "&lt;", "&#124;",
           "%7C", "\\n", "\x00", "\x1b", "\u202e", "\ufb01", "\u0130", "\u00df", "\U0001f468\u200d\U0001f469", "None", "true", "---",
           "```", "~~~", "http://x.y/z", "@a", ":b:", "[ ]", "- [ ]", "> ", "\\|\\", "#|#", "10.", "+", "!", "![", "||a||", "*|*", "\\\\"]
BLANKS = ["", " ", "  ", "\t", " \t ", "\u00a0", "\u3000", "\n", " \n ", "\n\n", "    ", "\u2003", " \u00a0 ", "\t\n"]
# texts that look like something else
WEIRD = ["0", "None", "null", "False", "\u200b", "\ufeff", "-", "1", "---", "***", "|", "\\", "`", "\x00", "<br>", "&nbsp;", "#", "> ", "- ", "1. ",
         "OPT", "[]", "{}", "''", "\u0301", "nan"]
LBS = ["\r", "\x0b", "\x0c", "\x1c", "\x85", "\u2028", "\u2029", "\r\n"]
PUNCT = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"
SPACES = list("\u00a0\u1680\u2000\u2003\u2007\u200a\u202f\u205f\u3000\u200b\u200d\u2060\ufeff\u180e\t\x1f\x08\x7f")
BREAKS = LBS + ["\x1d", "\x1e", "\n", "\n\n", "\n\r", "\n \n", "\n\t"]
LOOKS = ["true", "false", "True", "null", "None", "0", "1", "-1", "1.0", "00", "1e3", "nan", "inf", "[]", "{}", "2020-01-01", "yes", "a.b", "A", "on",
         "%(a)s", "${a}", "&amp;", "&#35;", "\\u0041", "\\n", "\\\\", "\\*", "\\|", "<b>", "</p>", "<!-- -->", "<br/>", "<br>", "http://a.b/c?d=e&f#g", "www.a.b", "a@b.c", "mailto:a@b.c", "file:///a",
         "[a](b)", "![a](b)", "[a][b]", "[^1]", "[ ]", "[x]", "- ", "* ", "+ ", "1. ", "1) ", "# ", "## ", "> ", ">", "```", "~~~", "`` ``", "***", "---", "___", "===", "|-|", ":-:", "    a", "\ta", "a  ", "| a |",
         "$a$", "$$", "==a==", "++a++", "^a^", "~a~", "**a**", "*a*", "__a__", "_a_", "~~a~~", "`a`", "`` a ``", "a_b_c", "a*b*c", "snake_case", "C#", "C++", "#tag", "@a", ":a:", ":)", "...", "--", "(c)", "'a'", "\"a\"",
         "\u201ca\u201d", "\u2014", "\u2026", "\u2022", "\u00ad", "e\u0301", "\u00e9", "\u0130", "\u0131", "\u00df", "\ufb01", "\u1e9e", "\u03c2", "\u01c5", "\U0001f600", "\U0001f44d\U0001f3fd", "\U0001f1e9\U0001f1ea",
         "\u0661", "\u00b2", "\u2167", "\uff11", "\uff5c", "\u202eabc", "\u200fa", "\u0000", "\x1b[0m", "\ufffd", "\ue000", "\ud83d", "\udc00", "\udc80\ud800", "\ufffe", "\U0010ffff", "OPT", "REQ", "media", "none", "N/A", "unknown", "@Unknown", "DONE", "TODO", "~", "Zz", "aA", "AA"]


def spellings(word):
    """Awkward texts, systematically: every ASCII sign and every kind of space or line break in front of, behind, around and
    within words, alone and repeated; and texts that look like values, markup or addresses."""
    out = []
    for c in PUNCT:
        out += [c, c * 2, c * 3, c + word(), word() + c, c + word() + c, word() + c + word(), c * 2 + word() + c * 2, c * 3 + word() + c * 3,
                c + " " + word(), word() + " " + c, word() + c * 2, c * 2 + word(), c + c.join([word(), word()]), "\\" + c, word() + " " + c + " " + word()]
    for c in SPACES + BREAKS + [" ", "  "]:
        out += [c, c + word(), word() + c, c + word() + c, word() + c + word(), word() + c * 2 + word(), c * 4 + word(), word() + " " + c + " " + word()]
    for c in LOOKS:
        out += [c, c + word(), word() + c, word() + " " + c + " " + word(), c + " " + word()]
    return out


def spelled_names(name):
    """Names much like a known one."""
    snake = "".join("_" + c.lower() if c.isupper() else c for c in name)
    return [x for x in dict.fromkeys([snake, snake.replace("_", "-"), snake.replace("_", " "), name.lower(), name.upper(), name.capitalize(), name + "s", name[:-1], "_" + name, name + "_", name + " ", "$" + name,
            "@" + name, "data-" + name, "attrs." + name, "default_" + name, snake.upper(), snake.split("_")[-1], name + "?", "\ufeff" + name, "__%s__" % name]) if x != name]


SYNONYMS = ["href", "url", "uri", "src", "link", "text", "title", "name", "label", "value", "caption", "body", "children", "nodes", "items", "contents", "markup", "id", "uuid", "key", "local_id",
            "alt", "altText", "lang", "language", "syntax", "order", "start", "startAt", "number", "state", "status", "checked", "done", "completed", "level", "depth", "indent", "color", "colour",
            "kind", "class", "className", "nodeType", "attributes", "attr", "props", "style", "format", "shortname", "short_name", "emoji", "fallback", "displayName", "userName", "timestamp", "date", "time", "panel", "panel_type",
            "markdown", "html", "plain", "raw", "data", "parameters", "meta", "extra", "hidden", "visible", "deleted", "ignore", "ignore_error", "skip", "warn", "debug", "strict", "unsupported", "fragment", "schema", "isUnknown", "error"]
DAY = 86400000


def timestamps(rng):
    lo, hi = -719162 * DAY, 2932897 * DAY - 1
    pick = rng.random()
    if pick < 0.3:
        base = rng.choice([0, 1, -1, 18262, 11016, 11015, 10957, -719162, 2932896, 59, 58, 789, 790, 19782, 365, -365,
                           -25567, -141428, 47541, rng.randrange(-719162, 2932897)])
        v = base * DAY + rng.choice([0, -1, 1, DAY - 1, DAY // 2, 999, 1000, -1000, DAY - 1000])
    elif pick < 0.6:
        v = rng.randrange(-DAY * 3, DAY * 3)
    elif pick < 0.85:
        v = rng.randrange(0, 20000 * DAY)
    else:
        v = rng.randrange(lo, hi)
    return str(min(max(v, lo), hi))


KEYS = ["url", "name", "title", "href", "@type", "value", "type", "content", "marks", "attrs", "text", "version", "localId", "", "cls", "self"]


class Gen:
    def __init__(self, seed, schema, **opt):
        self.rng = random.Random(seed)
        self.schema = schema
        self.n = 0
        # options
        self.p_opt = opt.get("p_opt", 0.5)        # optional attribute / field present
        self.p_fail = opt.get("p_fail", 0.0)      # a leaf that cannot be rendered
        self.p_blank = opt.get("p_blank", 0.12)
        self.p_special = opt.get("p_special", 0.35)
        self.p_newline = opt.get("p_newline", 0.04)
        self.p_lb = opt.get("p_lb", 0.0)
        self.p_mark = opt.get("p_mark", 0.35)
        self.p_loose = opt.get("p_loose", 0.0)    # a child that the nesting rules do not provide for
        self.loose = opt.get("loose", "blocks")
        self.p_weird = opt.get("p_weird", 0.03)
        self.p_anyval = opt.get("p_anyval", 0.0)  # arbitrary JSON in attributes that do not matter for rendering
        self.p_empty = opt.get("p_empty", 0.08)
        self.p_word = opt.get("p_word", 0.08)     # a word of the dictionary
        self.p_title = opt.get("p_title", 0.25)
        self.weight = opt.get("weight", {})
        self.maxkids = opt.get("maxkids", 4)
        self.budget0 = opt.get("budget", 40)
        self.maxdepth = opt.get("maxdepth", 7)
        self.budget = self.budget0

    # -- values ----------------------------------------------------------------
    def word(self):
        self.n += 1
        return "Zw%dk" % self.n

    def uniq(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def text(self, newline=None):
        r = self.rng
        if r.random() < self.p_blank:
            return r.choice(BLANKS if newline is not False else [b for b in BLANKS if "\n" not in b])
        if r.random() < self.p_weird:
            return r.choice(WEIRD)
        parts = []
        if r.random() < self.p_word / 3 and (WORDS.new or WORDS.old):
            w = r.choice(WORDS.new if WORDS.new and r.random() < 0.7 else WORDS.old)
            parts.append(w if newline is not False else w.replace("\n", " "))
        if r.random() < 0.15:
            parts.append(r.choice([" ", "  ", "\t", "    ", "\u00a0"]))
        for i in range(r.randint(1, 3)):
            if i:
                parts.append(r.choice([" ", " ", "  ", "-", ""]) or " ")
            parts.append(self.word())
            if r.random() < self.p_special:
                parts.append(r.choice([" ", ""]) + r.choice(SPECIAL) + r.choice([" ", ""]))
            if newline is not False and r.random() < self.p_newline:
                parts.append(r.choice(["\n", "\n\n", "\n  ", " \n", "\n\n\n", "\n \n"]))
            if r.random() < self.p_lb:
                parts.append(r.choice(LBS))
        if r.random() < 0.15:
            parts.append(r.choice([" ", "  ", "\t", "\u00a0"]))
        return "".join(parts)

    def url(self):
        r = self.rng
        if r.random() < 0.15:
            return r.choice(["/rel/%s", "mailto:%s@b.c", "HTTP://H.Example/%s", "#%s", "%s", "ftp://x/%s", "https://h.example/\u00e9 /%s", "//h/%s",
                             "https://h.example/%%41/%s", "data:,%s", "https://h.example/*%s*_a_", "https://h.example:80/%s/", " https://h/%s "]) % self.uniq("u")
        return "https://h.example/p/%s" % self.uniq("u") + r.choice(["", "?a=1&b=2", "#frag", "/x_y(z)", "/%20", "?q=a|b", "?a=b&amp;c", "/" + "y" * 300])

    def anyval(self, depth=0):
        r = self.rng
        if r.random() < 0.06:
            return r.choice([{"type": "paragraph", "content": []}, [{"type": "text", "text": "v"}, {"type": "nope"}], {"type": "layoutSection"},
                             {"attrs": {"localId": "v"}, "marks": []}, {"content": None}, "x" * 300, 2 ** 53 + 1, -2 ** 63, 10 ** 30, 1e-7, -0.0,
                             "e\u0301", "\x00", "<OPT>", " ", "\n", [[[]]], [None], {"": ""}, {"$ref": "#"}])
        k = r.randrange(11 if depth < 2 else 8)
        return [lambda: "", lambda: self.uniq("v"), lambda: 0, lambda: r.randrange(-5, 10 ** 12), lambda: False,
                lambda: True, lambda: None, lambda: r.choice([0.0, 1.5, -2.25, 1e21]),
                lambda: [], lambda: [self.anyval(depth + 1) for _ in range(r.randint(1, 3))],
                lambda: {r.choice([self.uniq("k"), self.uniq("k"), r.choice(KEYS), r.choice(WORDS.new or KEYS)]): self.anyval(depth + 1) for _ in range(r.randint(0, 3))}][k]()

    def attr(self, cat, t, name):
        """A sensible value of one attribute."""
        r = self.rng
        key = (t, name)
        if key == ("panel", "panelType"):
            return r.choice(["info", "note", "tip", "warning", "error", "success", "custom"])
        if key == ("heading", "level"):
            return r.randint(1, 6)
        if key == ("orderedList", "order"):
            return r.choice([0, 1, 1, 2, 3, -3, 5, 7, 8, 9, 10, 42, 95, 98, 99, 100, 997, 1000, 123456])
        if key == ("indentation", "level"):
            return r.randint(1, 6)
        if key == ("taskItem", "state"):
            return r.choice(["TODO", "DONE", "TODO", "DONE", "TODO", "DONE", "done", "DOING", "", " DONE", "DONE "])
        if key == ("decisionItem", "state"):
            return r.choice(["DECIDED", "UNDECIDED", ""])
        if key == ("date", "timestamp"):
            return timestamps(r) if r.random() < 0.85 else int(timestamps(r))
        if key == ("status", "color"):
            return r.choice(["neutral", "purple", "blue", "red", "yellow", "green"])
        if key == ("status", "text"):
            return r.choice([self.text(False), self.word(), self.word()])
        if key == ("mention", "text"):
            return r.choice(["@" + self.word(), "@" + self.word() + " " + self.word(), self.word(), ""])
        if key == ("emoji", "text"):
            return r.choice([self.word(), "\U0001f600", "", ":%s:" % self.word()])
        if key == ("emoji", "shortName"):
            return ":%s:" % self.word()
        if key == ("extension", "text"):
            return r.choice([self.word(), self.text(False), ""])
        if key in (("codeBlock", "language"),):
            return r.choice(["python", "none", "", "None", "NONE", "c++", "js", "plaintext", "java", "sql", "none2", "shell script", "PYTHON", "text"])
        if key == ("media", "type"):
            return r.choice(["file", "external", "external", "link"])
        if key == ("media", "alt"):
            return r.choice(["", self.uniq("alt"), "a b", "al[t]"])
        if key == ("mediaInline", "type"):
            return r.choice(["file", "link", "image"])
        if key == ("subsup", "type"):
            return r.choice(["sub", "sup"])
        if key == ("link", "title"):
            return r.choice([self.uniq("title "), "", "t|u", " "])
        if key == ("alignment", "align"):
            return r.choice(["center", "end"])
        if key == ("breakout", "mode"):
            return r.choice(["wide", "full-width"])
        if name in ("url", "href"):
            return self.url()
        if name == "sources":
            return [self.uniq("src") for _ in range(r.randint(0, 2))]
        if name == "size":
            return r.randint(1, 3)
        if name == "layout":
            return r.choice(["wide", "full-width", "center", "default"])
        if name in ("colspan", "rowspan"):
            return r.choice([1, 1, 2, 3])
        if name == "colwidth":
            return [r.choice([100, 254, 0]) for _ in range(r.randint(0, 2))]
        if name in ("parameters", "data", "datasource"):
            return self.anyval()
        if name in ("width", "height", "originalHeight", "originalWidth"):
            return r.choice([0, 1, 760, 12.5, 100.0])
        if name == "isNumberColumnEnabled":
            return r.random() < 0.5
        return r.choice([self.uniq(name), self.uniq(name), ""])

    RENDERS = {("panel", "panelType"), ("heading", "level"), ("orderedList", "order"), ("indentation", "level"),
               ("taskItem", "state"), ("date", "timestamp"), ("status", "text"), ("mention", "text"),
               ("emoji", "text"), ("emoji", "shortName"), ("extension", "text"), ("extension", "extensionKey"),
               ("extension", "extensionType"), ("codeBlock", "language"), ("media", "type"), ("media", "alt"),
               ("media", "url"), ("media", "id"), ("link", "href"), ("link", "title"), ("inlineCard", "url"),
               ("blockCard", "url"), ("embedCard", "url")}

    def attrs(self, cat, t, fail=False):
        """None, or the attrs object of an element of type t."""
        r = self.rng
        k = self.schema[cat][t]
        if k["attrs"] == "NONE":
            return None
        if k["attrs"] == "OPT" and r.random() >= self.p_opt:
            return None
        a = {}
        for name in k["areq"]:
            a[name] = self.attr(cat, t, name)
        for name in k["aopt"]:
            p = self.p_title if name == "title" and t == "link" else self.p_opt
            if r.random() < p:
                a[name] = self.attr(cat, t, name)
        for name in list(a):
            if (t, name) not in self.RENDERS and r.random() < self.p_anyval:
                a[name] = self.anyval()
            elif isinstance(a[name], str) and r.random() < self.p_word and name not in ("timestamp", "state", "type"):
                w = WORDS.value(r, t, name)
                a[name] = a[name] if w is None else w
        # leaves that must or must not be renderable
        if t in ("inlineCard", "blockCard"):
            if fail:
                a.pop("url", None)
                if r.random() < 0.3:
                    a["url"] = None
            else:
                a.setdefault("url", self.url())
        if t == "media":
            if fail:
                a["type"] = r.choice(["external", "weird"])
                a.pop("url", None)
                if a["type"] == "weird":
                    a["url"] = self.url()
            elif a["type"] == "external":
                a.setdefault("url", self.url())
            elif a["type"] == "file":
                a.setdefault("id", self.uniq("id"))
        if t == "date" and fail:
            a["timestamp"] = r.choice(["abc", "", "12.5", "9" * 16, "-" + "9" * 16, "253402300800000", "-62135596800001", "--1", "9" * 60, "-" + "9" * 40, None, [], {}, "nan"])
        if t == "emoji" and fail:
            a["shortName"] = r.choice([None, 0, 5, True, [], [":a:"], {}, 1.5])
            a.pop("text", None)
            if r.random() < 0.5:
                a["text"] = r.choice([None, 0, False, []])
        items = list(a.items())
        r.shuffle(items)
        return dict(items)

    def mark(self, t):
        e = {"type": t}
        a = self.attrs("mark", t)
        if a is not None:
            e["attrs"] = a
        return e

    def marks(self, t):
        r = self.rng
        pool = list(self.schema["markof"].get(t, []))
        if not pool or r.random() >= self.p_mark:
            return None
        if t == "text" and r.random() < 0.5:
            pool = [m for m in pool if m in ("strong", "em", "strike", "code", "link", "underline")]
        n = r.choice([0, 1, 1, 1, 2, 2, 3, 4]) if t == "text" else r.choice([0, 1, 1, 2])
        if r.random() < 0.15:            # a mark type more than once
            return [self.mark(m) for m in r.choices(sorted(pool), k=n)] + [self.mark(r.choice(sorted(pool)))]
        return [self.mark(m) for m in r.sample(sorted(pool), min(n, len(pool)))]

    # -- elements --------------------------------------------------------------
    LEAVES = ("text", "hardBreak", "rule", "date", "emoji", "mention", "status", "inlineCard", "blockCard",
              "embedCard", "extension", "media", "mediaInline")
    FAILABLE = ("text", "date", "inlineCard", "blockCard", "media", "emoji")

    def element(self, t, depth=0, content=None, attrs=None, fail=None, silent=False):
        """An element of type t; content and attrs override the random choice."""
        r = self.rng
        self.budget -= 1
        k = self.schema["node"][t]
        if fail is None:
            fail = t in self.FAILABLE and r.random() < self.p_fail
        e = {"type": t}
        if t == "doc" and r.random() < 0.8:
            e["version"] = 1
        a = self.attrs("node", t, fail)
        if attrs is not None:
            a = dict(a or {}, **attrs)
        if a is not None:
            e["attrs"] = a
        if t == "text":
            e["text"] = self.text()
            m = self.marks("text")
            if fail:
                e["text"] = r.choice(["\n", "a\nb", self.word() + "\n" + self.word()])
                m = [x for x in (m or []) if x["type"] not in ("code", "link")] + [{"type": "code"}]
            elif m and any(x["type"] == "code" for x in m):
                e["text"] = e["text"].replace("\n", " ")
            if m is not None:
                e["marks"] = m
        elif k["marks"] != "NONE":
            m = self.marks(t)
            if m is not None:
                e["marks"] = m
        if k["content"] != "NONE":
            if content is None:
                content = self.kids(t, depth)
            if content is not None:
                e["content"] = content
            elif k["content"] == "REQ":
                e["content"] = []
        items = list(e.items())
        r.shuffle(items)
        return dict(items)

    HOSTS = ("doc", "expand", "nestedExpand", "panel", "blockquote", "listItem", "tableCell", "tableHeader")

    def children(self, t):
        """Types to put into an element of type t."""
        pool = self.schema["child"][t]
        if self.p_loose and self.rng.random() < self.p_loose and t != "codeBlock":
            if self.loose == "any":
                return sorted(set(self.schema["node"]) - {"doc"})
            if t in self.HOSTS:
                more = self.schema["child"]["paragraph"] if self.loose == "inline" else ["nestedExpand"]
                return sorted(set(self.schema["child"]["doc"]) | set(more))
        return sorted(pool)

    def kids(self, t, depth):
        r = self.rng
        k = self.schema["node"][t]
        if k["content"] == "OPT" and r.random() < self.p_empty:
            return None
        if r.random() < self.p_empty:
            return []
        pool = self.children(t)
        if depth >= self.maxdepth or self.budget <= 0:
            pool = [c for c in pool if c in self.LEAVES] or [c for c in pool if c in
                    ("paragraph", "codeBlock", "listItem", "taskItem", "decisionItem", "tableCell", "tableRow", "media")]
            n = 1 if pool else 0
            if depth >= self.maxdepth + 4:
                n = 0
        else:
            n = r.randint(1, self.maxkids)
        if not pool or not n:
            return []
        w = [self.weight.get(c, 1.0) * {"text": 4.0, "paragraph": 3.0, "hardBreak": 0.7, "tableHeader": 0.6}.get(c, 1.0) for c in pool]
        if sum(w) == 0:
            return []
        out = []
        for _ in range(n):
            c = r.choices(pool, w)[0]
            if t == "codeBlock":
                out.append(self.code_text())
            else:
                out.append(self.element(c, depth + 1))
        return out

    def code_text(self):
        r = self.rng
        lines = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
            lines.append(r.choice(["", " ", "    ", "\t", ""]) + r.choice([self.word(), self.word() + " = 1", "", "a|b", "\\n", "$x \\1", "``", "> q", "  "]) + r.choice(["", "", " ", "  "]))
        return {"type": "text", "text": "\n".join(lines) + r.choice(["", "", "\n", "\n\n"])}

    def doc(self, content=None):
        self.budget = self.budget0
        return self.element("doc", content=content)


# -- changes to a document -----------------------------------------------------
def walk(raw, cat="node"):
    """All elements of raw with their category, outermost first."""
    yield raw, cat
    for name in ("marks", "content"):
        v = raw.get(name)
        if isinstance(v, list):       # unknown fields of these names may hold anything
            for x in v:
                if isinstance(x, dict) and isinstance(x.get("type", ""), str):
                    yield from walk(x, "mark" if name == "marks" else "node")


UNKNOWN_TYPES = ["%s", "{x}", "a b", "\u00e9\u4f60", " text", "paragraph ", "None", "0", "a:b", "bulletlist", "date2", "madeUp", "Paragraph", "textt", "", "widget", "bodied", "strongg", "node", "mark", "TEXT", "table_row"]


class Spoiler:
    """Inserts unsupported elements, unknown fields, and defects."""

    def __init__(self, gen):
        self.g = gen
        self.rng = gen.rng
        self.schema = gen.schema
        self.names = sorted({x for c in ("node", "mark") for k in self.schema[c].values() for f in ("xreq", "areq", "aopt") for x in k[f]}
                            | {"type", "attrs", "content", "marks", "version"})

    def unsupported(self, cat):
        r = self.rng
        pool = list(self.schema["unsupported"]) + UNKNOWN_TYPES
        if r.random() < 0.25:
            pool = [w for w in (WORDS.new if WORDS.new and r.random() < 0.5 else TYPES + WORDS.old) if w not in self.schema[cat]] or pool
        # a supported type of the other category is unsupported here
        other = "mark" if cat == "node" else "node"
        pool += sorted(set(self.schema[other]) - set(self.schema[cat]))[:6]
        e = {"type": r.choice(sorted(pool))}
        if r.random() < 0.5:
            e["attrs"] = {"localId": self.g.uniq("x")}
        if cat == "node" and r.random() < 0.7:
            kids = [self.g.element(r.choice(["paragraph", "text", "bulletList"]), 6) for _ in range(r.randint(0, 2))]
            if r.random() < 0.4:
                kids.append({"type": r.choice(UNKNOWN_TYPES)})
            if r.random() < 0.3:
                kids.append({"type": "heading"})     # malformed, but inside a skipped element
            if r.random() < 0.2:
                kids.append({"notype": 1})
            e["content"] = kids
        if r.random() < 0.2:
            e["marks"] = [{"type": "nope"}, {"type": "strong"}]
        return e

    def insert_unsupported(self, raw, n):
        """Insert about n unsupported elements in place."""
        r = self.rng
        slots = []
        for e, cat in walk(raw):
            if cat != "node" or e.get("type") not in self.schema["node"]:
                continue
            k = self.schema["node"][e["type"]]
            if isinstance(e.get("content"), list) and k["content"] != "NONE":
                slots.append((e["content"], "node"))
            if k["marks"] != "NONE":
                if "marks" not in e and r.random() < 0.3:
                    e["marks"] = []
                if isinstance(e.get("marks"), list):
                    slots.append((e["marks"], "mark"))
        if not slots:
            return raw
        for _ in range(n):
            lst, cat = r.choice(slots)
            pos = r.choice([0, len(lst), r.randint(0, len(lst))])
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                lst.insert(pos, self.unsupported(cat))
        return raw

    def ignored(self, name):
        """A value for content or marks of an element that has none: like any other unknown field, it is not looked at."""
        r = self.rng
        if name == "content":
            return r.choice([[], "x", 3, None, {}, [self.g.element("text", 9)], [{"x": 1}], [5], [None], ["a"], [[]], [{"type": "heading"}],
                             [{"type": None}], [{"type": ["text"]}], [{"type": r.choice(UNKNOWN_TYPES)}], [self.unsupported("node")],
                             [{"type": "text", "text": "a"}, {"content": []}], {"type": "text", "text": "x"}])
        return r.choice([[], "x", 3, None, {}, [{"type": "em"}], [{"x": 1}], [5], [None], [{"type": "link"}], [{"type": "text"}], [{"type": {}}],
                         [{"type": r.choice(UNKNOWN_TYPES)}], [self.unsupported("mark")], [{"type": "strong"}, {"attrs": {}}]])

    def insert_unknown(self, raw):
        """Add unknown fields everywhere (in place)."""
        r = self.rng

        def add(d, known):
            absent = sorted(known - set(d))
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                name = r.choice((WORDS.new or WORDS.old or ["q"])[:200] if r.random() < 0.1 else ["zzz", "_x", "Type", "attr", "newField", "fields", "cls", "self", "kwargs", "to_dict",
                                 "to_markdown", "from_dict", "get_fields", "x-y", "", "class", "level", "url", "title", "text", "marks",
                                 "content", "attrs", "version", "__class__", "is_opt", "id", "language", "order"])
                if name in known or name in d:
                    continue
                if r.random() < 0.3 and absent:      # a name like one that could be there
                    name = r.choice(spelled_names(r.choice(absent)))
                    if name in known or name in d:
                        continue
                elif r.random() < 0.2:
                    name = r.choice([x for x in SYNONYMS if x not in known and x not in d])
                elif r.random() < 0.3:      # a name that other elements know
                    other = r.choice(self.names)
                    if other not in known and other not in d:
                        name = other
                v = self.g.anyval()
                if name in ("content", "marks"):
                    v = self.ignored(name)
                if name == "attrs":
                    v = r.choice([{}, {"a": 1}, "x", None, [1]])
                d[name] = v

        for e, cat in list(walk(raw)):
            k = self.schema[cat].get(e.get("type"))
            if k is None:
                continue
            known = {"type"} | set(k["xreq"])
            if e["type"] == "doc":
                known |= {"version"}
            if k["attrs"] != "NONE":
                known |= {"attrs"}
                if isinstance(e.get("attrs"), dict):
                    add(e["attrs"], set(k["areq"]) | set(k["aopt"]))
            if k["content"] != "NONE":
                known |= {"content"}
            if k["marks"] != "NONE":
                known |= {"marks"}
            add(e, known)
            items = list(e.items())
            r.shuffle(items)
            e.clear()
            e.update(items)
        return raw

    def defects(self, raw, cat="node"):
        """All ways to remove one required thing or a type: list of (element, how)."""
        out = []
        for e, cat in walk(raw, cat):
            k = self.schema[cat].get(e.get("type"))
            if k is None:
                continue
            out.append((e, "type", None))
            for x in k["xreq"]:
                out.append((e, "field", x))
            if k["attrs"] == "REQ":
                out.append((e, "field", "attrs"))
            if k["content"] == "REQ":
                out.append((e, "field", "content"))
            if isinstance(e.get("attrs"), dict):
                for x in k["areq"]:
                    out.append((e, "attr", x))
        return out

    @staticmethod
    def spoil(defect):
        e, how, name = defect
        if how == "type":
            e.pop("type", None)
        elif how == "field":
            e.pop(name, None)
        else:
            e["attrs"].pop(name, None)
