"""A dictionary for the generators: words of the domain, and the string and number literals of the code under test.

Only inputs are chosen by it, as a fuzzer's dictionary does; what the code does with them is judged by the specification.
Literals that the code did not have when this was written (literals.json) are tried more thoroughly.

usage: words.py    rewrites literals.json from the current tree
"""
import ast
import json
import os

import common as K

FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "literals.json")

LANGUAGES = """abap actionscript ada applescript arduino autoit bash c c++ clojure coffeescript coldfusion cpp c# csharp css cuda d dart delphi diff
elixir erl erlang fortran foxpro go golang graphql groovy handlebars haskell haxe html http java javafx javascript js json jsx julia kotlin latex less livescript
lua markdown mathematica matlab mermaid none objective-c objectivec objectpascal ocaml octave pascal perl php plain plaintext plantuml powershell prolog
protobuf puppet py python py3 qml r racket rb restructuredtext ruby rust sass scala scheme sh shell smalltalk splunk-spl sql standardml swift
tcl tex text toml ts tsx typescript txt v vala vb vbnet verilog vhdl visualbasic xml xquery yaml yml zsh actionscript3 vb.net f# jinja dockerfile text/plain""".split()
EMOJI = ["smile", "grinning", "slight_smile", "thumbsup", "+1", "-1", "heart", "warning", "white_check_mark", "check_mark", "cross_mark", "x", "info", "bulb", "star", "tada", "question", "note", "plus", "minus",
         "blue_star", "atlassian-check_mark", "atlassian-cross_mark", "atlassian-info", "light_bulb_on", "flag_us", "joy", "fire", "eyes", "rocket", "custom_1"]
MACROS = ["toc", "anchor", "info", "note", "tip", "warning", "panel", "expand", "excerpt", "excerpt-include", "include", "children", "pagetree", "jira", "status", "code", "noformat", "details", "detailssummary",
          "recently-updated", "contentbylabel", "gallery", "attachments", "viewpdf", "iframe", "html", "html-include", "markdown", "chart", "drawio", "mermaid", "math", "task-report", "user", "profile", "livesearch", "page", "section", "column", "div", "span", "hidden"]
URLS = ["https://x.atlassian.net/browse/ABC-1", "https://x.atlassian.net/wiki/spaces/S/pages/1/Title+x", "https://x.atlassian.net/wiki/x/AbC", "https://www.youtube.com/watch?v=a", "https://youtu.be/a", "https://github.com/a/b/pull/1",
        "http://localhost:8080/", "https://localhost", "http://127.0.0.1/a", "mailto:a@b.c", "tel:+1", "#anchor", "#", "/wiki/x", "./a.md", "../a", "a.md", "www.a.b", "a", "", " ", "javascript:void(0)", "data:image/png;base64,AA==", "blob:https://a.b/c",
        "file:///a/b", "ftp://a.b/c", "https://a.b/c.png", "https://a.b/c.mp4", "https://a.b/c.pdf", "https://a.b/(c)", "https://a.b/c d", "https://a.b/c?d=e f", "https://a.b/c?d=[e]", "<https://a.b>", "https://a.b/\u00e9", "https://a.b/%C3%A9", "https://a.b//c/", "HTTPS://A.B/C",
        "https://u:p@a.b/", "https://a.b/c#d", "https://a.b/c|d", "https://a.b/\"c\"", "ari:cloud:jira::site/1", "https://api.media.atlassian.com/file/1", "media:1", "cid:1", "//a.b/c", "urn:a:b", "slack://c", "null", "undefined"]
# words per attribute: of (type, attribute), or of the attribute in all types
VOCAB = {
    "language": LANGUAGES + [x.upper() for x in LANGUAGES[::5]] + [x.capitalize() for x in LANGUAGES[::4]],
    "shortName": [":%s:" % x for x in EMOJI] + ["smile", ":a b:", "::", ":A:", ":smile", "smile:", ":skin-tone-2:", ":thumbsup::skin-tone-3:"],
    "extensionKey": MACROS + [x.upper() for x in MACROS[::6]],
    "extensionType": ["com.atlassian.confluence.macro.core", "com.atlassian.confluence.migration", "com.atlassian.ecosystem", "com.atlassian.chart", "com.atlassian.jira.macro", "core", "forge", "connect", "inline", "block"],
    "url": URLS, "href": URLS,
    "userType": ["DEFAULT", "SPECIAL", "APP", "default", "app", "GUEST"], "accessLevel": ["NONE", "SITE", "APPLICATION", "CONTAINER", "none", ""],
    "style": ["bold", "subtle", "mixedCase", "italic", "default", ""], "color": ["neutral", "purple", "blue", "red", "yellow", "green", "grey", "#ffffff", "#000000", "#FFF", "transparent", "white", "inherit"],
    "background": ["#ffffff", "#deebff", "red", "#f4f5f7", "transparent", ""], "panelColor": ["#ffffff", "red", "#deebff"], "panelIcon": [":smile:", ":warning:", "atlassian-info"], "panelIconText": ["\U0001f600", "!", "x"],
    "panelType": ["info", "note", "tip", "warning", "error", "success", "custom", "INFO", "Note", "important", "caution", "danger", "attention", "quote", ""],
    "align": ["center", "end", "start", "left", "right", "justify"], "mode": ["wide", "full-width", "default"], "layout": ["wide", "full-width", "center", "wrap-right", "wrap-left", "align-end", "align-start", "default", ""],
    "displayMode": ["default", "fixed"], "widthType": ["percentage", "pixel"], "annotationType": ["inlineComment", "highlight", ""], "title": ["Details", "Click here to expand...", "Notes:", "x", "", "**b**", "a:"],
    "alt": ["image", "image.png", "Screenshot 2020-01-01 at 1.png", "IMG_0001.JPG", "media", "null", "undefined", "alt", "a.b.c", "photo of a [b]", ""],
    "id": ["all", "here", "team", "unassigned", "0", "id", "UNKNOWN_MEDIA_ID", "712020:1f2e3d", "1f600", "atlassian-check_mark", "00000000-0000-0000-0000-000000000000", ""],
    "localId": ["0", "null", "00000000-0000-0000-0000-000000000000", "id", ""], "collection": ["contentId-1", "MediaServicesSample", "jira", ""],
    "occurrenceKey": ["1", ""], "name": ["n", ""], "mediaType": ["image/png", "video/mp4"], "fileName": ["a.png"],
    ("status", "text"): ["DONE", "TO DO", "IN PROGRESS", "In Progress", "done", "n/a", "a b", "RED", "0"], ("mention", "text"): ["@all", "@here", "@Unknown", "@", "all", "@a b", "@unassigned", "@Deleted User", "@Former user (Deleted)"],
    ("emoji", "text"): ["\U0001f600", ":)", ":smile:", "\u2705", "\u26a0\ufe0f", "!", "\U0001f44d\U0001f3fd"], ("extension", "text"): ["toc", "[x]", "Table of contents", "macro"],
}
TYPES = """bold italic b i u s del ins strikethrough underlined monospace highlight a anchor hyperlink img picture video audio iframe p div span br hr h1 h2 h3 ul ol li dl dt dd
pre blockQuote quote code_block codeblock code-block bullet_list ordered_list list_item list unorderedList numberedList checklist todo todoList task_list task decision decision_list hard_break linebreak newline softBreak
horizontalRule horizontal_rule divider thematicBreak table_cell table_header tr td th row cell column thead tbody section columns layout macro inlineMacro inlineCode code_inline card smartLink smart-card file attachment mediaItem
applicationCard unknown unsupported unsupportedBlock unsupportedInline unsupportedMark unsupportedNodeAttribute confluenceUnsupportedBlock confluenceUnsupportedInline confluenceJiraIssue slackEmoji color fontSize fontFamily superscript subscript
doc2 document root page body paragraphs plainText textNode string number object null undefined list-item multiBodiedExtension extensionFrame blockTaskItem2 collapse details summary footnote math latex equation poll""".split()
TYPES += ["x" * 60, "com.example.confluence.plugins.really-long-name-of-an-element:with-a-module-key", "a" * 300, "t y p e", "\u00e9l\u00e9ment", "\U0001f600"]
SIZES = [65, 101]


def literals(repo):
    """Strings and numbers written in the package, except for docstrings."""
    strs, ints = set(), set()
    top = os.path.join(repo, "atlas_doc_parser")
    for d, _, files in os.walk(top):
        if os.path.relpath(d, top).split(os.sep)[0] in ("tests", "vendor", "docs"):
            continue
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            try:
                tree = ast.parse(open(os.path.join(d, f), encoding="utf-8").read())
            except (SyntaxError, ValueError, OSError):
                continue
            skip = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr)}
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and id(n) not in skip:
                    if isinstance(n.value, str):
                        strs.add(n.value)
                    elif type(n.value) is int:
                        ints.add(abs(n.value))
                    elif isinstance(n.value, float) and n.value == int(n.value):
                        ints.add(int(n.value))
    return strs, ints


class Words:
    def __init__(self, repo):
        strs, ints = literals(repo)
        base = json.load(open(FILE))

        def usable(w):
            return w and len(w) <= 200 and "Zw" not in w and not any(0xd800 <= ord(c) < 0xe000 for c in w)
        self.new = sorted(w for w in strs - set(base["strings"]) if usable(w))
        self.old = sorted(w for w in strs & set(base["strings"]) if usable(w) and len(w) <= 40)
        self.sizes = sorted(n for n in ints - set(base["ints"]) if 2 <= n <= 3000)

    def some(self, r, n):
        """Some words: all that are new, if there are not too many, and some of the others."""
        out = list(self.new) if len(self.new) <= 60 else r.sample(self.new, 60)
        return out + r.sample(self.old, min(n, len(self.old)))

    def value(self, r, t, name):
        """A word for an attribute, or None."""
        own = VOCAB.get((t, name)) or VOCAB.get(name)
        if name == "panelType":
            return r.choice(own)
        x = r.random()
        if self.new and x < 0.5:
            return r.choice(self.new)
        if own and x < 0.9:
            return r.choice(own)
        return r.choice(self.old) if self.old else None


WORDS = Words(K.REPO)

if __name__ == "__main__":
    s, i = literals(K.REPO)
    json.dump({"strings": sorted(s), "ints": sorted(i)}, open(FILE, "w"), indent=0)
