"""HTML -> canonical token list, the observable side of spec/Html.tla.

The canonical form abstracts from what no property talks about: white space
between blocks, the order of attributes, the way a character is escaped, the
actual numbers inside generated identifiers (they are renamed in the order of
their first appearance)."""
import html as _html
import re

VOID = {"br", "hr", "img", "col", "area", "input", "wbr", "link", "meta"}
BLOCK = set("p h1 h2 h3 h4 h5 h6 pre blockquote ul ol li dl dt dd table caption colgroup col thead tbody tfoot tr td th "
            "div hr br section article aside address details fieldset figure figcaption footer form header hgroup main "
            "menu nav template".split())
_TAG = re.compile(r"""<!--(?P<cmt>.*?)-->|</(?P<close>[A-Za-z][^\s<>/]*)\s*>|"""
                  r"""<(?P<open>[A-Za-z][^\s<>/"'=]*)(?P<atts>(?:\s+[^\s<>/"'=]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s"'=<>`]+))?)*)\s*(?P<sc>/?)>""",
                  re.S)
_ATT = re.compile(r"""([^\s<>/"'=]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'=<>`]+)))?""")


def unescape(s):
    return _html.unescape(s)


def tokenize(text, slash=False):
    """Strict tokenizer; a "<" which starts no tag becomes a "bad" token.
    With `slash`, a line break spelled <br /> has an attribute "/"."""
    out, pos = [], 0
    for m in _TAG.finditer(text):
        if m.start() > pos:
            _text(out, text[pos:m.start()])
        pos = m.end()
        if m.group("cmt") is not None:
            out.append(("m", m.group("cmt")))
        elif m.group("close"):
            out.append(("c", m.group("close").lower()))
        else:
            name, atts, dup = m.group("open").lower(), {}, False
            for a in _ATT.finditer(m.group("atts")):
                k = a.group(1).lower()
                v = next((x for x in a.groups()[1:] if x is not None), "")
                if k in atts:
                    dup = True
                atts[k] = unescape(v)
            if dup:
                out.append(("bad", "duplicate attribute in " + m.group(0)))
            if slash and name == "br" and m.group("sc"):
                atts["/"] = ""
            out.append(("v" if name in VOID else "o", name, atts))
    if pos < len(text):
        _text(out, text[pos:])
    return out


def _text(out, s):
    for i, piece in enumerate(re.split(r"(<)", s)):
        if piece == "<":
            out.append(("bad", "<"))
        elif piece:
            out.append(("t", unescape(piece)))


_GEN = re.compile(r"^(#?)(fnrev|fn|noteref|note)(.*)-(\d+)$", re.S)
_WS = re.compile(r"[ \t\r\n\f]+")


def canon(toks, uid, fold=False):
    # 1. merge text
    merged = []
    for t in toks:
        t = tuple(t)
        if t[0] == "t" and merged and merged[-1][0] == "t":
            merged[-1] = ("t", merged[-1][1] + t[1])
        else:
            merged.append(t)
    # 2. white space, attributes, identifiers
    ren, out, pre = {}, [], 0
    for i, t in enumerate(merged):
        if t[0] == "t":
            s = t[1]
            if not pre:
                s = _WS.sub(" ", s)
                prev = merged[i - 1] if i else None
                nxt = merged[i + 1] if i + 1 < len(merged) else None
                if prev is None or (prev[0] in "ocv" and prev[1] in BLOCK):
                    s = s.lstrip(" ")
                if nxt is None or (nxt[0] in "ocv" and nxt[1] in BLOCK):
                    s = s.rstrip(" ")
            if fold:
                s = s.translate({0x201c: '"', 0x201d: '"', 0x2018: "'", 0x2019: "'"})
            if s:
                out.append(("t", s))
        elif t[0] in ("o", "v"):
            if t[1] == "pre":
                pre += 1
            atts = {}
            for k, v in (t[2].items() if t[2] else []):
                if k == "style":
                    v = "; ".join(sorted(x.strip() for x in v.split(";") if x.strip()))
                elif k == "class":
                    v = " ".join(v.split())
                elif k in ("id", "href"):
                    m = _GEN.match(v)
                    if m and (m.group(3) == uid or uid == "*"):
                        n = ren.setdefault((m.group(3), m.group(4)), len(ren) + 1)
                        v = "%s%s~%d" % (m.group(1), m.group(2), n)
                atts[k] = v
            out.append((t[0], t[1], atts))
        else:
            if t[0] == "c" and t[1] == "pre":
                pre -= 1
            out.append(t)
    return out


def show(toks):
    r = []
    for t in toks:
        if t[0] == "t":
            r.append(t[1])
        elif t[0] == "c":
            r.append("</%s>" % t[1])
        elif t[0] in "ov":
            r.append("<%s%s>" % (t[1], "".join(" %s=%r" % kv for kv in sorted(t[2].items()))))
        else:
            r.append("{%s:%s}" % t)
    return "".join(r)


def anonymous(html, uid):
    """The result with the prefix of the generated identifiers taken away."""
    if uid == "*":
        m = re.search(r'(?:id|href)="#?(?:fnrev|fn|noteref|note)([0-9a-f]+)-\d+"', html)
        uid = m.group(1) if m else None
    for x in {uid, _html.escape(uid)} if uid else ():
        html = re.sub(r'((?:id|href)="#?(?:fnrev|fn|noteref|note))%s(-\d+")' % re.escape(x), r"\1?\2", html)
    return html
