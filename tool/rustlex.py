"""A small Rust lexer and item index, used to pull functions and types out of
/repo's current source byte-for-byte.  No network, no dependencies."""
import re

IDENT = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")
NUM = re.compile(r"[0-9][0-9A-Za-z_]*(\.[0-9][0-9A-Za-z_]*)?")


class Tok:
    __slots__ = ("k", "s", "a", "b")

    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b = k, s, a, b

    def __repr__(self):
        return f"{self.k}:{self.s!r}"


PUNCT3 = ("..=", "...", "<<=", ">>=")
PUNCT2 = ("::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=",
          "^=", "&=", "|=", "..")


def lex(src, keep_comments=False):
    """Tokens of src.  kinds: id, life, num, str, chr, p (punct), c (comment)."""
    out = []
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if c in " \t\r\n":
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
            if keep_comments:
                out.append(Tok("c", src[i:j], i, j))
            i = j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j):
                    d += 1
                    j += 2
                elif src.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            if keep_comments:
                out.append(Tok("c", src[i:j], i, j))
            i = j
            continue
        m = re.compile(r'(b|c|br|cr|r)?(#*)"').match(src, i)
        if m and (m.group(1) or not m.group(2)) and not (m.group(2) and 'r' not in (m.group(1) or '')):
            raw = 'r' in (m.group(1) or '')
            j = m.end()
            if raw:
                end = '"' + m.group(2)
                j = src.index(end, j) + len(end)
            else:
                while src[j] != '"':
                    j += 2 if src[j] == "\\" else 1
                j += 1
            out.append(Tok("str", src[i:j], i, j))
            i = j
            continue
        if c == "'" or src.startswith("b'", i):
            k = i + (2 if c == "b" else 1)
            if src[k] == "\\":
                j = k + 2
                while src[j] != "'":
                    j += 1
                out.append(Tok("chr", src[i:j + 1], i, j + 1))
                i = j + 1
                continue
            if k + 1 < n and src[k + 1] == "'":
                out.append(Tok("chr", src[i:k + 2], i, k + 2))
                i = k + 2
                continue
            m = IDENT.match(src, k)
            if m:
                out.append(Tok("life", src[i:m.end()], i, m.end()))
                i = m.end()
                continue
            j = src.index("'", k)
            out.append(Tok("chr", src[i:j + 1], i, j + 1))
            i = j + 1
            continue
        m = IDENT.match(src, i)
        if m:
            if m.group() == "r" and src.startswith("r#", i):
                m2 = IDENT.match(src, i + 2)
                if m2:
                    out.append(Tok("id", src[i:m2.end()], i, m2.end()))
                    i = m2.end()
                    continue
            out.append(Tok("id", m.group(), i, m.end()))
            i = m.end()
            continue
        if c.isdigit():
            m = NUM.match(src, i)
            s = m.group()
            # 1..2 and 1.method()
            out.append(Tok("num", s, i, i + len(s)))
            i += len(s)
            continue
        for p in PUNCT3 + PUNCT2:
            if src.startswith(p, i):
                out.append(Tok("p", p, i, i + len(p)))
                i += len(p)
                break
        else:
            out.append(Tok("p", c, i, i + 1))
            i += 1
    return out


OPEN, CLOSE = {"(": ")", "[": "]", "{": "}"}, {")", "]", "}"}


def match_close(toks, i):
    """index of the token closing the bracket at toks[i]"""
    d = 0
    for j in range(i, len(toks)):
        s = toks[j].s if toks[j].k == "p" else None
        if s in OPEN:
            d += 1
        elif s in CLOSE:
            d -= 1
            if d == 0:
                return j
    raise ValueError("unbalanced")


def skip_generics(toks, i):
    """toks[i] is '<': index after the matching '>'"""
    d = 0
    while i < len(toks):
        s = toks[i].s
        if toks[i].k == "p":
            if s == "<":
                d += 1
            elif s == ">":
                d -= 1
                if d == 0:
                    return i + 1
            elif s in OPEN:
                i = match_close(toks, i)
        i += 1
    raise ValueError("generics")


class Item:
    def __init__(self, kind, name, owner, trait, toks, start, end, body, file, src, attrs):
        self.kind, self.name, self.owner, self.trait = kind, name, owner, trait
        self.toks, self.start, self.end, self.body = toks, start, end, body  # token indexes, body = index of '{'
        self.file, self.src, self.attrs = file, src, attrs

    @property
    def text(self):
        return self.src[self.toks[self.start].a:self.toks[self.end].b]

    @property
    def line(self):
        return self.src.count("\n", 0, self.toks[self.start].a) + 1

    @property
    def key(self):
        return (self.owner + "::" if self.owner else "") + self.name


def index_file(path, src=None):
    src = open(path).read() if src is None else src
    toks = lex(src)
    items = []
    _scan(toks, 0, len(toks), None, None, items, path, src)
    return items


def _scan(toks, i, end, owner, trait, items, path, src):
    attrs = []
    while i < end:
        t = toks[i]
        if t.k == "p" and t.s == "#":
            j = i + 1
            if toks[j].s == "!":
                j += 1
            c = match_close(toks, j)
            attrs.append(src[t.a:toks[c].b])
            i = c + 1
            continue
        start = i
        # visibility and qualifiers
        if t.k == "id" and t.s == "pub":
            i += 1
            if toks[i].s == "(":
                i = match_close(toks, i) + 1
        while i < end and toks[i].s in ("async", "unsafe", "default", "extern") or (
                toks[i].s == "const" and i + 1 < end and toks[i + 1].s in ("fn", "async", "unsafe")):
            i += 1
            if toks[i].k == "str":
                i += 1
        if i >= end:
            break
        t = toks[i]
        is_test = any("cfg(test)" in a.replace(" ", "") or "cfg(all(test" in a.replace(" ", "") for a in attrs)
        if t.s == "mod" and toks[i + 1].k == "id":
            name = toks[i + 1].s
            if toks[i + 2].s == ";":
                i += 3
            else:
                c = match_close(toks, i + 2)
                if not is_test:
                    _scan(toks, i + 3, c, owner, trait, items, path, src)
                i = c + 1
            attrs = []
            continue
        if t.s == "impl":
            j = i + 1
            if toks[j].s == "<":
                j = skip_generics(toks, j)
            hdr = []
            depth = 0
            forpos = None
            while True:
                s = toks[j].s
                if toks[j].k == "p":
                    if s == "{" and depth == 0:
                        break
                    if s == "<":
                        depth += 1
                    elif s == ">":
                        depth -= 1
                    elif s in ("(", "["):
                        j = match_close(toks, j)
                elif depth == 0 and s == "for" and toks[j + 1].s != "<":
                    forpos = len(hdr)
                elif depth == 0 and s == "where":
                    while not (toks[j].s == "{"):
                        j += 1
                    break
                if depth == 0 and toks[j].k == "id":
                    hdr.append(toks[j].s)
                j += 1
            if forpos is not None:
                tr = [x for x in hdr[:forpos] if x not in ("dyn", "for")]
                ty = [x for x in hdr[forpos:] if x not in ("dyn", "for", "mut")]
            else:
                tr, ty = [], hdr
            c = match_close(toks, j)
            if not is_test:
                _scan(toks, j + 1, c, ty[-1] if ty else "?", tr[-1] if tr else None, items, path, src)
            i = c + 1
            attrs = []
            continue
        if t.s == "trait" and toks[i + 1].k == "id":
            name = toks[i + 1].s
            j = i
            while toks[j].s != "{":
                j += 1
            c = match_close(toks, j)
            items.append(Item("trait", name, None, None, toks, start, c, j, path, src, attrs))
            _scan(toks, j + 1, c, name, None, items, path, src)
            i = c + 1
            attrs = []
            continue
        if t.s == "fn":
            name = toks[i + 1].s
            j = i + 2
            if toks[j].s == "<":
                j = skip_generics(toks, j)
            j = match_close(toks, j) + 1
            while toks[j].s not in ("{", ";"):
                if toks[j].s in ("(", "["):
                    j = match_close(toks, j)
                elif toks[j].s == "<":
                    j = skip_generics(toks, j) - 1
                j += 1
            if toks[j].s == ";":
                c, body = j, None
            else:
                c, body = match_close(toks, j), j
            if not is_test and not any(re.search(r"#\[(tokio::)?test", a) for a in attrs):
                items.append(Item("fn", name, owner, trait, toks, start, c, body, path, src, attrs))
            i = c + 1
            attrs = []
            continue
        if t.s in ("struct", "enum", "union") and toks[i + 1].k == "id":
            name = toks[i + 1].s
            j = i + 2
            while toks[j].s not in ("{", ";", "("):
                if toks[j].s == "<":
                    j = skip_generics(toks, j) - 1
                j += 1
            if toks[j].s == "{":
                c = match_close(toks, j)
            elif toks[j].s == "(":
                c = match_close(toks, j)
                while toks[c].s != ";":
                    c += 1
            else:
                c = j
            if not is_test:
                items.append(Item(t.s, name, owner, trait, toks, start, c, j, path, src, attrs))
            i = c + 1
            attrs = []
            continue
        if t.s in ("const", "static", "type", "use") or t.s == "macro_rules":
            j = i
            if t.s == "macro_rules":
                while toks[j].s not in OPEN:
                    j += 1
                c = match_close(toks, j)
                if toks[j].s != "{":
                    c += 1
            else:
                while toks[j].s != ";":
                    if toks[j].s in OPEN:
                        j = match_close(toks, j)
                    j += 1
                c = j
                nm = toks[i + 1].s
                if nm == "mut":
                    nm = toks[i + 2].s
                if not is_test and t.s in ("const", "static", "type"):
                    items.append(Item(t.s, nm, owner, trait, toks, start, c, None, path, src, attrs))
            i = c + 1
            attrs = []
            continue
        # item macro or something unknown: skip a token / bracket group
        if t.k == "p" and t.s in OPEN:
            i = match_close(toks, i) + 1
        else:
            i += 1
        if i < end and toks[i - 1].s in (";", "}"):
            attrs = []


if __name__ == "__main__":
    import sys
    for p in sys.argv[1:]:
        for it in index_file(p):
            print(f"{it.kind:7} {it.key}  {'[' + it.trait + ']' if it.trait else ''} {p}:{it.line}")
