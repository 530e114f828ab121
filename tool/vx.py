"""Contract weaver: pulls functions and types out of /repo's current source,
applies the documented mechanical rewrites, splices in the contracts of
/verif/contracts/<unit>.vrs and runs Verus on the result.

Template directives (lines starting with //@):
  //@include NAME                 splice contracts/prelude/NAME.vrs
  //@file PATH                    current source file (relative to the repo root)
  //@struct|enum|const|type NAME [derive=A,B] [opaque]   (const: [exec] and ` | P` for an ensured fact)
  //@fn [Owner::]NAME [trait=T] [nth=K] [as=NEWNAME]   followed by contract lines, up to //@end
Inside a //@fn block:
  (contract text: requires / ensures ... )
  @ret NAME                       name of the result (default r)
  @entry                          ghost code at the start of the body
  @loop N [iter=NAME]             loop N (1-based, source order): invariant / decreases text
  @loopbody N                     ghost code at the start of loop N's body
  @afterloop N                    ghost code right after loop N
  @rewrite A ==> B                token-pattern rewrite in this function only
  @prewrite A ==> B               the same, before every other rewrite
  @sig TEXT                       replaces the signature's parameter list and result (rare; reported)
  @trusted                        body not verified (external_body); reported as an assumption
  @when NAME ... (unused)
Rewrites that apply everywhere are in REWRITES below and are listed in DESIGN.md.
"""
import json
import os
import re
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rustlex  # noqa: E402
from rustlex import lex, match_close, OPEN  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONTRACTS = os.path.join(VERIF, "contracts")

LOG_MACROS = {"trace", "debug", "info", "warn", "error", "event", "println", "eprintln"}

# ---------------------------------------------------------------------------
# token-pattern rewriting:  $name matches one token tree-free token sequence
# ---------------------------------------------------------------------------


def untok(toks, src):
    """source text of toks with original spacing (comments dropped)"""
    out = []
    prev = None
    for t in toks:
        if prev is not None:
            gap = src[prev.b:t.a] if (t.a >= prev.b and prev.a >= 0 and t.a >= 0) else " "
            gap = "\n" * gap.count("\n") if "\n" in gap else (" " if gap else "")
            if gap.strip():
                gap = " "
            out.append(gap)
        out.append(t.s)
        prev = t
    return "".join(out)


def pattern(text):
    """tokens of a pattern; $x: one token; $*x: any balanced run (lazy, at depth 0); $(x): an argument
    list's inside.  Whitespace is irrelevant."""
    res = []
    ts = lex(text)
    i = 0
    while i < len(ts):
        if ts[i].s == "$":
            if ts[i + 1].s == "*":
                res.append(("many", ts[i + 2].s))
                i += 3
            else:
                res.append(("one", ts[i + 1].s))
                i += 2
        else:
            res.append(("lit", ts[i].s))
            i += 1
    return res


def match_at(pat, toks, i, env, pi=0):
    while pi < len(pat):
        kind, v = pat[pi]
        if kind == "lit":
            if i >= len(toks) or toks[i].s != v:
                return None
            i += 1
            pi += 1
        elif kind == "one":
            if i >= len(toks) or (toks[i].k == "p" and toks[i].s in "(){}[];,"):
                return None
            env[v] = (i, i + 1)
            i += 1
            pi += 1
        else:
            j = i
            while j <= len(toks):
                e2 = dict(env)
                e2[v] = (i, j)
                r = match_at(pat, toks, j, e2, pi + 1)
                if r is not None:
                    env.clear()
                    env.update(e2)
                    return r
                if j >= len(toks):
                    return None
                s = toks[j].s
                if toks[j].k == "p" and s in OPEN:
                    j = match_close(toks, j) + 1
                elif toks[j].k == "p" and (s in (")", "]", "}") or (s == ";" and not (
                        pi + 1 < len(pat) and pat[pi + 1] == ("lit", "}")))):
                    return None
                else:
                    j += 1
            return None
    return i


def rewrite(src, pat_text, rep, count=None):
    """apply one token rewrite everywhere; returns (new source, number of matches)"""
    pat = pattern(pat_text)
    n = 0
    pos = 0
    own = []    # stretches written by the replacement itself: a match never starts there
    while True:
        toks = lex(src)
        hit = None
        for i in range(len(toks)):
            if toks[i].a < pos:
                continue
            if pat[0][0] == "lit" and toks[i].s != pat[0][1]:
                continue
            if any(x <= toks[i].a < y for x, y in own):
                continue
            env = {}
            e = match_at(pat, toks, i, env)
            if e is not None:
                hit = (i, e, env)
                break
        if not hit:
            return src, n
        i, e, env = hit
        a, b = toks[i].a, toks[e - 1].b
        new, last, mine = "", 0, []
        for m in re.finditer(r"\$\*?([A-Za-z_][A-Za-z0-9_]*)", rep):
            lit = rep[last:m.start()]
            if lit:
                mine.append((a + len(new), a + len(new) + len(lit)))
                new += lit
            x, y = env[m.group(1)]
            new += "" if x == y else src[toks[x].a:toks[y - 1].b]
            last = m.end()
        if rep[last:]:
            mine.append((a + len(new), a + len(new) + len(rep[last:])))
            new += rep[last:]
        src = src[:a] + new + src[b:]
        d = len(new) - (b - a)
        own = [(x + d, y + d) if x >= b else (x, y) for x, y in own if not (a <= x < b)] + mine
        pos = a
        n += 1
        if n > 500:
            return src, n


def strip_comments(src):
    toks = lex(src, keep_comments=True)
    out, p = [], 0
    for t in toks:
        if t.k == "c":
            out.append(src[p:t.a])
            out.append("\n" * t.s.count("\n") if "\n" in t.s else " ")
            p = t.b
    out.append(src[p:])
    return "".join(out)


def strip_attrs(src):
    while True:
        toks = lex(src)
        for i, t in enumerate(toks):
            if t.s == "#" and t.k == "p" and i + 1 < len(toks) and toks[i + 1].s in ("[", "!"):
                j = i + 1 if toks[i + 1].s == "[" else i + 2
                c = match_close(toks, j)
                src = src[:t.a] + src[toks[c].b:]
                break
        else:
            return src


def strip_logging(src, dropped):
    """tracing::warn!(..); warn!(..); ... as statements"""
    while True:
        toks = lex(src)
        for i, t in enumerate(toks):
            if t.k == "id" and t.s in LOG_MACROS and i + 2 < len(toks) and toks[i + 1].s == "!" \
                    and toks[i + 2].s in OPEN:
                a = i
                if i >= 2 and toks[i - 1].s == "::" and toks[i - 2].s in ("tracing", "log"):
                    a = i - 2
                if a > 0 and toks[a - 1].s not in (";", "{", "}", "=>"):
                    continue
                c = match_close(toks, i + 2)
                e = toks[c].b
                if c + 1 < len(toks) and toks[c + 1].s == ";":
                    e = toks[c + 1].b
                    rep = ""
                else:
                    rep = "()"
                dropped["log"] = dropped.get("log", 0) + 1
                src = src[:toks[a].a] + rep + src[e:]
                break
        else:
            return src


def drop_macro_to(src, name, rep, dropped):
    """every name!(..) becomes rep"""
    while True:
        toks = lex(src)
        for i, t in enumerate(toks):
            if t.k == "id" and t.s == name and i + 2 < len(toks) and toks[i + 1].s == "!" and toks[i + 2].s in OPEN:
                c = match_close(toks, i + 2)
                dropped[name] = dropped.get(name, 0) + 1
                src = src[:t.a] + rep + src[toks[c].b:]
                break
        else:
            return src


def rust_lit(t):
    o = '"'
    for c in t:
        o += {"\\": "\\\\", '"': '\\"', "\n": "\\n", "\r": "\\r", "\t": "\\t", "\0": "\\0"}.get(c, c)
    return o + '"'


def expand_fmt(src, count):
    """format!/write!/writeln! with a literal format string -> one call per literal piece and per argument"""
    while True:
        toks = lex(src)
        for i, t in enumerate(toks):
            if not (t.k == "id" and t.s in ("format", "write", "writeln") and i + 2 < len(toks) and toks[i + 1].s == "!"
                    and toks[i + 2].s == "("):
                continue
            c = match_close(toks, i + 2)
            args, st, d = [], i + 3, 0
            for j in range(i + 3, c + 1):
                if j == c or (toks[j].s == "," and d == 0):
                    if st < j:
                        args.append(src[toks[st].a:toks[j - 1].b])
                    st = j + 1
                elif toks[j].s in ("(", "[", "{"):
                    d += 1
                elif toks[j].s in (")", "]", "}"):
                    d -= 1
            dest = None
            if t.s != "format":
                dest = re.sub(r"^&mut\s+", "", args.pop(0))
            if not args or not args[0].startswith('"'):
                continue
            lit = re.sub(r"\\\n\s*", "", args.pop(0))[1:-1]
            lit = re.sub(r"\\(.)", lambda m: {"n": "\n", "r": "\r", "t": "\t", "0": "\0"}.get(m[1], m[1]), lit)
            if t.s == "writeln":
                lit += "\n"
            tgt = dest or "s__"
            out, k, text = [], 0, ""
            for m in re.finditer(r"\{\{|\}\}|\{([^{}]*)\}|[^{}]+", lit):
                if m[1] is None:
                    text += {"{{": "{", "}}": "}"}.get(m[0], m[0])
                    continue
                if text:
                    out.append(f"{tgt}.x_push({rust_lit(text)});")
                    text = ""
                nm, _, sp = m[1].partition(":")
                if nm == "":
                    a = args[k]
                    k += 1
                elif nm.isdigit():
                    a = args[int(nm)]
                else:
                    a = next((re.sub(r"^\w+\s*=\s*", "", x) for x in args if re.match(nm + r"\s*=[^=]", x)), nm)
                fn = {"": "x_fmt", "?": "x_dbg"}.get(sp)
                if fn:
                    out.append(f"{tgt}.{fn}(&({a}));")
                else:
                    out.append(f"{tgt}.x_fmt_as(&({a}), {rust_lit(sp)});")
            if text:
                out.append(f"{tgt}.x_push({rust_lit(text)});")
            if dest is None:
                rep = "{ let mut s__ = String::new(); " + " ".join(out) + " s__ }"
            else:
                rep = "{ " + " ".join(out) + " Ok::<(), FmtErr>(()) }"
            count[t.s + "! => one call per piece"] = count.get(t.s + "! => one call per piece", 0) + 1
            src = src[:t.a] + rep + src[toks[c].b:]
            break
        else:
            return src


# (pattern, replacement, why) applied to every extracted function
REWRITES = [
    (". await", "", "async erased: .await dropped, async fn becomes fn (each await is an atomic step)"),
    (". parse :: < $t > ( )", ".xp_$t()", "str::parse::<T> through the contract stub xp_T"),
    (". split_whitespace ( ) . collect ( )", ".x_split_ws()", "whitespace split collected into a vector"),
]


class Anchor(Exception):
    pass


class Unit:
    def __init__(self, name, force=()):
        self.name = name
        self.force = set(force)  # functions whose body Verus cannot read: contract assumed, reported undecided
        self.lines = []          # generated lines
        self.fnmap = []          # (start line, end line, key, file, srcline)
        self.fns = []            # dicts
        self.trusted = []
        self.dropped = {}
        self.rewrites = {}
        self.lost = []
        self.index = {}
        self.file = None
        self.unit_rewrites = []
        self.forced_why = {}
        self.vac = False
        self.vac_end = None

    def emit(self, text):
        self.lines.extend(text.split("\n"))

    def items(self, path):
        if path not in self.index:
            p = os.path.join(REPO, path)
            if not os.path.exists(p):
                raise Anchor(f"file {path} is gone")
            self.index[path] = rustlex.index_file(p)
        return self.index[path]

    def find(self, kind, key, trait=None, nth=None):
        hits = [it for it in self.items(self.file) if it.kind == kind and it.key == key
                and (it.trait == trait or trait is None or trait == "*")]
        if kind == "fn":
            hits = [h for h in hits if h.body is not None]
        if trait is None and len(hits) > 1:
            h2 = [h for h in hits if h.trait is None]
            hits = h2 or hits
        if nth is not None and len(hits) > nth:
            return hits[nth]
        if not hits:
            raise Anchor(f"{kind} {key} not found in {self.file}")
        return hits[0]

    # -- items --------------------------------------------------------------
    def do_item(self, kind, args, ens=""):
        name = args[0]
        opts = dict(a.split("=", 1) if "=" in a else (a, True) for a in args[1:])
        it = self.find(kind, name)
        src = strip_attrs(strip_comments(it.text))
        for pat, rep in self.unit_rewrites:
            src, n = rewrite(src, pat, rep)
        if kind in ("struct", "enum") and "keepvis" not in opts:
            src = self.all_pub(src)
        if kind == "const" and not src.startswith("pub"):
            src = "pub " + src
        if kind == "const":
            src = re.sub(r"^pub(\([a-z]+\))?", "pub exec" if "exec" in opts else "pub", src)
        if kind == "const" and ens:
            m = re.match(r"(.*?)=(.*);\s*$", src, re.S)
            src = f"{m.group(1)} ensures {ens} {{ {m.group(2)} }}"
        attrs = ""
        if "derive" in opts:
            attrs += f"#[derive({opts['derive']})]\n"
        if "external" in opts:
            attrs += "#[verifier::external_body]\n"
        self.emit(attrs + src)
        if "ordlex" in opts:
            self.emit(self.ordlex(it, name, opts["ordlex"]))

    def ordlex(self, it, name, fn):
        """the order derive(PartialOrd, Ord) gives: lexicographic over the fields as declared (up to the first
        field that is not an unsigned integer).  Nothing is emitted when the order is not derived."""
        text = strip_comments(it.text)
        whole = strip_comments(open(os.path.join(REPO, self.file)).read())
        m = re.search(r"derive\(([^)]*)\)", text)
        if not m:
            i = whole.find(strip_attrs(text).strip()[:60])
            m = re.search(r"derive\(([^)]*)\)\]\s*(?:#\[[^\]]*\]\s*)*$", whole[:i] if i >= 0 else "")
        ds = [x.strip() for x in m.group(1).split(",")] if m else []
        if "Ord" not in ds or "PartialOrd" not in ds or re.search(r"impl\s+(Partial)?Ord\s+for\s+" + name + r"\b", whole):
            return ""
        body = strip_attrs(text)
        fields = re.findall(r"(?:pub(?:\([a-z]+\))?\s+)?([a-z_]+)\s*:\s*([A-Za-z0-9_:<>]+)\s*[,}]", body[body.index("{"):])
        e = "true"
        use = []
        for f, ty in fields:
            if ty not in ("u8", "u16", "u32", "u64", "usize"):
                break
            use.append(f)
        for f in reversed(use):
            e = f"(a.{f} < b.{f} || (a.{f} == b.{f} && {e}))"
        return f"/// derived Ord of {name}, leading integer fields\npub open spec fn {fn}(a: {name}, b: {name}) -> bool {{ {e} }}\n"

    def all_pub(self, src):
        src = re.sub(r"\bpub\s*\([a-z ]+\)\s*", "pub ", src)
        if not src.startswith("pub"):
            src = "pub " + src
        toks = lex(src)
        if "struct" in [t.s for t in toks[:3]]:
            # make fields pub
            ins = []
            for i, t in enumerate(toks):
                if t.s in ("{", "(") and t.k == "p":
                    c = match_close(toks, i)
                    j = i + 1
                    start = True
                    while j < c:
                        if start and toks[j].s != "pub":
                            ins.append(toks[j].a)
                        start = False
                        if toks[j].s == "<":
                            j = rustlex.skip_generics(toks, j)
                            continue
                        if toks[j].s in OPEN:
                            j = match_close(toks, j)
                        elif toks[j].s == ",":
                            start = True
                        j += 1
                    break
            for p in reversed(ins):
                src = src[:p] + "pub " + src[p:]
        return src

    # -- functions ------------------------------------------------------------
    def do_fn(self, args, block):
        key = args[0]
        opts = dict(a.split("=", 1) if "=" in a else (a, True) for a in args[1:])
        it = self.find("fn", key, opts.get("trait"), int(opts["nth"]) if "nth" in opts else None)
        if "as" in opts:
            key = "::".join(key.split("::")[:-1] + [opts["as"]])
        sect, ret = self.parse_block(block)
        src = strip_attrs(strip_comments(it.text))
        src = strip_logging(src, self.dropped)
        if sect.get("fmt"):
            src = expand_fmt(src, self.rewrites)
        local_rw = [r for r in sect["rewrite"]]
        for pat, rep in sect["prewrite"]:
            src, n = rewrite(src, pat, rep)
            if n:
                self.rewrites[f"{pat} => {rep}"] = self.rewrites.get(f"{pat} => {rep}", 0) + n
        for pat, rep, why in REWRITES:
            src, n = rewrite(src, pat, rep)
            if n:
                self.rewrites[f"{pat} => {rep}"] = self.rewrites.get(f"{pat} => {rep}", 0) + n
        for pat, rep in self.unit_rewrites + local_rw:
            src, n = rewrite(src, pat, rep)
            if n:
                k = f"{pat} => {rep}"
                self.rewrites[k] = self.rewrites.get(k, 0) + n
        toks = lex(src)
        # qualifiers
        fi = next(i for i, t in enumerate(toks) if t.s == "fn")
        j = fi + 2
        gen = ""
        if toks[j].s == "<":
            e = rustlex.skip_generics(toks, j)
            gen = src[toks[j].a:toks[e - 1].b]
            j = e
        pe = match_close(toks, j)
        params = src[toks[j].a:toks[pe].b]
        k = pe + 1
        bi = k
        while toks[bi].s != "{":
            if toks[bi].s in ("(", "["):
                bi = match_close(toks, bi)
            elif toks[bi].s == "<":
                bi = rustlex.skip_generics(toks, bi) - 1
            bi += 1
        wi = next((x for x in range(k, bi) if toks[x].s == "where"), bi)
        rty, where = "", ""
        if k < wi and toks[k].s == "->":
            rty = src[toks[k + 1].a:toks[wi - 1].b]
        if wi < bi:
            where = src[toks[wi].a:toks[bi - 1].b]
        be = match_close(toks, bi)
        body = src[toks[bi].a:toks[be].b]
        # mut self
        m = re.match(r"\(\s*mut\s+self\b", params)
        entry_pre = ""
        if m:
            params = "(self" + params[m.end():]
            body = re.sub(r"\bself\b", "self_", body)
            entry_pre = "let mut self_ = self;"
            self.rewrites["mut self => let mut self_ = self"] = self.rewrites.get("mut self => let mut self_ = self", 0) + 1
        if sect.get("sig"):
            sigtext = sect["sig"].strip()
            sigtext_, w_, where2 = sigtext.partition(" where ")
            if w_:
                where = "where " + where2
            params, _, r2 = sigtext_.partition("->")
            params = params.strip()
            if params.startswith("<>"):
                gen, params = "", params[2:]
                if not w_:
                    where = ""
            rty = r2.strip()
            self.rewrites[f"signature of {key} => {sigtext}"] = 1
        if key in self.force:
            sect["trusted"] = True
            self._loops_found = 0
        else:
            try:
                body = self.do_loops(body, sect, key)
            except Anchor as e:
                self.force.add(key)
                self.forced_why[key] = str(e)
                sect["trusted"] = True
        if key in self.force:
            body = "{ unimplemented!() }"
            sect["entry"] = ""
        vac = ""
        contract = sect["contract"]
        if self.vac and not sect["trusted"]:
            vac = " assert(false); // VACUITY\n"
        if self.vac_end == key and not sect["trusted"]:
            contract = re.sub(r"\bensures\b", "ensures false,", contract, count=1) if re.search(r"\bensures\b", contract) \
                else contract + "\n ensures false"
        ent = entry_pre + " " + sect.get("entry", "") + vac
        body = "{ " + ent + body[1:]
        head = "pub fn " if not (opts.get("intrait") or opts.get("nopub")) else "fn "
        sig = head + opts.get("as", it.name) + gen + params
        if rty:
            sig += f" -> ({ret}: {rty})"
        a = len(self.lines) + 1
        txt = ""
        if sect["trusted"]:
            txt += "#[verifier::external_body]\n"
            self.trusted.append(f"{self.file}:{it.line} {key} (contract assumed, body not verified)")
        for at in sect["attr"]:
            txt += at + "\n"
        txt += sig + " " + where + "\n" + contract.rstrip() + "\n" + body
        self.emit(f"// <<< {self.file}:{it.line} {key}")
        self.emit(txt)
        self.fnmap.append((a, len(self.lines), key, self.file, it.line))
        self.fns.append(dict(key=key, name=it.name, owner=it.owner, file=self.file, line=it.line,
                             trusted=sect["trusted"], loops=self._loops_found, contract=contract,
                             exp_loops=sect["nloops"], trait=it.trait,
                             body=untok(lex(body), body), props=sect['props'],
                             src=strip_comments(it.text), src_norm=' '.join(t.s for t in lex(it.text))))

    def parse_block(self, block):
        sect = dict(contract="", rewrite=[], prewrite=[], trusted=False, loop={}, loopiter={}, loopbody={}, afterloop={},
                    attr=[], nloops=None, props=[])
        ret = "r"
        cur = ("contract", None)
        for ln in block:
            s = ln.strip()
            if s.startswith("@ret "):
                ret = s.split()[1]
                continue
            if s.startswith("@props "):
                sect["props"] = re.findall(r"P\d+", s)
                continue
            if s.startswith("@trusted"):
                sect["trusted"] = True
                continue
            if s.startswith("@loops "):
                sect["nloops"] = int(s.split()[1])
                continue
            if s.startswith("@attr "):
                sect["attr"].append(s[6:])
                continue
            if s.startswith("@rewrite "):
                p, r = s[9:].split("==>", 1)
                sect["rewrite"].append((p.strip(), r.strip()))
                continue
            if s.startswith("@prewrite "):
                p, r = s[10:].split("==>", 1)
                sect["prewrite"].append((p.strip(), r.strip()))
                continue
            if s.strip() == "@fmt":
                sect["fmt"] = True
                continue
            if s.startswith("@sig "):
                sect["sig"] = s[5:]
                continue
            if s.startswith("@entry"):
                cur = ("entry", None)
                sect.setdefault("entry", "")
                continue
            m = re.match(r"@(loop|loopbody|afterloop)\s+(\d+)(?:\s+iter=(\w+))?", s)
            if m:
                cur = (m.group(1), int(m.group(2)))
                if m.group(3):
                    sect["loopiter"][int(m.group(2))] = m.group(3)
                continue
            if cur[0] == "contract":
                sect["contract"] += ln + "\n"
            elif cur[0] == "entry":
                sect["entry"] += ln + "\n"
            else:
                sect[cur[0]][cur[1]] = sect[cur[0]].get(cur[1], "") + ln + "\n"
        return sect, ret

    def do_loops(self, body, sect, key):
        toks = lex(body)
        loops = []
        for i, t in enumerate(toks):
            if t.k == "id" and t.s in ("while", "loop", "for"):
                if t.s == "for" and toks[i + 1].s == "<":
                    continue
                j = i + 1
                while toks[j].s != "{":
                    if toks[j].s in ("(", "["):
                        j = match_close(toks, j)
                    j += 1
                inpos = None
                if t.s == "for":
                    x = i + 1
                    while toks[x].s != "in":
                        if toks[x].s in OPEN:
                            x = match_close(toks, x)
                        x += 1
                    inpos = toks[x].b
                loops.append((toks[j].a, toks[match_close(toks, j)].b, inpos))
        self._loops_found = len(loops)
        want = max(list(sect["loop"].keys()) + [0])
        if want > len(loops):
            raise Anchor(f"{key}: expected at least {want} loops, found {len(loops)}")
        ins = []
        for n, (a, e, inpos) in enumerate(loops, 1):
            if n in sect["loopiter"] and inpos is not None:
                ins.append((inpos, f" {sect['loopiter'][n]}:"))
            if n in sect["loop"]:
                ins.append((a, "\n" + sect["loop"][n]))
            if n in sect["loopbody"]:
                ins.append((a + 1, "\n" + sect["loopbody"][n]))
            if n in sect["afterloop"]:
                ins.append((e, "\n" + sect["afterloop"][n]))
        for p, s in sorted(ins, key=lambda x: -x[0]):
            body = body[:p] + s + body[p:]
        return body

    # -- driver ---------------------------------------------------------------
    def build(self, vac=False, vac_end=None):
        self.vac, self.vac_end = vac, vac_end
        self.process(os.path.join(CONTRACTS, self.name + ".vrs"))
        return "\n".join(self.lines) + "\nfn main() {}\n"

    def process(self, path):
        lines = open(path).read().split("\n")
        i = 0
        while i < len(lines):
            ln = lines[i]
            s = ln.strip()
            if not s.startswith("//@"):
                self.emit(ln)
                i += 1
                continue
            d = s[3:].split()
            try:
                if d[0] == "include":
                    self.process(os.path.join(CONTRACTS, "prelude", d[1] + ".vrs"))
                elif d[0] == "file":
                    self.file = d[1]
                elif d[0] == "rewrite":
                    p, r = s[3:].strip()[len("rewrite"):].split("==>", 1)
                    self.unit_rewrites.append((p.strip(), r.strip()))
                elif d[0] in ("struct", "enum", "const", "type"):
                    self.do_item(d[0], s[3:].partition(" | ")[0].split()[1:], s.partition(" | ")[2])
                elif d[0] == "fn":
                    block = []
                    i += 1
                    while lines[i].strip() != "//@end":
                        block.append(lines[i])
                        i += 1
                    self.do_fn(d[1:], block)
                else:
                    raise SystemExit(f"{path}:{i+1}: unknown directive {s}")
            except Anchor as e:
                self.lost.append(str(e))
            except (ValueError, IndexError, StopIteration) as e:
                self.lost.append(f"cannot parse around {s}: {e}")
            i += 1


SEMANTIC = ("postcondition not satisfied", "precondition not satisfied", "assertion failed",
            "invariant not satisfied", "possible arithmetic", "possible division", "decreases not satisfied",
            "possible bit shift", "unable to prove", "constructed value may fail", "loop invariant",
            "assertion not satisfied", "possible truncation", "cannot show", "bit shift")
LIMIT = ("resource limit", "rlimit", "timed out", "timeout")


def run_verus(path, extra=(), timeout=600):
    cmd = ["verus", path, "--output-json", "--time-expanded", "--multiple-errors", "4", "--num-threads", "8",
           "--triggers-mode", "silent"]
    cmd += list(extra) + ["--", "--error-format=json"]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path), env=dict(os.environ, RUST_MIN_STACK="4000000000"))
    except subprocess.TimeoutExpired:
        return dict(ok=False, tool_error="verus timed out", diags=[], funcs=[], wall=time.time() - t0, cmd=" ".join(cmd))
    diags = []
    for ln in p.stderr.splitlines():
        try:
            d = json.loads(ln)
        except ValueError:
            continue
        if d.get("level") not in ("error",):
            continue
        if d["message"].startswith("aborting due to"):
            continue
        diags.append(d)
    try:
        out = json.loads(p.stdout)
    except ValueError:
        return dict(ok=False, tool_error="verus gave no JSON: " + (p.stdout + p.stderr)[-2000:], diags=diags, funcs=[],
                    wall=time.time() - t0, cmd=" ".join(cmd), stderr=p.stderr)
    res = out.get("verification-results", {})
    funcs = []
    for m in out.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            funcs.append(dict(function=f["function"], mode=f.get("mode:"), ms=f.get("time-micros", 0) / 1000.0,
                              rlimit=f.get("rlimit"), success=f["success"]))
    tool_error = None
    if res.get("encountered-vir-error") or "verified" not in res:
        tool_error = "verus could not process the extracted text"
    return dict(ok=bool(res.get("success")), tool_error=tool_error, verified=res.get("verified", 0),
                errors=res.get("errors", 0), diags=diags, funcs=funcs, wall=time.time() - t0, cmd=" ".join(cmd),
                stderr=p.stderr)


def where(unit, d):
    """(function entry, primary span text) of a diagnostic"""
    best = None
    spans = d.get("spans", [])
    for sp in spans:
        for a, b, key, f, ln in unit.fnmap:
            if a <= sp["line_start"] <= b:
                e = (key, f, ln)
                # prefer the span inside a body (not the callee's contract)
                if not sp["is_primary"] or best is None:
                    best = best if (best and not sp["is_primary"]) and best == e else (best or e)
    lab = [(sp.get("label") or "", " ".join(t["text"].strip() for t in sp["text"])[:300]) for sp in spans]
    return best, lab


def classify(d):
    m = d["message"]
    if any(x in m for x in LIMIT):
        return "limit"
    if any(x in m for x in SEMANTIC):
        return "semantic"
    return "tool"


def qual(fn):
    return "::".join(fn.split("::")[1:])


def vacuous(r):
    """contracted functions whose entry assert(false) was accepted"""
    hit = set()
    for d in r["diags"]:
        at, _ = where(r["unit"], d)
        if at and classify(d) != "tool":
            hit.add(at[0])
    failed = {qual(f["function"]) for f in r["funcs"] if not f["success"]}
    out = []
    for f in r["unit"].fns:
        if f["trusted"] or f["key"] in hit:
            continue
        if not any(q.endswith(f["key"]) or q.split("::")[-1] == f["name"] and "%" in q for q in failed):
            out.append(f["key"])
    return sorted(out)


def run_unit(name, workdir, vac=False, vac_end=None, extra=(), force=()):
    """builds and runs one unit; a function whose body Verus cannot read is set aside (contract assumed, reported
    in unit.force) so that the others are still decided"""
    force = set(force)
    os.makedirs(workdir, exist_ok=True)
    suffix = "_vac" if vac else ("_vacend" if vac_end else "")
    path = os.path.join(workdir, f"{name}{suffix}.rs")
    why = {}
    for _ in range(6):
        u = Unit(name, force)
        text = u.build(vac=vac, vac_end=vac_end)
        with open(path, "w") as f:
            f.write(text)
        r = run_verus(path, extra)
        r["unit"], r["path"] = u, path
        u.forced_why.update({k: v for k, v in why.items() if k in u.force})
        if os.environ.get("VX_ONE"):
            break
        if not r.get("tool_error") and not any(classify(d) == "tool" for d in r["diags"]):
            break
        bad = {}
        for d in r["diags"]:
            if classify(d) != "tool":
                continue
            at, _ = where(u, d)
            if at and at[0] not in u.force:
                bad[at[0]] = d["message"][:200]
        if not bad:
            break
        why.update(bad)
        force |= set(bad)
    return r


if __name__ == "__main__":
    # developer entry: vx.py UNIT [vac]
    vac = len(sys.argv) > 2 and sys.argv[2] == "vac"
    r = run_unit(sys.argv[1], os.path.join(VERIF, "target", "verus"), vac=vac)
    u = r["unit"]
    for x in u.lost:
        print("LOST:", x)
    if r.get("verified") == 0 and not r["diags"]:
        print(r.get("stderr", "")[-4000:] if os.environ.get("VX_ERR") else "no diagnostics")
    for k, x in u.forced_why.items():
        print("FORCED:", k, x)
    for d in r["diags"]:
        print(d.get("rendered", d["message"]))
    if r.get("tool_error"):
        print("TOOL:", r["tool_error"])
        if not r["diags"]:
            print(r.get("stderr", "")[-3000:])
    bad = [f for f in r["funcs"] if not f["success"]]
    print(f"verified {r.get('verified')} errors {r.get('errors')} wall {r['wall']:.1f}s")
    if vac:
        print("VACUOUS:", vacuous(r))
    for f in sorted(r["funcs"], key=lambda f: -f["ms"])[:3]:
        print("  slow:", f)
    print(r["path"])
