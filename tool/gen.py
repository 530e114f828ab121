"""Copies of time-dependent crates with std::time replaced by the harness clock (nothing else changes).
usage: gen.py CRATE...   -> /verif/target/gen/CRATE
CRATE! is copied as it is (only its dependency paths change); sip-transport, which needs crates that are
not available offline, is replaced by harness/stubs/sip-transport (types only, no network)."""
import os
import re
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rustlex import lex  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = os.path.join(VERIF, "target", "gen")


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def swap_time(src):
    """std::time -> vclock, token by token (strings and comments untouched)"""
    toks = lex(src)
    out, p = [], 0
    i = 0
    while i < len(toks):
        if toks[i].s == "std" and i + 2 < len(toks) and toks[i + 1].s == "::":
            if toks[i + 2].s == "time":
                out.append(src[p:toks[i].a] + "vclock")
                p = toks[i + 2].b
                i += 3
                continue
            if toks[i + 2].s == "{" and i > 0 and toks[i - 1].s == "use":
                # use std::{..., time::..., ...}: split the time part off
                from rustlex import match_close
                c = match_close(toks, i + 2)
                parts, d, st = [], 0, i + 3
                for j in range(i + 3, c + 1):
                    if toks[j].s in "{(":
                        d += 1
                    elif toks[j].s in "})" and j != c:
                        d -= 1
                    if (toks[j].s == "," and d == 0) or j == c:
                        if st < j:
                            parts.append(src[toks[st].a:toks[j - 1].b])
                        st = j + 1
                tm = [x for x in parts if re.match(r"time\b", x)]
                if tm:
                    rest = [x for x in parts if not re.match(r"time\b", x)]
                    txt = ""
                    if rest:
                        txt = "std::{" + ", ".join(rest) + "}; use "
                    txt += "; use ".join("vclock" + x[4:] for x in tm)
                    out.append(src[p:toks[i].a] + txt)
                    p = toks[c].b
                    i = c + 1
                    continue
        i += 1
    out.append(src[p:])
    return "".join(out)


def gen(crates):
    os.makedirs(GEN, exist_ok=True)
    plain = {c[:-1] for c in crates if c.endswith("!")}
    crates = [c.rstrip("!") for c in crates]
    root = open(os.path.join(REPO, "Cargo.toml")).read()
    keep = []
    for sect in re.findall(r"(?ms)^\[workspace\.(?:package|dependencies)\].*?(?=^\[|\Z)", root):
        keep.append(sect)
    members = ", ".join(f'"{c}"' for c in crates)
    write(os.path.join(GEN, "Cargo.toml"), f'[workspace]\nmembers = [{members}]\nresolver = "2"\n\n' + "\n".join(keep))
    for c in crates:
        srcd = os.path.join(REPO, "crates", c)
        dst = os.path.join(GEN, c)
        want = set()
        for d, _, fs in os.walk(os.path.join(srcd, "src")):
            for f in fs:
                p = os.path.join(d, f)
                rel = os.path.relpath(p, srcd)
                want.add(rel)
                t = open(p, encoding="utf-8").read()
                if f.endswith(".rs") and c not in plain:
                    t = swap_time(t)
                write(os.path.join(dst, rel), t)
        for d, _, fs in os.walk(os.path.join(dst, "src")):
            for f in fs:
                p = os.path.join(d, f)
                if os.path.relpath(p, dst) not in want:
                    os.remove(p)
        t = open(os.path.join(srcd, "Cargo.toml")).read()
        t = re.sub(r"(?ms)^\[(dev-dependencies|\[bench\]|\[test\]|\[example\])\].*?(?=^\[|\Z)", "", t)
        t = re.sub(r'(?m)^readme\s*=.*$', "", t)

        def fix(m):
            name = m.group(1)
            if name == "sip-transport":
                return f'path = "{VERIF}/harness/stubs/sip-transport"'
            if name in crates:
                return f'path = "../{name}"'
            return f'path = "{REPO}/crates/{name}"'
        t = re.sub(r'path\s*=\s*"\.\./([\w-]+)"', fix, t)
        if c in plain:
            write(os.path.join(dst, "Cargo.toml"), t)
            continue
        t = re.sub(r"(?m)^\[dependencies\]\s*$", f'[dependencies]\nvclock = {{ path = "{VERIF}/harness/vclock" }}', t)
        if "vclock" not in t:
            t += f'\n[dependencies]\nvclock = {{ path = "{VERIF}/harness/vclock" }}\n'
        write(os.path.join(dst, "Cargo.toml"), t)


if __name__ == "__main__":
    gen(sys.argv[1:])
