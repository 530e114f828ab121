"""Decides one property on /repo's current tree.

check.py PID [--tier quick|thorough]
  1. every contract unit of the property is regenerated from /repo's source and given to Verus
     (deciding step), with a vacuity run beside it;
  2. the bounded harness of the property runs the same contract on the real code and looks for a
     concrete failing input (labelled bounded, never counted as proved).
Exit 0: held.  Exit 1 with VIOLATION: broken.  Exit 2: the machinery could not answer.
"""
import argparse
import concurrent.futures as cf
import hashlib
import json
import os
import re
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen  # noqa: E402
import rustlex  # noqa: E402
import vx  # noqa: E402

VERIF = vx.VERIF
TARGET = os.path.join(VERIF, "target")
PROPS = json.load(open(os.path.join(VERIF, "contracts", "props.json")))
BASELINE = os.path.join(VERIF, "contracts", "baseline.json")
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known(pid):
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", ln.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


# ---------------------------------------------------------------------------
def loop_kinds(body):
    toks = rustlex.lex(body)
    return [t.s for i, t in enumerate(toks) if t.k == "id" and t.s in ("while", "loop", "for")
            and not (t.s == "for" and toks[i + 1].s == "<")]


def shape(f):
    return dict(loops=loop_kinds(f["src"]), hash=hashlib.sha256(f["src_norm"].encode()).hexdigest()[:16])


def run_units(units, workdir, tier):
    """[(unit, result, vacuous, seconds)]"""
    def one(u):
        extra = ["--rlimit", "60" if tier == "thorough" else "30"]
        r = vx.run_unit(u, workdir, extra=extra)
        if not r["ok"] and not r.get("tool_error") and not r["unit"].lost:
            # solver luck: another seed, more resources; only a failure that persists counts
            for seed in ("7", "23"):
                r2 = vx.run_unit(u, workdir, extra=["--rlimit", "100", "--smt-option", f"smt.random_seed={seed}"], force=r["unit"].force)
                if r2["ok"]:
                    r2["retried"] = True
                    r = r2
                    break
                if len(r2["diags"]) < len(r["diags"]) and not r2.get("tool_error"):
                    r = r2
        v = vx.run_unit(u, workdir, vac=True, extra=extra, force=r["unit"].force)
        return u, r, v
    with cf.ThreadPoolExecutor(3) as ex:
        return list(ex.map(one, units))


def run_harness(pid, cfg, tier, seed):
    name = cfg["harness"]
    hd = os.path.join(VERIF, "harness", name)
    g = os.path.join(hd, "gen.txt")
    if os.path.exists(g):
        gen.gen(open(g).read().split())
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(TARGET, "h"), RUSTUP_TOOLCHAIN="stable",
               CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    p = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=hd, env=env, capture_output=True, text=True)
    if p.returncode != 0:
        return dict(error="harness did not build: " + p.stderr[-3000:])
    secs = cfg.get("thorough_s", 240) if tier == "thorough" else cfg.get("quick_s", 25)
    scratch = os.path.join(TARGET, "scratch", pid)
    os.makedirs(scratch, exist_ok=True)
    cmd = [os.path.join(TARGET, "h", "debug", "h-" + name), pid, str(seed), tier, str(secs)]
    try:
        p = subprocess.run(cmd, cwd=scratch, env=env, capture_output=True, text=True, timeout=secs + 120, errors="replace")
    except subprocess.TimeoutExpired:
        return dict(error="harness ran out of time")
    for ln in p.stdout.splitlines():
        if ln.startswith("RESULT "):
            r = json.loads(ln[7:])
            r["cmd"] = " ".join(cmd)
            return r
    if p.returncode < 0:
        return dict(evaluations=1, distinct=1, rule="", samples=[], cmd=" ".join(cmd),
                    failures=[dict(key="abort", what=f"process died with signal {-p.returncode}: " + p.stderr[-500:],
                                   input="seed %s (abort: the input is the last case of that run)" % seed)])
    return dict(error="harness gave no result: rc %d %s" % (p.returncode, (p.stdout + p.stderr)[-2000:]))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-harness", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    a = ap.parse_args()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[pid]
    t0 = time.time()
    work = os.path.join(TARGET, "verus", pid)
    rdir = os.path.join(TARGET, "replay")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    base = json.load(open(BASELINE)) if os.path.exists(BASELINE) else {}

    with cf.ThreadPoolExecutor(2) as ex:
        fu = ex.submit(run_units, [] if a.no_proof else cfg.get("units", []), work, tier)
        fh = None if (a.no_harness or "harness" not in cfg) else ex.submit(run_harness, pid, cfg, tier, seed)
        results = fu.result()
        hres = fh.result() if fh else dict(evaluations=0, distinct=0, failures=[], samples=[], rule="")

    notes, undecided, broken = [], [], []
    verified = total = 0
    solver_ms = 0.0
    fns, trusted, rewrites, cmds = [], [], {}, []
    for name, r, v in results:
        u = r["unit"]
        bl = base.get(name, {})
        cmds.append(r["cmd"])
        solver_ms += sum(f["ms"] for f in r["funcs"])
        verified += r.get("verified", 0) or 0
        total += (r.get("verified", 0) or 0) + (r.get("errors", 0) or 0)
        trusted += u.trusted + stubs(u)
        for k, n in u.rewrites.items():
            rewrites[k] = rewrites.get(k, 0) + n
        for f in u.fns:
            q = [x for x in r["funcs"] if vx.qual(x["function"]).endswith(f["key"]) or vx.qual(x["function"]).split("::")[-1] == f["name"]]
            fns.append(dict(function=f["key"], file=f"{f['file']}:{f['line']}", unit=name, trusted=f["trusted"],
                            ms=round(max([x["ms"] for x in q] or [0]), 1)))
        if r.get("retried"):
            notes.append(f"{name}: verified on a second solver seed")
        for x in sorted(u.force):
            undecided.append(f"{name}: {x}: body not within the verifier's reach, contract assumed: {u.forced_why.get(x, '')}")
        for x in u.lost:
            undecided.append(f"{name}: anchor lost: {x}")
        changed = [f["key"] for f in u.fns if bl and bl.get(f["key"], {}).get("hash") != shape(f)["hash"]]
        if changed:
            notes.append(f"{name}: functions that differ from the recorded tree: {', '.join(changed)}")
        reshaped = [f["key"] for f in u.fns if bl.get(f["key"]) and bl[f["key"]]["loops"] != shape(f)["loops"]]
        if r.get("tool_error"):
            msg = "; ".join(d["message"] for d in r["diags"][:3]) or r["tool_error"]
            undecided.append(f"{name}: verus could not process the text: {msg[:300]}")
            continue
        for d in r["diags"]:
            kind = vx.classify(d)
            at, lab = vx.where(u, d)
            fn = at[0] if at else "?"
            if kind == "tool":
                undecided.append(f"{name}: {fn}: {d['message'][:200]}")
                continue
            if kind == "limit":
                undecided.append(f"{name}: {fn}: solver limit: {d['message'][:200]}")
                continue
            tags = set(re.findall(r"\[(P\d+)\]", " ".join(t for _, t in lab)))
            if not tags and at:
                fe = next((f for f in u.fns if f["key"] == fn), None)
                tags = set(fe["props"]) if fe and fe["props"] else set()
            if tags and pid not in tags:
                notes.append(f"{name}: {fn}: fails an obligation of {', '.join(sorted(tags))} (not {pid}): {d['message'][:100]}")
                continue
            if fn in reshaped:
                undecided.append(f"{name}: {fn}: loops restructured, invariants no longer fit: {d['message'][:200]}")
                continue
            if u.lost:
                undecided.append(f"{name}: {fn}: {d['message'][:200]} (with lost anchors, not conclusive)")
                continue
            broken.append(dict(unit=name, function=fn, file=at[1] if at else "", line=at[2] if at else 0,
                               message=d["message"], labels=lab, rendered=d.get("rendered", "")))
        if v.get("tool_error") is None and not r.get("tool_error") and not any(vx.classify(d) == 'tool' for d in r['diags']):
            vac = vx.vacuous(v)
            if vac:
                undecided.append(f"{name}: vacuous contracts: {', '.join(vac)}")
        if not r["diags"] and not r.get("tool_error") and not r["funcs"]:
            undecided.append(f"{name}: no obligations generated")

    # ---- verdict ---------------------------------------------------------
    kn = known(pid)
    viol = []
    seen_known = set()
    for f in hres.get("failures", []):
        hit = next((k for k in kn if k[0] == f["key"]), None)
        if hit:
            seen_known.add(hit)
        else:
            viol.append(f)
    for k, what in kn:
        print(f"KNOWN-FINDING: property={pid} {what}")
    known_ob = {k for k, _ in kn}
    broken = [b for b in broken if f"obligation:{b['function']}" not in known_ob]
    rc = 0
    nviol = len(viol) + len(broken)
    if viol or broken:
        rc = 1
        path = os.path.join(rdir, f"{pid}.txt")
        with open(path, "w") as fo:
            fo.write(f"property {pid}: {cfg.get('title','')}\n")
            if viol:
                fo.write("\nfailing inputs against the real code (replay: %s):\n" % hres.get("cmd"))
                for f in viol:
                    fo.write(f"  [{f['key']}] {f['what']}\n     input: {f['input']}\n")
            if broken:
                fo.write("\nobligations the verifier rejects:\n")
                for b in broken:
                    fo.write(f"  {b['function']} ({b['file']}:{b['line']}): {b['message']}\n")
                    for l, t in b["labels"]:
                        fo.write(f"      {l}: {t}\n")
                    fo.write(b["rendered"] + "\n")
            if undecided:
                fo.write("\nundecided:\n  " + "\n  ".join(undecided) + "\n")
        for f in viol[:3]:
            print(f"  failing input [{f['key']}]: {f['what'][:300]}")
        for b in broken[:4]:
            print(f"  obligation rejected: {b['function']}: {b['message']}")
        tail = "" if viol else " no-failing-input-found"
        print(f"VIOLATION property={pid} replay={path}{tail}")
    elif hres.get("error"):
        if undecided or not results:
            print(f"ERROR: {hres['error']}\n" + "\n".join(undecided))
            rc = 2
        else:
            notes.append("bounded harness not run: " + hres["error"][:500])
    for x in undecided:
        print("UNDECIDED (proof side):", x[:400])
    for x in notes:
        print("note:", x[:300])

    level = cfg["level"]
    ev_level = level
    if (undecided or not results) and level == "proof":
        ev_level = "exploration"
    cov = dict(
        obligations=total, discharged=verified, checker_cmd="; ".join(cmds) or "none",
        trusted_base=sorted(set(trusted)) + cfg.get("trusted", []) +
        ["Verus 0.2026.09.13 (VC generation, vstd specifications) and its bundled Z3",
         "the extraction of /verif/tool/vx.py (listed rewrites)"],
        functions_under_contract=fns, functions_total=len(fns), functions_trusted=sum(1 for f in fns if f["trusted"]),
        back_end="verus/z3", solver_ms=round(solver_ms, 1), rewrites=rewrites, undecided=undecided, notes=notes,
        bounded=dict(label="bounded, not proof", evaluations=hres.get("evaluations", 0), distinct=hres.get("distinct", 0),
                     harness=cfg.get("harness"), error=hres.get("error")),
        evaluations=hres.get("evaluations", 0), distinct_nontrivial=hres.get("distinct", 0),
        rule=hres.get("rule", ""), samples=hres.get("samples", []) or ["(no bounded run)"],
        known_findings=[k for k, _ in kn])
    ev = dict(property=pid, tier=tier, seed=seed, level=ev_level, coverage=cov,
              assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=nviol)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as fo:
        json.dump(ev, fo, indent=1)
    print(f"{pid}: {verified}/{total} obligations discharged over {len(fns)} functions "
          f"({sum(1 for f in fns if f['trusted'])} trusted), bounded {hres.get('evaluations', 0)} cases, "
          f"{time.time()-t0:.0f}s, rc {rc}")
    sys.exit(rc)


def stubs(u):
    """every assumption in the generated text: axioms, external bodies, assumed specifications"""
    out = []
    txt = "\n".join(u.lines)
    for m in re.finditer(r"assume_specification(?:<[^\[]*>)?\s*\[\s*([^\]]+)\]", txt):
        out.append("std contract assumed: " + m.group(1).strip())
    for m in re.finditer(r"axiom fn (\w+)", txt):
        out.append("axiom: " + m.group(1))
    n = len(re.findall(r"external_body", txt))
    out.append(f"{n} external_body items in unit {u.name} (library stubs of contracts/prelude plus any trusted function listed)")
    for m in re.finditer(r"\b(assume|admit)\s*\(([^;]*)\)\s*;", txt):
        out.append(f"{m.group(1)} in unit {u.name}: {m.group(2)[:120]}")
    return out


def baseline():
    """record the shapes of the functions under contract on the current tree"""
    out = {}
    for f in sorted(os.listdir(vx.CONTRACTS)):
        if f.endswith(".vrs"):
            u = vx.Unit(f[:-4])
            u.build()
            if u.lost:
                print("LOST", f, u.lost)
            out[u.name] = {x["key"]: shape(x) for x in u.fns}
    json.dump(out, open(BASELINE, "w"), indent=0, sort_keys=True)


if __name__ == "__main__":
    if sys.argv[1:2] == ["baseline"]:
        baseline()
    else:
        main()
