"""developer tool: plant.  seed.py NAME   (reads /verif/seeded/NAME/patch.diff)
Confirms a planted bug in a scratch copy of /repo: applies, builds, stable tests pass, demo passes before / fails after."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
name = sys.argv[1]
d = os.path.join(V, "seeded", name)
env = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"])
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, env=env, errors="replace", **k)
tmp = tempfile.mkdtemp(prefix="demo")
for f in os.listdir(d):
    if not f.endswith((".diff", ".patch")) and f != "meta.json":
        p = os.path.join(d, f)
        (shutil.copytree if os.path.isdir(p) else shutil.copy)(p, os.path.join(tmp, f))
assert sh("git -C /repo status --porcelain").stdout == "", "repo not clean"
def demo():
    return sh(f"cd /repo && timeout 300 bash {tmp}/demo.sh")
try:
    sh("bash /opt/vp/build.sh")
    r0 = demo()
    print("demo unchanged:", r0.returncode, (r0.stdout + r0.stderr)[-300:] if r0.returncode else "")
    a = sh(f"git -C /repo apply {d}/patch.diff")
    print("apply:", a.returncode, a.stderr[-300:])
    t = sh("bash /opt/vp/test.sh /tmp/seed_t.json")
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    got = json.load(open("/tmp/seed_t.json"))
    lost = base - set(got["passed"])
    print("tests lost:", len(lost), sorted(lost)[:6], t.stdout[-200:] if lost else "")
    r1 = demo()
    print("demo patched:", r1.returncode, (r1.stdout + r1.stderr)[-300:])
    ok = r0.returncode == 0 and a.returncode == 0 and not lost and r1.returncode != 0
    print("SEED", name, "OK" if ok else "BAD")
    if "--check" in sys.argv and ok:
        pid = json.load(open(os.path.join(d, "meta.json")))["property"]
        c = sh(f"cd {V} && python3 tool/check.py {pid}")
        print(c.stdout[-1500:], "rc", c.returncode)
finally:
    sh("git -C /repo checkout -- .")
    shutil.rmtree(tmp)
