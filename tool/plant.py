"""developer tool: plant.py NAME PID NEEDS BREAKS < main.rs
Takes /repo's uncommitted change as the planted bug, stores it under seeded/NAME with a demo, restores /repo and
confirms the plant (tool/seed.py NAME --check)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
name, pid, needs, breaks = sys.argv[1:5]
diff = subprocess.run("git -C /repo diff", shell=True, capture_output=True, text=True).stdout
assert diff, "no change in /repo"
d = os.path.join(V, "seeded", name)
os.makedirs(d, exist_ok=True)
open(os.path.join(d, "patch.diff"), "w").write(diff)
subprocess.run("git -C /repo checkout -- .", shell=True, check=True)
if not sys.stdin.isatty():
    src = sys.stdin.read()
    if src.strip():
        open(os.path.join(d, "main.rs"), "w").write(src)
shutil.copy(os.path.join(V, "tool", "seedkit", "demo.sh"), d)
shutil.copy("/opt/vp/ws/Cargo.lock", os.path.join(d, "deps.lock"))
if "+copied" in open(os.path.join(d, "main.rs")).readline():
    shutil.copytree(os.path.join(V, "harness", "stubs"), os.path.join(d, "stubs"), dirs_exist_ok=True)
json.dump(dict(property=pid, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
sys.exit(subprocess.run([sys.executable, os.path.join(V, "tool", "seed.py"), name, "--check"]).returncode)
