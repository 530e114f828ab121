#!/bin/bash
# Builds main.rs (beside this file) against /repo's crates in a scratch folder and runs it.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
exec python3 - "$here" "$(pwd)" <<'PY'
import os, re, shutil, subprocess, sys, tempfile
here, repo = sys.argv[1:]
main = open(os.path.join(here, "main.rs")).read()
deps = re.search(r"// deps: (.*)", main).group(1).split()
with tempfile.TemporaryDirectory(prefix="seeddemo") as t:
    os.mkdir(os.path.join(t, "src"))
    open(os.path.join(t, "src", "main.rs"), "w").write(main)
    shutil.copy(os.path.join(here, "deps.lock"), os.path.join(t, "Cargo.lock"))
    out = '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n'
    stubs = os.path.join(here, "stubs")
    if os.path.isdir(stubs):
        root = open(os.path.join(repo, "Cargo.toml")).read()
        out += "\n".join(re.findall(r"(?ms)^\[workspace\.(?:package|dependencies)\].*?(?=^\[|\Z)", root)) + "\n"
    out += "[dependencies]\n"
    for d in deps:
        name, _, feat = d.partition("+")
        if feat == "copied":
            # a crate whose own dependencies are not all available offline: copied, with stand-ins (types only)
            c = os.path.join(t, "crates", name)
            shutil.copytree(os.path.join(repo, "crates", name, "src"), os.path.join(c, "src"))
            toml = open(os.path.join(repo, "crates", name, "Cargo.toml")).read()
            toml = re.sub(r"(?ms)^\[(dev-dependencies|\[bench\]|\[test\]|\[example\])\].*?(?=^\[|\Z)", "", toml)
            toml = re.sub(r"(?m)^readme\s*=.*$", "", toml)
            toml = re.sub(r'path\s*=\s*"\.\./([\w-]+)"', lambda m: 'path = "%s/%s"' % (stubs if os.path.isdir(os.path.join(stubs, m[1])) else os.path.join(t, "crates") if m[1] + "+copied" in deps else repo + "/crates", m[1]), toml)
            open(os.path.join(c, "Cargo.toml"), "w").write(toml)
            out += f'{name} = {{ path = "crates/{name}" }}\n'
        elif name.startswith("sip-"):
            f = f', features = ["{feat}"]' if feat else ""
            out += f'{name} = {{ path = "{repo}/crates/{name}"{f} }}\n'
        else:
            ver, _, feat = feat.partition("+")
            f = ', features = [%s]' % ",".join(f'"{x}"' for x in feat.split("+")) if feat else ""
            out += f'{name} = {{ version = "{ver}"{f} }}\n'
    open(os.path.join(t, "Cargo.toml"), "w").write(out)
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(t, "target"))
    b = subprocess.run(["cargo", "build", "--offline"], cwd=t, env=env, capture_output=True, text=True)
    if b.returncode:
        print(b.stderr[-3000:])
        sys.exit(3)
    r = subprocess.run([os.path.join(t, "target", "debug", "demo")], cwd=t, timeout=200)
    sys.exit(0 if r.returncode == 0 else 1)
PY
