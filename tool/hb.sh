#!/bin/bash
# developer helper: hb.sh HARNESS PROP [SECS] [SEED]: regenerate, build and run one harness
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target/h RUSTUP_TOOLCHAIN=stable PATH=/root/.cargo/bin:$PATH
cd /verif/harness/$1 || exit 2
python3 /verif/tool/gen.py $(cat gen.txt 2>/dev/null)
cargo build --offline 2>&1 | grep -E "^(error|warning: unused)" -A9 | head -${LINES_MAX:-60}
cd /tmp
/verif/target/h/debug/h-$1 $2 ${4:-1} quick ${3:-10} 2>&1 | python3 -c "
import sys,json
for l in sys.stdin:
    if not l.startswith('RESULT '): print(l[:300].rstrip()); continue
    r=json.loads(l[7:]); print(r['evaluations'],r['distinct'],'samples',[s[:150] for s in r['samples']][:3])
    for f in r['failures']: print('FAIL',f['key'],'|',f['what'][:400],'|',f['input'][-700:])
"
