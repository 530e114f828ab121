"""setup_cmd: nothing is kept between runs, so this only confirms the tools are there."""
import shutil
import sys

missing = [t for t in ("verus", "cargo", "python3") if not shutil.which(t) and not shutil.which("/root/.cargo/bin/" + t)]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
print("tools present")
