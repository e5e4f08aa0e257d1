#!/bin/bash
# Runs demo.py against the Python module built from a scratch copy of /repo with stand-ins for the git
# dependencies that are not installed: exit 0 iff it succeeds.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d)
trap 'rm -rf -- "$T"' EXIT
python3 - "$PWD" "$T" "$here" <<'P' || exit 3
import os, re, shutil, sys
repo, top, here = sys.argv[1:]
def put(rel, text):
    p = os.path.join(top, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w").write(text)
cargo = open(os.path.join(repo, "Cargo.toml")).read()
put("Cargo.toml", re.sub(r"^(hdf5|plotly|vtkio)\s*=.*\bgit\s*=.*$",
                         r'\1 = { path = "deps/\1" }', cargo, flags=re.M) + "\n[workspace]\n")
shutil.copytree(os.path.join(here, "deps"), os.path.join(top, "deps"))
shutil.copy(os.path.join(here, "deps", "Cargo.lock"), top)
shutil.copytree(os.path.join(repo, "src"), os.path.join(top, "src"))
if os.path.isdir(os.path.join(repo, "up4")):
    shutil.copytree(os.path.join(repo, "up4"), os.path.join(top, "py", "up4"))
P
cp -a /opt/vp/scope/target "$T/target"
export CARGO_TARGET_DIR="$T/target"
cd "$T" || exit 3
cargo build --offline --lib > "$T/log" 2>&1 || { grep -A6 "^error" "$T/log" | head -40; exit 3; }
mkdir -p "$T/py" "$T/run"
cp "$T/target/debug/libupppp_rust.so" "$T/py/upppp_rust.so" || exit 3
cp "$here/demo.py" "$T/run/"
cd "$T/run" || exit 3
PYTHONPATH="$T/py" timeout 120 python3-vt demo.py > "$T/out" 2>&1
rc=$?
tail -5 "$T/out"
[ $rc -le 1 ] || exit 3
exit $rc
