#!/bin/bash
# Runs demo.rs inside a scratch copy of /repo with stand-ins for the git dependencies that are not
# installed: exit 0 iff its tests pass.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d)
trap 'rm -rf -- "$T"' EXIT
python3 - "$PWD" "$T" "$here" <<'P' || exit 3
import os, re, shutil, sys
repo, top, here = sys.argv[1:]
host = open(os.path.join(here, "host")).read().strip()
def put(rel, text):
    p = os.path.join(top, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w").write(text)
cargo = open(os.path.join(repo, "Cargo.toml")).read()
put("Cargo.toml", re.sub(r"^(hdf5|plotly|vtkio)\s*=.*\bgit\s*=.*$",
                         r'\1 = { path = "deps/\1" }', cargo, flags=re.M) + "\n[workspace]\n")
shutil.copytree(os.path.join(here, "deps"), os.path.join(top, "deps"))
shutil.copy(os.path.join(here, "deps", "Cargo.lock"), top)
for d, _, ns in os.walk(os.path.join(repo, "src")):
    for n in ns:
        rel = os.path.relpath(os.path.join(d, n), repo)
        if not n.endswith(".rs") or rel == "src/main.rs":
            continue
        text = open(os.path.join(repo, rel)).read()
        text = text.replace("#[cfg(test)]", "#[cfg(never)]")
        if rel == host:
            text += "\n#[cfg(test)]\nmod planted_demo;\n"
        put(rel, text)
put(host[:-3] + "/planted_demo.rs", open(os.path.join(here, "demo.rs")).read())
P
cp -a /opt/vp/scope/target "$T/target"
export CARGO_TARGET_DIR="$T/target"
cd "$T" || exit 3
cargo test --offline --lib planted_demo > "$T/log" 2>&1
rc=$?
grep -E "^test |panicked|assertion|error" "$T/log" | head -30
[ $rc -eq 0 ] || { grep -q "^test result" "$T/log" || grep -A6 "^error" "$T/log" | head -40; }
grep -qE "^test result: .* [1-9][0-9]* passed|^test result: FAILED" "$T/log" || exit 3
exit $rc
