#!/usr/bin/env python3
"""mkbug.py FILE.py: writes seeded/<id>/ for every bug defined in FILE.py.
A bug is dict(id, property, needs, breaks, edits=[(file, old, new)], demo=rust)."""
import json, os, subprocess, sys, tempfile, shutil
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Run with cwd /repo. Exit 0: behaves as it should.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
cat > "$dir/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
httlib-hpack = { path = "$repo/hpack" }
httlib-huffman = { path = "$repo/huffman" }
httlib-protos = { path = "$repo/protos" }
[patch.crates-io]
httlib-huffman = { path = "$repo/huffman" }
[workspace]
EOF
cd "$dir" || exit 2
CARGO_TARGET_DIR="$dir/target" cargo build -q --offline >"$dir/log" 2>&1 || { cat "$dir/log"; exit 2; }
timeout 120 "$dir/target/debug/demo"
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for b in ns["BUGS"]:
    if only and b["id"] not in only: continue
    wt = tempfile.mkdtemp(prefix="mkbug")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", wt, "HEAD"])
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit(f"{b['id']}: {s.count(old)} matches in {f} for {old!r}")
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", wt, "diff"], text=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", wt])
    d = os.path.join(root, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "main.rs"), "w").write(b["demo"].lstrip("\n"))
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("wrote", b["id"])
