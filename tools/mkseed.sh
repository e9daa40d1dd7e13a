#!/bin/bash
# mkseed.sh <id>: (re)creates /verif/seeded/<id>/{patch.diff,demo.sh} from a scratch copy edited by the
# caller (edit script on stdin, a python program that edits files under cwd), checks that the tests
# pass with it, and that the demo passes without and fails with it.
# Expects /verif/seeded/<id>/{demo.rs,meta.json} to exist already.
set -eu
id=$1
dir=/verif/seeded/$id
scratch=/tmp/seed.$id
cat > /tmp/seed.$id.py
rm -rf "$scratch"; mkdir -p "$scratch"
trap 'rm -rf "/tmp/seed.$id" "/tmp/seed.$id.py" "/tmp/seedbuild.$id"' EXIT
cp -a /repo/. "$scratch/"
cd "$scratch"; git checkout -q -- .
cat > "$dir/demo.sh" <<'D'
#!/bin/bash
# run with cwd = the repository; exit 0: behaves, nonzero: broken
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
redox_liner = { path = "$repo" }
termion = "3"
T
cd "$d"
CARGO_TARGET_DIR="$d/target" cargo build --offline -q 2>/dev/null
mkdir "$d/scratch"; cd "$d/scratch"
timeout 60 "$d/target/debug/demo"
D
chmod +x "$dir/demo.sh"
bash "$dir/demo.sh" >/tmp/seedbuild.$id 2>&1 || { echo "DEMO FAILS ON UNCHANGED TREE"; cat /tmp/seedbuild.$id; exit 1; }
python3 /tmp/seed.$id.py
git diff > "$dir/patch.diff"
[ -s "$dir/patch.diff" ] || { echo "EMPTY PATCH"; exit 1; }
cargo test --workspace --offline >/tmp/seedbuild.$id 2>&1 || { echo "TESTS FAIL"; grep -E "FAILED|failed|error" /tmp/seedbuild.$id | head; exit 1; }
if bash "$dir/demo.sh" >/tmp/seedbuild.$id 2>&1; then echo "DEMO PASSES WITH PATCH"; exit 1; fi
echo "ok $id: $(tail -1 /tmp/seedbuild.$id)"
