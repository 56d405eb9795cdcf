#!/bin/bash
# mkbug.sh <id>: (development only) confirms seeded/<id> in a scratch copy of /repo:
# patch applies, builds, stable tests pass, demo passes without and fails with it.
id=$1; d=/verif/seeded/$id
[ -f $d/demo.sh ] || cat > $d/demo.sh <<'D'
#!/bin/bash
# exit 0: the property holds in this scenario; nonzero: it does not. Run with cwd = the repository.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/main.rs" "$w/src/main.rs"; cp "$here/lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ebi = { path = "$repo/ebi", default-features = false }
roaring = "0.10.10"
[profile.dev]
opt-level = 1
debug = 0
T
cd "$w" && CARGO_TARGET_DIR="$w/target" CARGO_NET_OFFLINE=true cargo build --offline --quiet 2> "$w/log" || { tail -30 "$w/log"; exit 3; }
timeout 120 "$w/target/debug/demo"
D
chmod +x $d/demo.sh
[ -f $d/lock ] || cp /verif/harness/Cargo.lock $d/lock
w=/tmp/bug_$id; rm -rf $w; git -C /repo worktree prune
cp -a /repo $w
cd $w || exit 1
git apply --check $d/patch.diff || { echo "NOAPPLY"; exit 1; }
t=/tmp/bugdemo_$id; rm -rf $t; mkdir $t; cp $d/demo.sh $d/lock $d/main.rs $t/ 2>/dev/null; cp -a $d/. $t/ ; rm -f $t/*.diff $t/meta.json
$t/demo.sh > $t/out0 2>&1; a=$?
git apply $d/patch.diff
sed "s#/repo#$w#g" /opt/vp/build.sh > $t/build.sh; sed "s#/repo#$w#g" /opt/vp/test.sh > $t/test.sh
echo "demo clean rc=$a"
bash $t/build.sh > $t/b.log 2>&1 || echo "BUILD FAILS"; bash $t/test.sh $t/o.json > $t/t.log 2>&1; python3 - $t/o.json <<P
import json,sys
o=json.load(open(sys.argv[1])); print("tests failed:", o.get("failed"))
P
$t/demo.sh > $t/out1 2>&1; b=$?
echo "demo patched rc=$b: $(tail -3 $t/out1 | cut -c1-300)"
[ $a = 0 ] || tail -5 $t/out0
rm -rf $w $t
