#!/bin/bash
# Development helper (not used by any check).
#   seed.sh new ID PROPERTY "needs" "what"   records the diff of the scratch copy /tmp/sr as seeded/ID (main.rs read from stdin)
#   seed.sh confirm ID                       demo on clean / patched scratch copy + baseline tests on the patched copy
#   seed.sh catch ID [PROP..]                runs the checks against /repo with the patch applied
set -u
V=${V:-/verif}; S=${S:-/tmp/sr}; id=$2; D=$V/seeded/$id
case $1 in
new)
  mkdir -p $D; git -C $S diff > $D/patch.diff; git -C $S checkout -q -- .
  python3 - "$3" "$4" "$5" > $D/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
  cat > $D/main.rs; cp $V/mc/Cargo.lock $D/Cargo.lock.in
  cat > $D/Cargo.toml.in <<'P'
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
tycho-types = { path = "@REPO@", features = ["base64", "serde", "models", "sync", "abi"] }
serde_json = "1"
num-bigint = "0.4"
[profile.dev]
debug = false
P
  cat > $D/demo.sh <<'P'
#!/bin/bash
# cwd: the repository. Exit 0 when the property holds for the demonstrated input.
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" && cp "$here/main.rs" "$w/src/main.rs" && cp "$here/Cargo.lock.in" "$w/Cargo.lock" || exit 2
sed "s|@REPO@|$repo|" "$here/Cargo.toml.in" > "$w/Cargo.toml"
cd "$w" || exit 2
export HOME="${HOME:-/root}" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target"
cargo build -q --offline 2> build.log || { tail -30 build.log; exit 2; }
./target/debug/demo
P
  chmod +x $D/demo.sh; cat $D/patch.diff | grep '^[+-]';;
confirm)
  cd $S && git checkout -q -- . && git clean -qfd -e target -e Cargo.lock
  bash $D/demo.sh >/tmp/demo.clean 2>&1; a=$?
  git apply $D/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
  bash $D/demo.sh >/tmp/demo.bug 2>&1; b=$?
  (. /opt/vp/env.sh; cd $S; cargo test --workspace --features $FEATURES --no-fail-fast --offline --lib --tests -- --test-threads 8 > /tmp/seedtest.log 2>&1
   cargo test --workspace --features $FEATURES --no-fail-fast --offline --doc -- --test-threads 8 >> /tmp/seedtest.log 2>&1)
  f=$(grep -E "^test result" /tmp/seedtest.log | awk '{p+=$4; f+=$6} END {print p" passed "f" failed"}'); c=$(grep -c "^error" /tmp/seedtest.log)
  git checkout -q -- .
  echo "$id: clean=$a patched=$b ($(tail -1 /tmp/demo.bug | cut -c1-120)) tests: $f, errors $c"; [ $a = 0 ] || tail -5 /tmp/demo.clean;;
catch)
  shift 2; P="$*"; [ -z "$P" ] && P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git -C /repo apply $D/patch.diff || exit 1
  for p in $P; do VERIF_TIER=${TIER:-quick} $V/check.sh $p >/tmp/seed.out 2>/tmp/seed.err; r=$?; echo "$id $p exit=$r $(grep -m1 VIOLATION /tmp/seed.out | cut -c1-200) $(grep -A1 -m1 VIOLATION /tmp/seed.out | tail -1 | cut -c1-300)"; done
  git -C /repo checkout -q -- .;;
esac
