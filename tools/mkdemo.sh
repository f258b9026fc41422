#!/bin/bash
# mkdemo.sh <seed id> part|full : writes seeded/<id>/demo.sh (and the kit it needs) for the main.rs beside it
set -eu
root=$(cd "$(dirname "$0")/.." && pwd)
d=$root/seeded/$1
case $2 in
part) deps='llamapun = { path = "/opt/vp/part" }
libxml = "0.3.0"'; unpack=: ;;
full) tar -C "$root/mc" --exclude=target -czf "$d/kit.tgz" --sort=name --mtime=2026-01-01 --owner=0 --group=0 shims llamapun
  deps='llamapun = { path = "../llamapun" }
libxml = "0.3.0"
whatlang = { path = "../shims/whatlang" }
senna = { path = "../shims/senna" }
mcstd = { path = "../shims/mcstd" }
rayon = { path = "../shims/rayon" }
mcsched = { path = "../shims/mcsched" }'; unpack='tar -C "$tmp" -xzf "$here/kit.tgz"' ;;
esac
cat > "$d/demo.sh" <<S
#!/bin/bash
# exit 0 if the behaviour demonstrated by main.rs is right
set -eu
here=\$(cd "\$(dirname "\$0")" && pwd)
tmp=\$(mktemp -d)
trap 'rm -rf "\$tmp"' EXIT
mkdir -p "\$tmp/demo/src" "\$tmp/work"
$unpack
cp "\$here/main.rs" "\$tmp/demo/src/main.rs"
cat > "\$tmp/demo/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
$deps
[profile.dev]
debug = 0
[workspace]
T
export CARGO_TARGET_DIR=\$tmp/target RUSTFLAGS="--cap-lints warn -Awarnings" CARGO_NET_OFFLINE=true
cargo build -q --offline --manifest-path "\$tmp/demo/Cargo.toml"
cd "\$tmp/work"
timeout 60 "\$tmp/target/debug/demo"
S
chmod +x "$d/demo.sh"
