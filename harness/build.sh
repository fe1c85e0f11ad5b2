#!/bin/bash
# build.sh OUTDIR : builds chiwawa.wasm (both dispatchers) from /repo's working tree
# into OUTDIR/{tco,legacy}.wasm.  Dependencies are reused from the image's own
# target directory when present; otherwise everything is built.
set -u
REPO=${VERIF_REPO:-/repo}
OUT=$1; mkdir -p "$OUT"
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.97.0 RUSTUP_AUTO_INSTALL=0 CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 RUSTC_WRAPPER=
export CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16
one() {
  local mode=$1 features=wasmtime; [ "$mode" = tco ] && features=wasmtime,tco
  local tgt="$OUT/tgt/$mode" src="$REPO/target/vp/$mode"
  if [ ! -d "$tgt" ] && [ -d "$src" ]; then
    for sub in release wasm32-wasip1/release; do
      mkdir -p "$tgt/$sub"
      for d in build deps .fingerprint; do
        [ -d "$src/$sub/$d" ] || continue
        mkdir -p "$tgt/$sub/$d"
        # everything except this crate's own artefacts and its tests
        (cd "$src/$sub/$d" && find . -mindepth 1 -maxdepth 1 ! -name '*chiwawa*' ! -name '*.wasm' ! -name '*.o' -print0 | xargs -0 -r cp -a -t "$tgt/$sub/$d" 2>/dev/null)
      done
    done
  fi
  (cd "$REPO" && cargo build --bin chiwawa --target wasm32-wasip1 --release --features "$features" \
     --config ".cargo/config-wasmtime-$mode.toml" --target-dir "$tgt" --locked --offline) >"$OUT/$mode.log" 2>&1 || return 1
  cp "$tgt/wasm32-wasip1/release/chiwawa.wasm" "$OUT/$mode.wasm"
}
# force this crate to be rebuilt whenever its sources differ from the last build
stamp=$(cd "$REPO" && { find src .cargo -type f -print0; printf 'Cargo.toml\0Cargo.lock\0'; } | sort -z | xargs -0 sha256sum 2>/dev/null | sha256sum | cut -d' ' -f1)
if [ "$(cat "$OUT/stamp" 2>/dev/null)" = "$stamp" ] && [ -f "$OUT/tco.wasm" ] && [ -f "$OUT/legacy.wasm" ]; then exit 0; fi
rm -f "$OUT/stamp" "$OUT/tco.wasm" "$OUT/legacy.wasm"
find "$OUT/tgt" -path '*/.fingerprint/chiwawa*' -type f -delete 2>/dev/null
one tco & p1=$!
one legacy & p2=$!
r=0; wait $p1 || r=1; wait $p2 || r=1
[ $r = 0 ] && echo "$stamp" > "$OUT/stamp"
exit $r
