#!/bin/bash
# usage: sim/build.sh CONFIG...   builds the simulation binaries from /repo's working tree
# P: the Python extension, as a shared object for the interpreter
# A: default features; B: parallel; C: parallel,no-position,sqrt-dist2; D: none; T: parallel,no-position,timing
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
VERIF=$(dirname "$HERE")
OUT=$VERIF/target
mkdir -p "$OUT/bin"
exec 9>"$OUT/.lock"
flock 9
export CARGO_TARGET_DIR=$OUT/sim CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly
H=$(cd /repo && find src pyfnntw/src Cargo.toml -type f | sort | xargs sha256sum | cat - "$HERE"/rt/* "$HERE"/harness/Cargo.* "$HERE"/harness/src/* "$HERE"/pyfn/* "$HERE"/pyharness/Cargo.* "$HERE"/pyharness/src/* "$HERE/build.sh" | sha256sum | cut -c1-20)
need=
for c in "$@"; do [ -x "$OUT/bin/sim$c" ] && [ "$(cat "$OUT/bin/sim$c.hash" 2>/dev/null)" = "$H" ] || need="$need $c"; done
[ -z "$need" ] && exit 0
clang -O2 -g -fPIC -ftls-model=initial-exec -fno-stack-protector -Wall -c "$HERE/rt/simrt.c" -o "$OUT/simrt.o.new"
cmp -s "$OUT/simrt.o.new" "$OUT/simrt.o" || mv "$OUT/simrt.o.new" "$OUT/simrt.o"
export PYO3_PYTHON=/opt/vp/venv/bin/python
export SIMRT_O=$OUT/simrt.o
export RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Zub-checks=yes"
for c in $need; do
  if [ $c = P ]; then
    # thread-local storage at fixed places, as in an executable
    (cd "$HERE/pyharness" && RUSTFLAGS="$RUSTFLAGS -Ztls-model=initial-exec" cargo -Zchecksum-freshness build --offline --release -Zbuild-std=std,panic_unwind --target x86_64-unknown-linux-gnu 2> "$OUT/build-$c.log") \
      || { cat "$OUT/build-$c.log" | tail -60; exit 2; }
    cp "$OUT/sim/x86_64-unknown-linux-gnu/release/libpyharness.so" "$OUT/bin/pyharness.so.tmp"
    mv "$OUT/bin/pyharness.so.tmp" "$OUT/bin/pyharness.so"
    cat > "$OUT/bin/simP" <<'PY'
#!/bin/bash
export SIM_OBJ=$(dirname "$0")/pyharness.so PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 GLIBC_TUNABLES=glibc.rtld.optional_static_tls=16384
export SIM_NOASLR=1
fix=; setarch -R true 2>/dev/null && fix="setarch -R"
exec $fix /opt/vp/venv/bin/python -c 'import ctypes,os,sys,numpy; sys.exit(ctypes.PyDLL(os.environ["SIM_OBJ"]).sim_main())' "$@"
PY
    chmod +x "$OUT/bin/simP"
    echo "$H" > "$OUT/bin/simP.hash"
    continue
  fi
  case $c in
    A) f=par,nopos,sqrt,noidx;; B) f=par;; C) f=par,nopos,sqrt;; D) f=;; T) f=par,nopos,timing;;
    *) echo "unknown configuration $c"; exit 2;;
  esac
  # C, D and T as in a development build: the library's own assertions and overflow checks are on
  dev=; case $c in C|D|T) dev="--config profile.release.package.fnntw.debug-assertions=true --config profile.release.package.fnntw.overflow-checks=true";; esac
  (cd "$HERE/harness" && cargo -Zchecksum-freshness $dev build --offline --release --features "$f" -Zbuild-std=std,panic_unwind --target x86_64-unknown-linux-gnu 2> "$OUT/build-$c.log") \
    || { cat "$OUT/build-$c.log" | tail -60; exit 2; }
  cp "$OUT/sim/x86_64-unknown-linux-gnu/release/simharness" "$OUT/bin/sim$c.tmp"
  mv "$OUT/bin/sim$c.tmp" "$OUT/bin/sim$c"
  echo "$H" > "$OUT/bin/sim$c.hash"
done
