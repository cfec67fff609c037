#!/bin/bash
# check.sh ID [tier]      run one check against /repo's working tree
# check.sh replay FILE    run the minimal case of a violation again
# check.sh build          build only
# exit 0: held on everything explored; 1: VIOLATION line; 2: the check could not be run
set -u
root="$(cd "$(dirname "$0")" && pwd)"
repo=/repo
target="$root/target"
export HOME="${HOME:-/root}" PATH="$PATH:/root/.cargo/bin"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTC_WRAPPER="$root/harness/rustc-wrap.sh"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_PROFILE_DEV_DEBUG RUSTC CARGO_TARGET_DIR
mkdir -p "$target"

build() {
  (
    flock 9
    # the binary is a function of the sources' content: file times decide nothing
    sum="$( { cd "$repo" && find bip39 secp256k1_bip32 keychain keychain-c Cargo.toml -type f -not -path '*/target/*' \
        -not -path 'keychain-c/include/*' -print0 | sort -z | xargs -0 sha256sum
      cd "$root" && find harness -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum | cut -c1-64)"
    if [ "$(cat "$target/stamp" 2>/dev/null)" = "$sum" ] && [ -x "$target/debug/kcv" ]; then
      exit 0
    fi
    rm -f "$target/stamp"
    cd "$root/harness" || exit 2
    if [ -d "$target/debug" ]; then
      cargo clean --offline --locked --target-dir "$target" -p bip39 -p secp256k1_bip32 -p tesseract-keychain -p ckc -p kcv \
        >"$target/clean.log" 2>&1 || rm -rf "${target:?}/debug"
    fi
    if ! cargo build --offline --locked --target-dir "$target" >"$target/build.log" 2>&1; then
      grep -A12 -E '^error' "$target/build.log" | head -60 >&2
      echo "CHECK ERROR: the harness does not build against /repo's tree" >&2
      exit 2
    fi
    echo "$sum" >"$target/stamp"
  ) 9>"$target/lock"
}

# the harness and the library as they are released
build_rel() {
  (
    flock 9
    sum="$( { cd "$repo" && find bip39 secp256k1_bip32 keychain keychain-c Cargo.toml -type f -not -path '*/target/*' \
        -not -path 'keychain-c/include/*' -print0 | sort -z | xargs -0 sha256sum
      cd "$root" && find harness -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum | cut -c1-64)"
    if [ "$(cat "$target/stamp-release" 2>/dev/null)" = "$sum" ] && [ -x "$target/release/kcv" ]; then
      exit 0
    fi
    rm -f "$target/stamp-release"
    cd "$root/harness" || exit 2
    unset RUSTC_WRAPPER
    if [ -d "$target/release" ]; then
      cargo clean --release --offline --locked --target-dir "$target" -p bip39 -p secp256k1_bip32 -p tesseract-keychain -p ckc -p kcv \
        >"$target/clean.log" 2>&1 || rm -rf "${target:?}/release"
    fi
    if ! cargo build --release --offline --locked --target-dir "$target" >"$target/build-release.log" 2>&1; then
      grep -A12 -E '^error' "$target/build-release.log" | head -60 >&2
      echo "CHECK ERROR: the harness does not build against /repo's tree for release" >&2
      exit 2
    fi
    echo "$sum" >"$target/stamp-release"
  ) 9>"$target/lock"
}

# the harness and the library with AddressSanitizer
build_asan() {
  (
    flock 9
    sum="$( { cd "$repo" && find bip39 secp256k1_bip32 keychain keychain-c Cargo.toml -type f -not -path '*/target/*' \
        -not -path 'keychain-c/include/*' -print0 | sort -z | xargs -0 sha256sum
      cd "$root" && find harness -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum | cut -c1-64)"
    dir="$target/asan"
    if [ "$(cat "$dir/stamp" 2>/dev/null)" = "$sum" ] && [ -x "$dir/$triple/debug/kcv" ]; then
      exit 0
    fi
    mkdir -p "$dir"
    rm -f "$dir/stamp"
    cd "$root/harness" || exit 2
    unset RUSTC_WRAPPER
    # the sanitizer comes with the compiler, but its option is not a stable one
    export RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zsanitizer=address --cfg kcv_asan"
    if [ -d "$dir/$triple/debug" ]; then
      cargo clean --offline --locked --target "$triple" --target-dir "$dir" -p bip39 -p secp256k1_bip32 -p tesseract-keychain -p ckc -p kcv \
        >"$dir/clean.log" 2>&1 || rm -rf "${dir:?}/$triple"
    fi
    if ! cargo build --offline --locked --target "$triple" --target-dir "$dir" >"$dir/build.log" 2>&1; then
      grep -A12 -E '^error' "$dir/build.log" | head -60 >&2
      echo "CHECK ERROR: the harness does not build against /repo's tree with a sanitizer" >&2
      exit 2
    fi
    echo "$sum" >"$dir/stamp"
  ) 9>"$target/lock"
}
triple=x86_64-unknown-linux-gnu

# the library built for each selection of networks (bits: 1 Bitcoin, 2 Ethereum, 4 Cardano)
build_feat() {
  tier="${tier:-quick}"
  (
    flock 9
    sum="$( { cd "$repo" && find bip39 secp256k1_bip32 keychain Cargo.toml -type f -not -path '*/target/*' \
        -print0 | sort -z | xargs -0 sha256sum
      cd "$root" && find harness/feat -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum | cut -c1-64)"
    dir="$target/feat"
    if [ "$(cat "$dir/stamp" 2>/dev/null)" = "$sum" ]; then
      exit 0
    fi
    mkdir -p "$dir"
    rm -f "$dir/stamp"
    cd "$root/harness/feat" || exit 2
    unset RUSTC_WRAPPER
    if [ -d "$dir/target/debug" ]; then
      cargo clean --offline --locked --target-dir "$dir/target" -p bip39 -p secp256k1_bip32 -p tesseract-keychain -p kcfeat \
        >"$dir/clean.log" 2>&1 || rm -rf "${dir:?}/target"
    fi
    for mask in 7 0 1 2 3 4 5 6; do
      f=""
      [ $((mask & 1)) -ne 0 ] && f="$f,bitcoin"
      [ $((mask & 2)) -ne 0 ] && f="$f,ethereum"
      [ $((mask & 4)) -ne 0 ] && f="$f,cardano"
      if ! cargo build --offline --locked --target-dir "$dir/target" --features "${f#,}" >"$dir/build.log" 2>&1; then
        grep -A12 -E '^error' "$dir/build.log" | head -40 >&2
        if [ $mask -ne 7 ] && grep -qE '^error\[E' "$dir/build.log"; then
          # compiles with all networks, but not with these: the selection is what breaks it
          mkdir -p "$root/replays" "$root/evidence"
          r="$root/replays/C21-build-$mask.json"
          msg="does not compile for the networks '${f#,}': $(grep -m1 -E '^error\[E' "$dir/build.log" | tr -d '"\\')"
          echo "{\"property\":\"C21\",\"sub\":\"build\",\"message\":\"$msg\",\"tape\":[]}" >"$r"
          echo "{\"property\":\"C21\",\"tier\":\"$tier\",\"seed\":${VERIF_SEED:-1},\"level\":\"exploration\",\"coverage\":{\"evaluations\":1,\"distinct_nontrivial\":1,\"rule\":\"the library is built for each selection of networks\",\"samples\":[\"$msg\"]},\"wall_s\":$SECONDS}" >"$root/evidence/C21.json"
          echo "  $msg"
          echo "VIOLATION property=C21 replay=$r"
          exit 1
        fi
        echo "CHECK ERROR: the library does not build for networks '${f#,}'" >&2
        exit 2
      fi
      cp "$dir/target/debug/kcfeat" "$dir/kcfeat-$mask.new" && mv "$dir/kcfeat-$mask.new" "$dir/kcfeat-$mask" || exit 2
    done
    echo "$sum" >"$dir/stamp"
  ) 9>"$target/lock"
}

# bip39 built with its optional serialization
build_ser() {
  (
    flock 9
    sum="$( { cd "$repo" && find bip39 Cargo.toml -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum
      cd "$root" && find harness/ser -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum | cut -c1-64)"
    dir="$target/ser"
    if [ "$(cat "$dir/stamp" 2>/dev/null)" = "$sum" ]; then
      exit 0
    fi
    mkdir -p "$dir"
    rm -f "$dir/stamp"
    cd "$root/harness/ser" || exit 2
    unset RUSTC_WRAPPER
    if [ -d "$dir/target/debug" ]; then
      cargo clean --offline --locked --target-dir "$dir/target" -p bip39 -p kcser >"$dir/clean.log" 2>&1 || rm -rf "${dir:?}/target"
    fi
    if ! cargo build --offline --locked --target-dir "$dir/target" >"$dir/build.log" 2>&1; then
      grep -A12 -E '^error' "$dir/build.log" | head -40 >&2
      echo "CHECK ERROR: bip39 does not build with serialization" >&2
      exit 2
    fi
    cp "$dir/target/debug/kcser" "$dir/kcser.new" && mv "$dir/kcser.new" "$dir/kcser" || exit 2
    echo "$sum" >"$dir/stamp"
  ) 9>"$target/lock"
}

# C programs compiled from the generated header, against the C library built for each selection of networks, with
# and without backup: kccabi-MASK[b]-{s,d}, linked with the static and with the dynamic library
build_cabi() {
  tier="${tier:-quick}"
  (
    flock 9
    sum="$( { cd "$repo" && find bip39 secp256k1_bip32 keychain keychain-c Cargo.toml Cargo.lock -type f -not -path '*/target/*' \
        -not -path 'keychain-c/include/*' -print0 | sort -z | xargs -0 sha256sum
      cd "$root" && find harness/cabi -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum | cut -c1-64)"
    dir="$target/cabi"
    if [ "$(cat "$dir/stamp" 2>/dev/null)" = "$sum" ]; then
      exit 0
    fi
    mkdir -p "$dir"
    rm -rf "${dir:?}/stamp" "${dir:?}/src" "${dir:?}"/kccabi-* "${dir:?}"/librk-*
    mkdir -p "$dir/src"
    # the header is generated into the source tree, so the build runs in a copy
    (cd "$repo" && tar --exclude=./target --exclude=./.git --exclude='./keychain-c/include/*.h' -cf - .) | tar -xf - -C "$dir/src" || exit 2
    cd "$dir/src/keychain-c" || exit 2
    unset RUSTC_WRAPPER
    export CARGO_PROFILE_DEV_OPT_LEVEL=2 CARGO_PROFILE_DEV_DEBUG=0
    violation() {
      mkdir -p "$root/replays" "$root/evidence"
      r="$root/replays/C23-build-$mask$bk.json"
      msg="$(echo "$1" | tr -d '"\\' | tr '\n\t' '  ' | cut -c1-600)"
      echo "{\"property\":\"C23\",\"sub\":\"build\",\"message\":\"$msg\",\"tape\":[]}" >"$r"
      echo "{\"property\":\"C23\",\"tier\":\"$tier\",\"seed\":${VERIF_SEED:-1},\"level\":\"exploration\",\"coverage\":{\"evaluations\":1,\"distinct_nontrivial\":1,\"rule\":\"the C library and a C program using its header are built for each selection of networks\",\"samples\":[\"$msg\"]},\"wall_s\":$SECONDS}" >"$root/evidence/C23.json"
      echo "  $msg"
      echo "VIOLATION property=C23 replay=$r"
      exit 1
    }
    first=1
    for bk in b ""; do
      for mask in 7 0 1 2 3 4 5 6; do
        f=""
        [ $((mask & 1)) -ne 0 ] && f="$f,bitcoin"
        [ $((mask & 2)) -ne 0 ] && f="$f,ethereum"
        [ $((mask & 4)) -ne 0 ] && f="$f,cardano"
        [ -n "$bk" ] && f="$f,backup"
        f="${f#,}"
        if [ -d "$dir/target/debug" ]; then
          p="-p tesseract-keychain-c"
          [ $first = 1 ] && p="$p -p bip39 -p secp256k1_bip32 -p tesseract-keychain"
          cargo clean --offline --locked --target-dir "$dir/target" $p >"$dir/clean.log" 2>&1 || rm -rf "${dir:?}/target"
        fi
        if ! cargo build --offline --locked --target-dir "$dir/target" --no-default-features --features "$f" >"$dir/build.log" 2>&1; then
          if [ $first = 0 ] && grep -qE '^error' "$dir/build.log" && grep -qE '^error(\[E|: could not compile)' "$dir/build.log"; then
            violation "the C library does not compile for '$f': $(grep -m1 -E '^error\[E' "$dir/build.log")"
          fi
          grep -A12 -E '^error' "$dir/build.log" | head -40 >&2
          echo "CHECK ERROR: the C library does not build for '$f'" >&2
          exit 2
        fi
        first=0
        n="$mask$bk"
        lib="$dir/target/debug"
        cp "$lib/librust_keychain.so" "$dir/librk-$n.so" || exit 2
        expect="-DEXPECT_BITCOIN=$((mask & 1)) -DEXPECT_ETHEREUM=$((mask >> 1 & 1)) -DEXPECT_CARDANO=$((mask >> 2 & 1)) -DEXPECT_BACKUP=$([ -n "$bk" ] && echo 1 || echo 0)"
        inc="$dir/src/keychain-c/include"
        # every function the header declares must be there
        { echo '#include "keychain.h"'
          echo 'void (*const kc_all[])(void) = {'
          gcc -E -P -I"$inc" "$inc/keychain.h" | tr '\n' ' ' | grep -oE '\b(keychain|keypath|delete|NETWORK)_[A-Za-z0-9_]* *\(' | tr -d '( ' | sort -u | sed 's/.*/(void (*)(void))&,/'
          echo '0};'; } >"$dir/all.c"
        printf 'extern "C" {\n#include "keychain.h"\n}\nint main() { return 0; }\n' >"$dir/cpp.cc"
        cc="gcc -std=c11 -O1 -Werror=implicit-function-declaration -I$inc $expect"
        if ! log="$(gcc -std=c11 -Wall -Wextra -Werror -I"$inc" -c "$dir/all.c" -o "$dir/all.o" 2>&1)"; then
          violation "built for '$f', the header is not understood by C: $log"
        fi
        if ! log="$(g++ -std=c++11 -Wall -Wextra -Werror -fsyntax-only -I"$inc" "$dir/cpp.cc" 2>&1)"; then
          violation "built for '$f', the header is not understood by C++: $log"
        fi
        if ! log="$($cc "$root/harness/cabi/driver.c" "$dir/all.o" "$lib/librust_keychain.a" -lpthread -ldl -lm -lgcc_s -o "$dir/kccabi-$n-s" 2>&1)"; then
          violation "built for '$f', a C program using the header does not link with the static library: $log"
        fi
        if ! log="$($cc "$root/harness/cabi/driver.c" "$dir/all.o" -L"$dir" "-l:librk-$n.so" -Wl,-rpath,"\$ORIGIN" -o "$dir/kccabi-$n-d" 2>&1)"; then
          violation "built for '$f', a C program using the header does not link with the dynamic library: $log"
        fi
      done
    done
    rm -rf "${dir:?}/src"
    echo "$sum" >"$dir/stamp"
  ) 9>"$target/lock"
}

case "${1:-}" in
  build) build || exit 2; build_feat >/dev/null; build_cabi >/dev/null; build_ser; build_rel || exit 2; build_asan || exit 2; "$target/debug/kcv" selftest || exit 2; exit 0 ;;
  replay) build || exit 2; build_feat || exit $?; build_cabi || exit $?; build_ser || exit $?
    if grep -q '"build":"release"' "$2"; then build_rel || exit $?; exec "$target/release/kcv" replay "$2"; fi
    if grep -q '"build":"asan"' "$2"; then build_asan || exit $?; exec "$target/asan/$triple/debug/kcv" replay "$2"; fi
    exec "$target/debug/kcv" replay "$2" ;;
  C[0-9][0-9]) ;;
  *) sed -n 2,5p "$0" >&2; exit 2 ;;
esac
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
if [ "$id" = C25 ] || [ "$id" = C18 ]; then
  build_rel || exit $?
  "$target/release/kcv" run "$id" "$tier" "${VERIF_SEED:-1}" "$root"
  rc=$?
  case $rc in
    0) [ "$id" = C25 ] && exit 0 ;;
    1) exit 1 ;;
    *) exit 2 ;;
  esac
  # what the compiler may remove depends on the build: C18 is decided in both
  cp "$root/evidence/$id.json" "$target/$id-release.json" || exit 2
  export KCV_ALSO="$target/$id-release.json"
fi
if [ "$id" = C29 ]; then
  build_asan || exit $?
  "$target/asan/$triple/debug/kcv" run "$id" "$tier" "${VERIF_SEED:-1}" "$root"
  rc=$?
  [ $rc -le 1 ] && exit $rc
  exit 2
fi
build || exit 2
if [ "$id" = C21 ] || [ "$id" = C23 ]; then
  build_feat || exit $?
fi
if [ "$id" = C23 ]; then
  build_cabi || exit $?
fi
if [ "$id" = C24 ]; then
  build_ser || exit $?
fi
"$target/debug/kcv" run "$id" "$tier" "${VERIF_SEED:-1}" "$root"
rc=$?
case $rc in 0 | 1) exit $rc ;; *) exit 2 ;; esac
