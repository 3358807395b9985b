#!/bin/bash
# usage: check.sh PROPERTY quick|thorough     (also: check.sh replay FILE, check.sh build)
# Builds the simulator against /repo's working tree in two profiles and runs the check.
# exit 0: held on everything explored, 1: VIOLATION, 2: could not build or harness failure
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export SIM_HOME="$here"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$here/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p "$here/target" "$here/evidence" "$here/replays"
build() { # profile
  (cd "$here/sim" && CARGO_TARGET_DIR="$here/target/b-$1" cargo build -q --offline --profile "$1") >"$here/target/$1.log" 2>&1 || return 1
  mkdir -p "$here/target/$1"
  cp -f "$here/target/b-$1/$1/simcheck" "$here/target/$1/simcheck.new" && mv -f "$here/target/$1/simcheck.new" "$here/target/$1/simcheck"
}
# the simulator for other machines, run by an interpreter: optional, nothing depends on it
foreign() { # target name
  local out="$here/target/foreign/$2"
  mkdir -p "$out" && rm -f "$out/run.sh"
  cd "$here/sim" || return 1
  export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_INCREMENTAL=0 XDG_CACHE_HOME="$here/target/cache" CARGO_TERM_COLOR=never
  export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-ignore-leaks"
  CARGO_TARGET_DIR="$here/target/foreign/build" timeout 400 cargo miri run -v --offline --target "$1" -- machine >"$out/log" 2>&1 || return 1
  grep -q '^MACHINE ' "$out/log" || return 1
  # the command that starts the interpreter, with our arguments instead of "machine"
  sed -n 's/^\[cargo-miri runner\] running command: \(.*\) "machine"$/\1 "$@"/p' "$out/log" | sed 's/ && env / \&\& exec env /' >"$out/run.new"
  [ -s "$out/run.new" ] && mv -f "$out/run.new" "$out/run.sh"
}
case "${SIM_FOREIGN:+thorough }${2:-} ${1:-}" in
  "quick C07" | "quick C09" | "quick C12") machines="i586" ;;
  "quick C02") machines="s390x" ;;
  thorough*) machines="i586 s390x" ;;
  *) machines="" ;;
esac
[ "${1:-}" = replay ] && machines=$(sed -n 's/^profile: \(i586\|s390x\)$/\1/p' "${2:-/dev/null}")
(
  flock 9 || true
  build checked & c=$!
  build shipped & s=$!
  ok=0
  wait $c || ok=2
  wait $s || ok=2
  rm -f "$here"/target/foreign/*/run.sh
  for m in $machines; do
    [ $ok = 0 ] && (foreign $m-unknown-linux-gnu $m) || true
  done
  exit $ok
) 9>"$here/target/lock" || {
  echo "build of the simulator against /repo failed:" >&2
  grep -hE -A12 "^error" "$here/target/checked.log" "$here/target/shipped.log" | head -60 >&2
  exit 2
}
case "$1" in
  build) exit 0 ;;
  *) exec "$here/target/shipped/simcheck" $([ "$1" = replay ] || echo check) "$@" ;;
esac
