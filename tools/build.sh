#!/bin/bash
# build.sh BIN... : builds the named executors of /verif/harness against
# /repo's working tree in the four configurations, in parallel. With
# VERIF_BUILDS=memory the configurations are those that make undefined memory
# accesses visible: AddressSanitizer, and unoptimised release code (the
# compiler must not reason from undefined behaviour) for valgrind.
. "$(dirname "$0")/env.sh"
root=$(cd "$(dirname "$0")/.." && pwd)
work=${VERIF_WORK:-$root/.work}
mkdir -p "$work"
cd "$root/harness" || exit 2
bins=(); for b in "$@"; do bins+=(--bin "$b"); done
one() {  # one DIR CARGO-ARGS...
  local dir=$work/$1; shift
  CARGO_TARGET_DIR=$dir cargo build -q --locked --offline "${bins[@]}" "$@" > "$dir.log" 2>&1
}
pids=(); names=()
asan() { RUSTC_BOOTSTRAP=1 RUSTFLAGS=-Zsanitizer=address one "$1" --target x86_64-unknown-linux-gnu; }
plain() { CARGO_PROFILE_RELEASE_OPT_LEVEL=0 one "$@"; }
go() { names+=("$2"); "$@" & pids+=($!); }
if [ "${VERIF_BUILDS:-}" = memory ]; then
  go asan as
  go plain vn --release
  go plain vl --release --features llvm
else
  go one nd
  go one nr --release
  go one ld --features llvm
  go one lr --release --features llvm
fi
rc=0
for p in "${pids[@]}"; do wait $p || rc=2; done
[ $rc = 0 ] || for n in "${names[@]}"; do tail -n 30 "$work/$n.log"; done >&2
exit $rc
