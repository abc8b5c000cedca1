#!/bin/sh
# check.sh PROPERTY [--replay SECTION CASE]: build the harness from /repo's working tree, and run it.
# Exit 0: held on what was observed; 1: violated (with a VIOLATION line); 3: no verdict.
cd "$(dirname "$0")" || exit 3
VERIF_DIR=$(pwd); export VERIF_DIR
. ./env.sh
case "$1" in
  I*) crate=iri crates=iri ;;
  N*|C*) crate=core crates=core ;;
  T*) crate=io crates="cli io" ;;
  *) crate=io crates=io ;;
esac
for c in $crates; do
  if ! out=$(cargo build --manifest-path "harness/$c/Cargo.toml" --locked 2>&1); then
    echo "$out" | tail -40 >&2
    echo "the harness does not build" >&2
    exit 3
  fi
done
exec "$CARGO_TARGET_DIR/debug/chk_$crate" "$@"
