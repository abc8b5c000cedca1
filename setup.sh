#!/bin/sh
# Builds every harness crate from the committed files and /repo's working tree, offline.
cd "$(dirname "$0")" || exit 3
VERIF_DIR=$(pwd); export VERIF_DIR
. ./env.sh
mkdir -p evidence
for crate in iri core io cli; do
  [ -f "harness/$crate/Cargo.toml" ] || continue
  cargo build --manifest-path "harness/$crate/Cargo.toml" --locked || exit 3
done
