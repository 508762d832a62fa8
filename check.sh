#!/bin/bash
# check.sh <property> <quick|thorough>: rebuilds the model checker against /repo's working tree and
# runs it. Exit 0: held; 1: violation (with a VIOLATION line); 3: no verdict.
cd "$(dirname "$0")" || exit 3
id=$1 tier=${2:-quick}
if [ "$id" = C20 ]; then
    rm -f "evidence/$id.json"
    exec python3 pg/check.py "$tier"
fi
case $id in
C01|C02|C03) features=stream;;
C04|C05|C06|C07|C08|C09|C10|C11|C12|C16) features=exact;;
C13|C14|C15|C18) features=misc;;
C17) features=misc,wraps;;
C19) features=exact,misc,stream;;
*) features=;;
esac
export CARGO_TARGET_DIR=$PWD/target/${features:-base} MC_ROOT=$PWD
mkdir -p "$CARGO_TARGET_DIR" out evidence || exit 3
# Cargo trusts modification times; this does not.
sum=$(find /repo/src /repo/Cargo.toml mc/src mc/Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$sum" != "$(cat "$CARGO_TARGET_DIR/sources" 2>/dev/null)" ]; then
    rm -f "$CARGO_TARGET_DIR/sources"
    (cd mc && cargo clean --release --offline -q -p mc -p parse-proof-of-concept) >/dev/null 2>&1
fi
if ! (cd mc && RUSTFLAGS=-Awarnings cargo build --release --offline -q --no-default-features --features "$features") >out/build.$id.log 2>&1; then
    tail -40 out/build.$id.log >&2
    echo "ENGINE-ERROR the checker does not build against /repo" >&2
    exit 3
fi
echo "$sum" >"$CARGO_TARGET_DIR/sources"
rm -f "evidence/$id.json"
ulimit -c 0
ulimit -v $((24 * 1024 * 1024))
exec "$CARGO_TARGET_DIR/release/mc" "$id" "$tier"
