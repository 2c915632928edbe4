#!/bin/bash
# run.sh <property> [--replay FILE]: rebuilds the harness against /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
H="$PWD/harness"
mkdir -p evidence replays "$H/subject/src"
build() {
  exec 9>"$H/.lock"; flock 9
  # a copy of the sources as a library, with the adapter as one more module
  rsync_src() {
    local tmp; tmp="$(mktemp -d "$H/subject/.src.XXXXXX")" || return 1
    cp -a /repo/src/. "$tmp/" || return 1
    mv "$tmp/main.rs" "$tmp/lib.rs" || return 1
    printf '\npub mod verif_adapter;\n' >> "$tmp/lib.rs"
    cp "$H/subject/adapter.rs" "$tmp/verif_adapter.rs" || return 1
    if diff -rq "$tmp" "$H/subject/src" >/dev/null 2>&1; then rm -rf "$tmp"; else rm -rf "$H/subject/src"; mv "$tmp" "$H/subject/src"; find "$H/subject/src" -name '*.rs' -exec touch {} +; fi
  }
  rsync_src || { echo "ERROR cannot copy the sources"; return 2; }
  ( cd "$H" && RUSTFLAGS="-Awarnings" CARGO_TARGET_DIR="$H/target" cargo build --offline --release -q -p pcr-run ) > "$H/build.log" 2>&1 || { tail -40 "$H/build.log"; echo "ERROR the harness does not build"; return 2; }
  flock -u 9
}
build || exit 2
[ "$1" = "--build" ] && exit 0
exec "$H/target/release/pcr-run" "$@"
