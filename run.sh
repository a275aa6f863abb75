#!/bin/bash
# run.sh PROPERTY: rebuilds the parser from /repo's working tree together with the harness and runs the
# check of one property. Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: no answer.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${VERIF_TIER:-quick}
seed=${VERIF_SEED:-1}
export CARGO_HOME="${CARGO_HOME:-/root/.cargo}" RUSTUP_HOME="${RUSTUP_HOME:-/root/.rustup}"
export PATH="$CARGO_HOME/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
cd "$here" || exit 2
features=
dir=target
case $id in C21 | build-onig) features="--features onig" dir=target-onig ;; esac
mkdir -p "$here/harness/$dir" "$here/evidence" "$here/replays"
exec 9>"$here/harness/.lock"
flock 9

# build.rs writes parse.rs and list.rs into /repo/src (both git-ignored) but only looks at the time
# stamp of parse.y. Generate them afresh whenever what they come from, or they themselves, changed.
state=$here/harness/$dir/codegen.sha256
codegen_hash() {
    (cd /repo && sha256sum src/parser/parse.y src/parser/parse.rs src/reserved_words/list.rs build.rs $(find codegen -name '*.rs' | sort) 2>&1)
}
if [ "$(codegen_hash)" != "$(cat "$state" 2>/dev/null)" ]; then
    rm -f "$state" /repo/src/parser/parse.rs /repo/src/reserved_words/list.rs
    rm -rf "$here/harness/$dir"/release/build/lib-ruby-parser-* "$here/harness/$dir"/release/.fingerprint/lib-ruby-parser-????????????????
fi
# Content, not time stamps, decides whether the parser is compiled again.
src_state=$here/harness/$dir/source.sha256
src_hash() {
    (cd /repo && find src Cargo.toml build.rs codegen -type f ! -path 'src/parser/parse.rs' ! -path 'src/reserved_words/list.rs' -print0 | sort -z | xargs -0 sha256sum)
}
if [ "$(src_hash)" != "$(cat "$src_state" 2>/dev/null)" ]; then
    rm -f "$src_state"
    rm -rf "$here/harness/$dir"/release/.fingerprint/lib-ruby-parser-????????????????
fi
(cd harness && cargo build --release --offline $features --target-dir "$dir") >"$here/harness/$dir/build.log" 2>&1 || {
    echo "$id: the build failed" >&2
    tail -40 "$here/harness/$dir/build.log" >&2
    exit 2
}
codegen_hash >"$state"
src_hash >"$src_state"
flock -u 9
case $id in build | build-onig) exit 0 ;; esac
"$here/harness/$dir/release/vp" check "$id" --tier "$tier" --seed "$seed" --evidence "$here/evidence/$id.json" --replays "$here/replays" --known "$here/known-findings.tsv"
rc=$?
case $rc in
132 | 134 | 135 | 139 | 142)
    # a fatal signal in the code under test that even the handler could not report
    echo "{\"property\": \"$id\", \"seed\": $seed, \"tier\": \"$tier\", \"message\": \"the process under test ended with status $rc\"}" >"$here/replays/$id-signal-$seed.json"
    echo "VIOLATION property=$id replay=$here/replays/$id-signal-$seed.json"
    exit 1
    ;;
esac
exit $rc
