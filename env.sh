# Sourced by the scripts: toolchain settings and the (re)build of the harness.
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
ulimit -n 65536 2>/dev/null || ulimit -n "$(ulimit -Hn)" 2>/dev/null

repo_hash() {
    (cd /repo && find src Cargo.toml build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum | cut -d' ' -f1)
}
# fresh <target dir> <cargo command...>: cargo judges by time stamps, which a restored tree need
# not respect; htrpc is rebuilt whenever the contents of its sources differ from the last build.
build_in() {
    local target="$1"; shift
    mkdir -p "$target"
    (
        flock 9
        h="$(repo_hash)"
        if [ "$(cat "$target/.repo-hash" 2>/dev/null)" != "$h" ]; then
            rm -f "$target/.repo-hash"
            find "$target" -maxdepth 5 \( -name 'htrpc-*' -o -name 'libhtrpc-*' \) -prune -exec rm -rf {} + 2>/dev/null
        fi
        "$@" >"$target/.build.log" 2>&1 || { grep -E '^error' -A8 "$target/.build.log" | head -60 >&2; exit 1; }
        echo "$h" >"$target/.repo-hash"
    ) 9>"$target/.lock"
}
build_harness() {
    build_in "$here/harness/target" cargo build --offline --locked --manifest-path "$here/harness/Cargo.toml"
}
