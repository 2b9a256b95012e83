# Cargo goes by modification times: forget the crate if its contents changed.
fresh() { # profile
    local sum
    sum=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32)
    if [ "$(cat "$CARGO_TARGET_DIR/$1/.repo-sum" 2>/dev/null)" != "$sum" ]; then
        rm -rf -- "$CARGO_TARGET_DIR/$1/.fingerprint/"mdarray-* "$CARGO_TARGET_DIR/$1/.fingerprint/"worlds-*
        mkdir -p "$CARGO_TARGET_DIR/$1" && echo "$sum" >"$CARGO_TARGET_DIR/$1/.repo-sum"
    fi
}
