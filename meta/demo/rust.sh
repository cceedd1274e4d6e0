# sourced: run_rust MAIN.rs [extra deps lines]: builds and runs a scratch program against ./xdvdfs-core
run_rust() {
    local d rc
    d=$(mktemp -d) || exit 99
    mkdir -p "$d/src"
    cp "$1" "$d/src/main.rs"
    cp Cargo.lock "$d/Cargo.lock"
    cat > "$d/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
xdvdfs = { path = "$PWD/xdvdfs-core" }
futures = "0.3.28"
async-trait = "0.1.68"
[workspace]
EOT
    (cd "$d" && CARGO_TARGET_DIR="$d/t" cargo run --offline -q 2>&1)
    rc=$?
    /bin/rm -r "$d"
    return $rc
}
