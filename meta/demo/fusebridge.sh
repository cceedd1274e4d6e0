# sourced: build_bridge DIR: builds DIR/bridge, which serves the image given as its argument over the FUSE protocol on standard input
build_bridge() {
    local w=$1/bridge_src
    mkdir -p "$w/src"
    cp Cargo.lock "$w/Cargo.lock"
    cat > "$w/Cargo.toml" <<EOT
[package]
name = "bridge"
version = "0.1.0"
edition = "2021"
[dependencies]
xdvdfs = { path = "$PWD/xdvdfs-core" }
fuser = { version = "0.15.1", default-features = false }
tokio = { version = "1.43.0", features = ["full"] }
anyhow = "1.0.71"
libc = "0.2.169"
log = "0.4.17"
[workspace]
EOT
    cat > "$w/src/main.rs" <<EOT
#[path = "$PWD/xdvdfs-fsd/src/img_fs.rs"]
mod img_fs;
use std::os::fd::FromRawFd;
fn main() {
    let p = std::env::args().nth(1).unwrap();
    let p = std::path::Path::new(&p);
    let rt = tokio::runtime::Runtime::new().unwrap();
    let fs = img_fs::FuseFilesystem::new(p, std::fs::metadata(p).unwrap(), rt).unwrap();
    let fd = unsafe { std::os::fd::OwnedFd::from_raw_fd(0) };
    let _ = fuser::Session::from_fd(fs, fd, fuser::SessionACL::All).run();
}
EOT
    (cd "$w" && CARGO_TARGET_DIR="$1/t" cargo build --offline -q 2>&1) || return 1
    cp "$1/t/debug/bridge" "$1/bridge"
}
