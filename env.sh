# Sourced by setup.sh and run.sh: fixed toolchain and offline cargo.
export HOME=/root LANG=C.UTF-8
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export PYO3_PYTHON=/usr/bin/python3 PYTHONDONTWRITEBYTECODE=1 RUST_BACKTRACE=0
