# Environment for everything that is built here; /repo and its target folder are only read.
export PATH=/root/.cargo/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=/verif/build/target
