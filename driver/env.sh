export HOME=/root RUSTUP_TOOLCHAIN=nightly-2026-08-21 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
export VERIF_GEN=/verif/build/gen
