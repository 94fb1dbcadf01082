# Sourced. Builds the simulations; everything is offline and pinned by sim/Cargo.lock.
export RUSTUP_TOOLCHAIN=1.98.0
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET

build() {
  (
    flock 9
    sim/generate.sh && cd sim && cargo build --offline --locked -q -p "$1" 2>../sim/build.log || { tail -60 ../sim/build.log >&2; exit 1; }
  ) 9>sim/.build.lock
}
