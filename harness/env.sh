export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.97.1 RUSTC_BOOTSTRAP=1 
export RUSTFLAGS="-C no-prepopulate-passes -C embed-bitcode=yes"
export CARGO_TARGET_DIR=/verif/target
export CARGO_PROFILE_DEV_OPT_LEVEL=0 CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_PANIC=abort CARGO_PROFILE_DEV_OVERFLOW_CHECKS=false CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=false CARGO_PROFILE_DEV_LTO=fat CARGO_PROFILE_DEV_CODEGEN_UNITS=16 CARGO_PROFILE_DEV_INCREMENTAL=false
