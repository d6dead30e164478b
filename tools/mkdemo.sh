#!/bin/bash
# mkdemo.sh ID [extra dependency lines]: writes the usual demo.sh (a scratch crate around main.rs) for a planted change
D=/verif/seeded/$1; mkdir -p $D
cat > $D/demo.sh <<X
#!/bin/bash
D=\$(cd "\$(dirname "\$0")" && pwd); R=\$PWD; T=\$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "\$T"' EXIT
mkdir "\$T/src"; cp "\$D/main.rs" "\$T/src/main.rs"; cp "\$R/Cargo.lock" "\$T/Cargo.lock"
cat > "\$T/Cargo.toml" <<Y
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
hugr = { path = "\$R/hugr" }
hugr-core = { path = "\$R/hugr-core" }
${2}
[profile.dev]
debug = false
Y
cd "\$T" && RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR="\$T/target" cargo run --offline -q
X
