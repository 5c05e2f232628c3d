w=$(mktemp -d); mkdir $w/src; echo 'fn main(){}' > $w/src/main.rs; sed "s#@REPO@#/repo#" /verif/tools/demo/Cargo.toml.in > $w/Cargo.toml; cp /verif/harness/Cargo.lock $w/Cargo.lock; cd $w; RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu cargo build --offline -q && cp Cargo.lock /verif/tools/demo/Cargo.lock; rm -rf "$w"
