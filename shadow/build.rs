// Makes cargo rebuild the shadowed crate whenever the content of /repo's sources changes,
// whatever the files' modification times say (see run.sh).
fn main() {
    println!("cargo:rerun-if-env-changed=VERIF_SRC_HASH");
    println!("cargo:rustc-env=VERIF_SRC_HASH={}", std::env::var("VERIF_SRC_HASH").unwrap_or_default());
}
