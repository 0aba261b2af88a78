fn main() {
    println!("cargo:rustc-link-arg=-rdynamic");
    println!("cargo:rerun-if-changed=build.rs");
}
