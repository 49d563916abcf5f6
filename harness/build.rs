// the stand-ins for libgit2's functions take precedence over the static library
fn main() {
    println!("cargo:rustc-link-arg-bins=-Wl,--allow-multiple-definition");
}
