fn main() {
    let t = std::fs::read_to_string("/repo/Cargo.toml").expect("Cargo.toml");
    let v = t.lines().find_map(|l| l.strip_prefix("version = \"")).and_then(|x| x.strip_suffix('"')).expect("version").to_string();
    println!("cargo:rustc-env=REPO_VERSION={v}");
    println!("cargo:rerun-if-changed=/repo/Cargo.toml");
}
