use quote::ToTokens;
use syn::Item;

fn extract(file: &str, keep: impl Fn(&Item) -> bool) {
    let path = format!("/repo/src/{}", file);
    println!("cargo:rerun-if-changed={}", path);
    let source = std::fs::read_to_string(&path).unwrap();
    let parsed = syn::parse_file(&source).unwrap_or_else(|e| panic!("{}: {}", path, e));
    let kept: String = parsed
        .items
        .iter()
        .filter(|item| keep(item))
        .map(|item| item.to_token_stream().to_string() + "\n")
        .collect();
    std::fs::write(format!("{}/{}", std::env::var("OUT_DIR").unwrap(), file), kept).unwrap();
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    extract("utils.rs", |item| match item {
        Item::Type(_) => true,
        _ => false,
    });
}
