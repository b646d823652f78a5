mod service;

fn main() {
    let root = std::path::PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".to_string()));
    pbt::main_with(pbt::Paths { root }, service::facets(), &[])
}
