//! The language server plugin, with the monitor's configuration.
fn main() {
    let config = std::env::var("LSPPLUG_CONFIG").unwrap();
    let config: xi_lsp_lib::Config = serde_json::from_str(&config).unwrap();
    let mut p = xi_lsp_lib::LspPlugin::new(config);
    xi_lsp_lib::start_mainloop(&mut p);
}
