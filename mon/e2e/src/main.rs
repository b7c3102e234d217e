//! The editor as a user runs it: the core's process, plugins' processes, files.
#[allow(dead_code)]
#[path = "../../core/src/mirror.rs"]
mod mirror;
mod proc;
mod r_lsp;
mod r_procs;
fn main() {
    monlib::main(vec![r_procs::prop(), r_lsp::prop()])
}
