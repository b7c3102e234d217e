mod r_rpc;
mod r_trace;
fn main() {
    let mut v = Vec::new();
    v.extend(r_rpc::props());
    v.extend(r_trace::props());
    monlib::main(v)
}
