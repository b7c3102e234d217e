mod r_delta;
mod r_engine;
mod r_rope;
mod r_spans;
mod r_text;
mod uax;
fn main() {
    let mut v = vec![r_rope::prop(), r_delta::prop_delta(), r_delta::prop_subset(), r_spans::prop()];
    v.extend(r_engine::props());
    v.extend(r_text::props());
    monlib::main(v)
}
