mod drive;
mod mirror;
mod model;
mod ops;
mod plug;
mod r_cache;
mod r_config;
mod r_conffiles;
mod r_file;
mod r_find;
mod r_hostile;
mod r_merge;
mod r_model;
mod r_plugin;
mod r_plughostile;
mod r_relay;
mod r_style;
mod r_undo;
mod r_view;
mod r_wrap;
mod sync;
mod uax;
fn main() {
    let mut p = Vec::new();
    p.extend(r_view::props());
    p.extend(r_model::props());
    p.extend(r_undo::props());
    p.extend(r_find::props());
    p.extend(r_config::props());
    p.extend(r_conffiles::props());
    p.extend(r_hostile::props());
    p.extend(r_file::props());
    p.extend(r_wrap::props());
    p.extend(r_plugin::props());
    p.extend(r_merge::props());
    p.extend(r_style::props());
    p.extend(r_relay::props());
    p.extend(r_plughostile::props());
    p.push(r_cache::prop());
    monlib::main(p)
}
