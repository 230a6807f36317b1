mod big;
mod cb;
mod coin;
mod config;
mod explore;
mod feats;
mod learners;
mod parse;
mod recycle;
mod losses;
mod fx;
mod sym;
mod smoke;
mod stacks;

macro_rules! harnesses {
    ($($m:ident :: $f:ident),* $(,)?) => {
        fn dispatch(name: &str) -> bool {
            match name { $( stringify!($f) => { $m::$f(); true } )* _ => false }
        }
    };
}
harnesses!(big::wide_restored, big::wide_recycled, big::long_vw, big::long_json, big::long_ds, big::long_chunking, cb::wide_scores, cb::wide_learn, recycle::recycled, recycle::second_life, recycle::names_line, recycle::names_cb, recycle::names_interacted, recycle::names_table, parse::vw_line, parse::vw_cb, parse::json_simple, parse::json_cb, parse::ds_line, parse::chunking, parse::json_escaped_key, config::nesting, config::type_check, config::default_fields, config::default_globals, config::global_effect, config::refusals, config::kept_values, config::yaml, config::regularised, config::elementwise, config::coin_rule, coin::slots, coin::slot_values, coin::masked, coin::separate, coin::coin_history, coin::coin_state, losses::loss_squared, losses::loss_logistic, losses::metric_values, losses::metric_counts, losses::metric_long, learners::long_history, learners::reload_wide, cb::cb_scores, cb::cb_learn, cb::wrapped, cb::binary, smoke::smoke_coin, feats::append_remove, feats::interactions, feats::visit_agree, stacks::restored, learners::twin_ops, learners::reload, learners::reload_any, learners::reload_learned, learners::table_roundtrip, learners::reload_big, learners::step_any, explore::greedy, explore::softmax, explore::squarecb, explore::min_prob, explore::min_prob_wide, explore::min_prob_refuse);

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 { eprintln!("usage: harness REPLAY-FILE"); std::process::exit(78); }
    let p = std::ffi::CString::new(a[1].as_str()).unwrap();
    let h = sym::init(&p);
    if !dispatch(&h) { eprintln!("unknown harness {h}"); std::process::exit(78); }
    println!("DONE");
}
