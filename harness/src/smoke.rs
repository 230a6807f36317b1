use crate::sym;
use reductionml_core::parsers::*;
use reductionml_core::workspace::*;
use reductionml_core::*;

#[no_mangle]
pub extern "C" fn smoke_coin() {
    let cfg = Configuration::from_json_str(r#"{"globalConfig":{"numBits":4},"entryReduction":{"typename":"Coin"}}"#).unwrap();
    let mut ws = Workspace::new(cfg).unwrap();
    let p = VwTextParserFactory::default().create_with_workspace(&ws);
    let (mut f, _) = p.parse_chunk("0.5 |a b:2 c").unwrap();
    let y = sym::f32_in("y", -10.0, 10.0);
    let l = types::Label::Simple(types::SimpleLabel::new(y, 1.0));
    let pr = ws.predict_then_learn(&mut f, &l);
    let v = ws.serialize_model().unwrap();
    let ws2 = Workspace::create_from_model(&v).unwrap();
    let a: f32 = scalar(ws.predict(&mut f));
    let b: f32 = scalar(ws2.predict(&mut f));
    let _ = pr;
    sym::observe_f32("a", a);
    sym::check(sym::same(a, b), "same prediction after reload");
    sym::reach("end");
}

fn scalar(p: types::Prediction) -> f32 { match p { types::Prediction::Scalar(s) => s.prediction, _ => panic!() } }
