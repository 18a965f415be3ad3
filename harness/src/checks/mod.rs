use crate::core::Ctx;

pub struct Spec {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&Ctx),
}

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c15;
mod c16;
mod c19;
mod c14;
mod c17;
mod c18;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;

pub const ALL: &[Spec] = &[c01::SPEC, c02::SPEC, c03::SPEC, c04::SPEC, c05::SPEC, c06::SPEC, c07::SPEC, c08::SPEC, c09::SPEC, c10::SPEC, c11::SPEC, c12::SPEC, c13::SPEC, c15::SPEC, c16::SPEC, c19::SPEC, c14::SPEC, c17::SPEC, c18::SPEC, c20::SPEC, c21::SPEC, c22::SPEC, c23::SPEC, c24::SPEC, c25::SPEC, c26::SPEC, c27::SPEC];

pub fn child(mode: &str, ctx: &Ctx, spec: &serde_json::Value, extra: &mut serde_json::Value) {
    match mode {
        "bk" => c08::bk(ctx, spec, extra),
        "session" => c06::session(ctx, spec, extra),
        "crashrun" => c07::crashrun(ctx, spec, extra),
        "recover" => c07::recover_child(ctx, spec, extra),
        _ => panic!("no such child mode: {}", mode),
    }
}
