pub use crate::util::*;

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c24;
mod c25;
mod c26;
mod c27;
mod c28;
mod c29;
mod c30;
mod c31;
mod c32;
mod c33;
mod c34;
mod c35;
mod c36;
mod c37;

pub fn all() -> Vec<Prop> {
    let mut v: Vec<Prop> = Vec::new();
    let fs: &[fn() -> Vec<Prop>] = &[c01::props, c02::props, c03::props, c04::props, c05::props, c06::props, c07::props, c08::props, c09::props, c10::props, c11::props, c12::props, c13::props, c14::props, c15::props, c16::props, c17::props, c18::props, c19::props, c20::props, c21::props, c22::props, c24::props, c25::props, c26::props, c27::props, c28::props, c29::props, c30::props, c31::props, c32::props, c33::props, c34::props, c35::props, c36::props, c37::props];
    for f in fs {
        v.extend(f());
    }
    v
}

pub fn helper(args: &[String]) {
    match args[0].as_str() {
        "c10" => c10::helper(&args[1..]),
        "c12" => c12::helper(&args[1..]),
        "c24" => c24::helper(&args[1..]),
        "c25" => c25::helper(&args[1..]),
        "c33" => c33::helper(&args[1..]),
        "c35" => c35::helper(&args[1..]),
        _ => panic!("unknown helper"),
    }
}

pub fn prop(id: &'static str, quick: u64, run: fn(&mut Ctx, u64, &mut Rng) -> R, rule: &'static str) -> Prop {
    Prop { id, run, quick, rule  , quiet: false }
}
