use crate::engine::Prop;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
pub mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c28;
mod c29;
pub use c29::watch;
mod plug;

pub fn all() -> Vec<Prop> {
  let mut v = vec![
    c01::prop(),
    c02::prop(),
    c03::prop(),
    c04::prop(),
    c05::prop(),
    c06::prop(),
    c07::prop(),
    c08::prop(),
    c09::prop(),
    c10::prop(),
    c11::prop(),
    c12::prop(),
    c13::prop(),
    c14::prop(),
    c15::prop(),
    c16::prop(),
    c17::prop(),
    c18::prop(),
    c19::prop(),
    c20::prop(),
    c21::prop(),
    c22::prop(),
    c23::prop(),
    c24::prop(),
    c26::prop(),
  ];
  v.push(c25::prop(&v));
  v.push(c27::prop(&v));
  v.push(c28::prop(&v));
  v.push(c29::prop(&v));
  v
}
