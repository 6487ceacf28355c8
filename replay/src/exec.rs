//! The calls of contracts/exec on the real crate (the extracted text, executed, must print the same).
use rand::RngCore;
pub struct Script;
mod common { include!("../../contracts/exec/common.rs"); }
impl RngCore for Script {
    fn next_u32(&mut self) -> u32 { common::draw64() as u32 }
    fn next_u64(&mut self) -> u64 { common::draw64() }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = common::draw64() as u8; } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
/// what stands for F64 and It on the other side
mod shim {
    pub fn fl(x: f64) -> f64 { x }
    pub fn un(x: f64) -> f64 { x }
    pub fn items<T>(v: Vec<T>) -> Vec<T> { v }
    #[derive(Clone, PartialEq)]
    pub struct Ind { pub f: f64, pub id: usize }
    impl rusty_genes::Individual for Ind { fn fitness(&self) -> f64 { self.f } }
    pub fn made(v: Vec<Ind>) -> (Vec<(f64, usize)>, f64, usize, f64, usize, usize) {
        let p = rusty_genes::Population::new(v);
        let s = p.stats();
        (p.iter().map(|i| (i.f, i.id)).collect(), s.min(), s.arg_min(), s.max(), s.arg_max(), s.count())
    }
    pub fn pop(v: Vec<Ind>) -> rusty_genes::Population<Ind> { rusty_genes::Population::new(v) }
}
macro_rules! units { ($($u:ident)*) => {
    $(mod $u { #![allow(unused_imports)] use super::Script; use super::common::*; use super::shim::*; use rusty_genes::*; include!(concat!("../../contracts/exec/", stringify!($u), ".rs")); })*
    pub fn run(u: &str) -> bool { let mut out = vec![]; match u { $(stringify!($u) => $u::cases(&mut out),)* _ => return false } for l in out { println!("{l}"); } true }
} }
units! { popn scx pmx ox cx spx cn cp gpx rnd dup mutation stats statsx lerp dispatch sel }
