verus! {
#[derive(Clone, Copy)]
pub struct Ind { pub f: F64, pub id: usize }
impl PartialEq for Ind { #[verifier::external_body] fn eq(&self, o: &Ind) -> bool { self.f.v == o.f.v && self.id == o.id } }
impl Individual for Ind {
    uninterp spec fn fit(&self) -> F64;
    #[verifier::external_body] fn fitness(&self) -> F64 { self.f }
    #[verifier::external_body] fn is_valid(&self) -> bool { self.f.v.is_finite() }
}
}
/// what a population made of v holds, and its statistics
pub fn made(mut v: Vec<Ind>) -> (Vec<(f64, usize)>, f64, usize, f64, usize, usize) {
    let s = sort_dedup_and_collect_stats(&mut v).stats;
    (v.iter().map(|i| (i.f.v, i.id)).collect(), s.min.v, s.arg_min, s.max.v, s.arg_max, s.count)
}
