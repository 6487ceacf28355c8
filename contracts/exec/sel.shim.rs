verus! {
#[derive(Clone, Copy)]
pub struct Ind { pub f: F64, pub id: usize }
impl PartialEq for Ind { #[verifier::external_body] fn eq(&self, o: &Ind) -> bool { self.f.v == o.f.v && self.id == o.id } }
impl Individual for Ind {
    uninterp spec fn fit(&self) -> F64;
    #[verifier::external_body] fn fitness(&self) -> F64 { self.f }
    #[verifier::external_body] fn is_valid(&self) -> bool { self.f.v.is_finite() }
}
}
pub fn pop(mut v: Vec<Ind>) -> Population<Ind> {
    v.sort_by(|a, b| a.f.v.partial_cmp(&b.f.v).unwrap());
    let z = F64 { v: 0.0 };
    Population { individuals: v, generation: 0, stagnation: 0, stats: PopulatedStats { stats: Stats { count: 0, min: z, arg_min: 0, max: z, arg_max: 0, avg: z, sum_squared: z } } }
}
