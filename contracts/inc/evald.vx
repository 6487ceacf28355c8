%%raw
/// e[i] is the result of evaluating given[i] once
pub open spec fn all_evaluated<I>(evaluated: spec_fn(I, I) -> bool, given: Seq<I>, e: Seq<I>) -> bool {
    e.len() == given.len() && forall|i: int| 0 <= i < given.len() ==> evaluated(#[trigger] given[i], e[i])
}
/// s holds exactly the distinct individuals of e with a finite fitness
pub open spec fn valid_ones<I: Individual>(e: Seq<I>, s: Seq<I>) -> bool {
    s.no_duplicates() && forall|x: I| #[trigger] s.contains(x) <==> e.contains(x) && f_finite(x.fit())
}
