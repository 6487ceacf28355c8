%%include indiv
%%struct Stats attr=derive(Copy,Clone)
%%struct PopulatedStats attr=derive(Copy,Clone)
%%struct Population attr=verifier::reject_recursive_types(I)
%%impl Deref for Population as_inherent
%%fn deref assume
@spec
    ensures r@ == self.individuals@,
%%end
%%enum SelectionStrategy
%%raw
/// the parameters a mechanism can be created with
pub open spec fn valid(m: SelectionStrategy) -> bool {
    match m { SelectionStrategy::Tournament(size) => size != 0, SelectionStrategy::Elitist(ratio) => f_le(f_zero(), ratio) && f_lt(ratio, f_one()), SelectionStrategy::Boltzmann(t, c) => !f_eq(c, f_zero()), _ => true }
}
