%%prelude core f64
%%include indiv
%%struct Stats attr=derive(Copy,Clone)
%%struct PopulatedStats attr=derive(Copy,Clone)
%%struct Population attr=verifier::reject_recursive_types(I)
%%impl Deref for Population as_inherent
%%fn deref
@spec
    ensures r@ == self.individuals@,
%%end
