%%trait Individual
%%raw
    /// the fitness value of the individual
    spec fn fit(&self) -> F64;
%%fn fitness declare
@spec
    ensures r == self.fit(),
%%fn is_valid declare
@spec
    ensures r == f_finite(self.fit()),
%%end
%%raw
pub open spec fn fits<I: Individual>(s: Seq<I>) -> Seq<F64> { Seq::new(s.len(), |i: int| s[i].fit()) }
/// no fitness is NaN
pub open spec fn rated<I: Individual>(s: Seq<I>) -> bool { forall|i: int| 0 <= i < s.len() ==> !f_nan(#[trigger] s[i].fit()) }
pub open spec fn ascending<I: Individual>(s: Seq<I>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> f_le(#[trigger] s[i].fit(), #[trigger] s[j].fit()) }
pub open spec fn fit_le<I: Individual>() -> spec_fn(I, I) -> bool { |x: I, y: I| f_le(x.fit(), y.fit()) }
