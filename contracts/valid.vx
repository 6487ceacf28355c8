%%prelude core f64
%%sole Individual is_valid
%%trait Individual
%%raw
    spec fn fit(&self) -> F64;
%%fn fitness declare
@spec
    ensures r == self.fit(),
%%fn is_valid
@spec
    ensures r == f_finite(self.fit()),
%%end
