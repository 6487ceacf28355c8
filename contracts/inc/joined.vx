%%raw
/// r takes the positions before `point` from a and the others from b
pub open spec fn joined<G>(a: Seq<G>, b: Seq<G>, point: int, r: Seq<G>) -> bool { r.len() == a.len() && forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == (if i < point { a[i] } else { b[i] }) }
