%%raw
// did_x(p1, p2, choice, r): the operator x returned r for these parents and this choice. A name for the outcome of the call;
// what each operator returns is the contract verified in its own unit.
pub uninterp spec fn did_scx<G>(p1: Seq<G>, p2: Seq<G>, pivot: G, r: Seq<G>) -> bool;
pub uninterp spec fn did_erx<G>(p1: Seq<G>, p2: Seq<G>, pivot: G, r: Seq<G>) -> bool;
pub uninterp spec fn did_pmx<G>(p1: Seq<G>, p2: Seq<G>, a: int, b: int, r: Seq<G>) -> bool;
pub uninterp spec fn did_ox<G>(p1: Seq<G>, p2: Seq<G>, a: int, b: int, r: Seq<G>) -> bool;
pub uninterp spec fn did_cx<G>(p1: Seq<G>, p2: Seq<G>, r: Seq<G>) -> bool;
pub uninterp spec fn did_spx<G>(p1: Seq<G>, p2: Seq<G>, point: int, r: Seq<G>) -> bool;
pub uninterp spec fn did_gpx<G>(p1: Seq<G>, p2: Seq<G>, r: Seq<G>) -> bool;
