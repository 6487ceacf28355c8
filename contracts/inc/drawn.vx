%%raw
pub mod vx_drawn {
use vstd::prelude::*;
use super::Draw;
/// the draws made between two states of a generator
pub open spec fn drawn(before: Seq<Draw>, after: Seq<Draw>) -> Seq<Draw> { after.subrange(before.len() as int, after.len() as int) }
pub open spec fn extends(before: Seq<Draw>, after: Seq<Draw>) -> bool { before.len() <= after.len() && after.subrange(0, before.len() as int) == before }
pub broadcast proof fn lemma_drawn_push(s: Seq<Draw>, x: Draw) ensures #[trigger] drawn(s, s.push(x)) == seq![x] { assert(drawn(s, s.push(x)) =~= seq![x]); }
pub broadcast proof fn lemma_drawn_add(s: Seq<Draw>, t: Seq<Draw>) ensures #[trigger] drawn(s, s + t) == t { assert(drawn(s, s + t) =~= t); }
pub broadcast proof fn lemma_drawn_none(s: Seq<Draw>) ensures #[trigger] drawn(s, s) == Seq::<Draw>::empty() { assert(drawn(s, s) =~= Seq::<Draw>::empty()); }
pub broadcast proof fn lemma_extends_push(s: Seq<Draw>, x: Draw) ensures #[trigger] extends(s, s.push(x)) { assert(s.push(x).subrange(0, s.len() as int) =~= s); }
pub broadcast proof fn lemma_extends_add(s: Seq<Draw>, t: Seq<Draw>) ensures #[trigger] extends(s, s + t) { assert((s + t).subrange(0, s.len() as int) =~= s); }
pub broadcast group group_drawn { lemma_drawn_push, lemma_drawn_add, lemma_drawn_none, lemma_extends_push, lemma_extends_add }
}
pub use vx_drawn::*;
//%broadcast vx_drawn::group_drawn
