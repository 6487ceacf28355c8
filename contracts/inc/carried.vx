%%raw
/// e are members of the population s, a fittest one among them unless there are none
pub open spec fn carried<I: Individual>(s: Seq<I>, e: Seq<I>) -> bool {
    &&& forall|i: int| 0 <= i < e.len() ==> s.contains(#[trigger] e[i])
    &&& e.len() > 0 ==> exists|x: I| #[trigger] is_best(s, x) && e.contains(x)
}
