%%prelude core f64 rng sort
%%include popbase
%%include pop
%%raw
/// C15: two populations' best fitness values decide the stagnation counter
pub open spec fn progressed<I: Individual>(before: Seq<I>, after: Seq<I>) -> bool { exists|x: I, y: I| #[trigger] is_best(before, x) && #[trigger] is_best(after, y) && f_lt(x.fit(), y.fit()) }
pub proof fn lemma_progress<I: Individual>(p: Population<I>, q: Population<I>)
    requires pop_ok(p), pop_ok(q),
    ensures progressed(p.individuals@, q.individuals@) <==> f_lt(p.stats.stats.max, q.stats.stats.max),
{
    lemma_best(p); lemma_best(q);
    let bx = p.individuals@[p.stats.stats.arg_max as int]; let by = q.individuals@[q.stats.stats.arg_max as int];
    if progressed(p.individuals@, q.individuals@) {
        let (x, y) = choose|x: I, y: I| #[trigger] is_best(p.individuals@, x) && #[trigger] is_best(q.individuals@, y) && f_lt(x.fit(), y.fit());
        lemma_same_best(p.individuals@, x, bx); lemma_same_best(q.individuals@, y, by);
    }
}
pub proof fn lemma_same_best<I: Individual>(s: Seq<I>, x: I, y: I)
    requires is_best(s, x), is_best(s, y),
    ensures f_le(x.fit(), y.fit()), f_le(y.fit(), x.fit()),
{
    let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(f_le(s[i].fit(), y.fit()));
    let j = choose|j: int| 0 <= j < s.len() && s[j] == y; assert(f_le(s[j].fit(), x.fit()));
}
%%impl Population
%%fn new
@spec
    requires initial_population@.len() > 0, lawful_eq::<I>(), rated(initial_population@),
    ensures r.generation == 0, r.stagnation == 0,
%%fn replace
@spec
    requires pop_ok(*old(self)), old(new_population)@.len() > 0, lawful_eq::<I>(), rated(old(new_population)@), old(self).generation < usize::MAX, old(self).stagnation < usize::MAX,
    ensures final(self).generation == old(self).generation + 1,
        final(self).stagnation == (if progressed(old(self).individuals@, final(self).individuals@) { 0 } else { old(self).stagnation + 1 }),
        final(new_population)@ == old(self).individuals@,
        forall|x: I| #[trigger] old(new_population)@.contains(x) <==> final(self).individuals@.contains(x),
@at start
    let ghost a = new_population@; let ghost p = *self;
@at tail
    proof { lemma_made(a, self.individuals@); lemma_progress(p, *self); }
%%fn generation
@spec
    ensures r == self.generation,
%%fn stagnation
@spec
    ensures r == self.stagnation,
%%end
