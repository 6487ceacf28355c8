%%prelude core f64 rng rngf f64leaf
%%include selhead
%%include tri
%%trait SelectionMechanism
%%raw
    spec fn mech(&self) -> SelectionStrategy;
%%fn prepare declare
@spec
    requires valid(old(self).mech()),
    ensures valid(final(self).mech()),
%%fn select declare
@spec
    requires valid(self.mech()), 0 < population.individuals@.len() < 0x1_0000_0000,
    ensures r.0 < population.individuals@.len(), *r.1 == population.individuals@[r.0 as int],
%%end
%%struct TournamentSelection
%%struct RouletteWheelSelection
%%struct BoltzmannSelection
%%struct RankSelection
%%struct ElitistSelection
%%struct LinearSelection
%%impl SelectionMechanism for TournamentSelection
%%fn prepare
%%raw
    open spec fn mech(&self) -> SelectionStrategy { SelectionStrategy::Tournament(self.size) }
%%fn select
@clo 0
 -> (o: (usize, &'a I)) requires i < population.individuals@.len() ensures o.0 == i, *o.1 == population.individuals@[i as int]
%%end
%%impl SelectionMechanism for RouletteWheelSelection
%%fn prepare
%%raw
    open spec fn mech(&self) -> SelectionStrategy { SelectionStrategy::RouletteWheel }
%%fn select
%%end
%%impl SelectionMechanism for BoltzmannSelection
%%fn prepare
%%raw
    open spec fn mech(&self) -> SelectionStrategy { SelectionStrategy::Boltzmann(self.temperature, self.cooling_rate) }
%%fn select
%%end
%%impl SelectionMechanism for RankSelection
%%fn prepare
%%raw
    open spec fn mech(&self) -> SelectionStrategy { SelectionStrategy::Rank }
%%fn select
@at start
    proof { lemma_tri_bound(0, population.individuals@.len() as int); }
@loop 0
    invariant cumulative_rank == tri(vx_k0 as int), vx_s0@.len() == n, n == population.individuals@.len(), forall|i: int| 0 <= i < vx_s0@.len() ==> (#[trigger] vx_s0@[i]).0 == i && *vx_s0@[i].1 == population.individuals@[i],
@at loop 0 start
    proof { lemma_tri_bound(vx_k0 + 1, n as int); }
%%end
%%impl SelectionMechanism for ElitistSelection
%%fn prepare
%%raw
    open spec fn mech(&self) -> SelectionStrategy { SelectionStrategy::Elitist(self.ratio) }
%%fn select
%%end
%%impl SelectionMechanism for LinearSelection
%%fn prepare
%%raw
    open spec fn mech(&self) -> SelectionStrategy { SelectionStrategy::Linear(self.bias) }
%%fn select
%%end
%%impl TournamentSelection
%%fn new
@spec
    requires size != 0,
    ensures r.size == size,
%%end
%%impl RouletteWheelSelection
%%fn new
%%end
%%impl BoltzmannSelection
%%fn new
@spec
    requires !f_eq(cooling_rate, f_zero()),
    ensures r.temperature == temperature, r.cooling_rate == cooling_rate,
%%fn scaled_fitness
%%end
%%impl RankSelection
%%fn new
%%end
%%impl ElitistSelection
%%fn new
@spec
    requires f_le(f_zero(), ratio), f_lt(ratio, f_one()),
    ensures r.ratio == ratio,
%%end
%%impl LinearSelection
%%fn new
@spec
    ensures r.bias == bias,
%%end
%%impl SelectionStrategy
%%fn create_selector
@spec
    requires valid(*self),
    ensures r.mech() == *self,
%%end
