%%prelude core f64 rng f64comm
%%include selhead
%%include strategy
%%struct RouletteWheelSelection
%%struct RankSelection
%%raw
// Everything here panics, or the condition held: what follows an assertion is reached only if it passes.
%%impl EvolutionParameters for GeneticAlgorithmParameters as_inherent
%%fn validate panics
@spec
    ensures ga_valid(*self),
%%end
%%impl EvolutionParameters for AdaptiveGeneticAlgorithmParameters as_inherent
%%fn validate panics
@spec
    ensures aga_valid(*self),
%%end
%%impl TournamentSelection
%%fn new panics
@spec
    ensures size != 0,
%%fn set_size panics
@spec
    ensures size != 0,
%%end
%%impl RouletteWheelSelection
%%fn new assume
%%end
%%impl RankSelection
%%fn new assume
%%end
%%impl BoltzmannSelection
%%fn new panics
@spec
    ensures !f_eq(cooling_rate, f_zero()),
%%fn set_cooling_rate panics
@spec
    ensures !f_eq(cooling_rate, f_zero()),
%%end
%%impl ElitistSelection
%%fn new panics
@spec
    ensures below_one(ratio),
%%fn set_ratio panics
@spec
    ensures below_one(ratio),
%%end
%%impl LinearSelection
%%fn new assume
%%end
%%raw
impl<I: Individual, R: Rng> SelectionMechanism<I, R> for TournamentSelection { uninterp spec fn mech(&self) -> SelectionStrategy; }
impl<I: Individual, R: Rng> SelectionMechanism<I, R> for RouletteWheelSelection { uninterp spec fn mech(&self) -> SelectionStrategy; }
impl<I: Individual, R: Rng> SelectionMechanism<I, R> for RankSelection { uninterp spec fn mech(&self) -> SelectionStrategy; }
impl<I: Individual, R: Rng> SelectionMechanism<I, R> for BoltzmannSelection { uninterp spec fn mech(&self) -> SelectionStrategy; }
impl<I: Individual, R: Rng> SelectionMechanism<I, R> for ElitistSelection { uninterp spec fn mech(&self) -> SelectionStrategy; }
impl<I: Individual, R: Rng> SelectionMechanism<I, R> for LinearSelection { uninterp spec fn mech(&self) -> SelectionStrategy; }
%%impl SelectionStrategy
%%fn create_selector panics
@spec
    ensures valid(*self),
%%end
%%fn interpolate_usize assume
%%impl EvolutionAlgorithm for GeneticAlgorithm as_inherent
%%fn configure panics
@spec
    ensures ga_valid(*parameters), valid(parameters.selection_strategy),
%%end
%%impl EvolutionAlgorithm for AdaptiveGeneticAlgorithm as_inherent
%%fn configure panics
@spec
    ensures aga_valid(*parameters), valid(parameters.selection_strategy),
%%end
