%%prelude core
%%include joined
%%fn single_point_crossover
@spec
    requires parent1@.len() == parent2@.len(),
    ensures
        joined(parent1@, parent2@, point as int, r@),
        point >= parent1@.len() ==> r@ == parent1@,
%%fn single_point_crossover panics as=vx_rejects_spx
@spec
    requires parent1@.len() != parent2@.len(),
    ensures false,
