%%fn find_position
@spec
    requires lawful_eq::<G>(),
    ensures match r {
        Some(p) => p < genome@.len() && genome@[p as int] == *target_gene && forall|j: int| 0 <= j < p ==> genome@[j] != *target_gene,
        None => !genome@.contains(*target_gene),
    },
@clo 0
 -> (r: bool) ensures r == (*gene == *target_gene)
