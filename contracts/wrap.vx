%%prelude core f64
%%include indiv
%%raw
/// how two fitness values compare; equal when they do not
pub open spec fn order(a: F64, b: F64) -> core::cmp::Ordering { match f_cmp(a, b) { Some(o) => o, None => core::cmp::Ordering::Equal } }
%%fn compare_fitness
@spec
    ensures r == order(a.fit(), b.fit()),
%%struct IndividualWrapper
%%sole PartialOrd lt le gt ge
%%sole PartialEq ne
%%sole Ord max min clamp
%%impl IndividualWrapper
%%fn take
@spec
    ensures r == self.i,
%%end
%%impl From<I> for IndividualWrapper as_inherent
%%fn from
@spec
    ensures r.i == i,
%%end
%%impl Deref for IndividualWrapper as_inherent
%%fn deref
@spec
    ensures *r == self.i,
%%end
%%impl DerefMut for IndividualWrapper as_inherent
%%fn deref_mut
@spec
    ensures *r == old(self).i, *final(r) == final(self).i,
%%end
%%impl PartialEq for IndividualWrapper as_inherent
%%fn eq
@spec
    ensures r == f_eq(self.i.fit(), other.i.fit()),
%%end
%%impl PartialOrd for IndividualWrapper as_inherent
%%fn partial_cmp
@spec
    ensures r == f_cmp(self.i.fit(), other.i.fit()),
%%end
%%impl Ord for IndividualWrapper as_inherent
%%fn cmp
@spec
    ensures r == order(self.i.fit(), other.i.fit()),
%%end
