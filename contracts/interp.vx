%%prelude core f64 f64comm
%%fn interpolate_f64
@spec
    ensures r == f_add(min, f_mul(f_sub(max, min), ratio)),
%%fn interpolate_usize
@spec
    requires min <= max,
    ensures r == v_trunc(fv(f_add(f_of(min as int), f_mul(f_of(max - min), ratio)))),
