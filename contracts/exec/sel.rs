// the pool may add up fitness in any order: sums here are exact, or of at most two numbers
fn chosen<S: SelectionMechanism<Ind, Script>>(out: &mut Vec<String>, k: u64, exact: bool, mut s: S) {
    for n in 1..if exact { 9 } else { 3 } { for j in 0..12u64 {
        seed(k * 1000 + n * 50 + j);
        let v: Vec<Ind> = (0..n as usize).map(|id| Ind { f: fl((draw64() % 16) as f64 * 0.25 + id as f64 * 8.0), id }).collect();
        guard(out, || { let p = pop(v); s.prepare(&p); let (i, x) = s.select(&p, &mut Script); (i, x.id, draw64()) });
    } }
}
pub fn cases(out: &mut Vec<String>) {
    for k in 0..20u64 {
        chosen(out, k, true, TournamentSelection::new(1 + k as usize % 5));
        chosen(out, k, true, RouletteWheelSelection::new());
        chosen(out, k, false, BoltzmannSelection::new(fl(1.0 + k as f64), fl(1.0 / (k + 2) as f64)));
        chosen(out, k, true, RankSelection::new());
        chosen(out, k, true, ElitistSelection::new(fl(k as f64 / 20.0)));
        chosen(out, k, true, LinearSelection::new(fl(1.0 + (k + 1) as f64 / 20.0)));
    }
}
