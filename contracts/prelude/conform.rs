// The reference implementations of the prelude, run against the operations of std they stand for: every sequence of up to
// five of three symbols, every count up to seven, every threshold. Exits 1 at the first difference.
fn it(v: &Vec<usize>) -> It<usize> { It { v: v.clone() } }
fn got<T>(i: It<T>) -> Vec<T> { i.vx_collect() }
fn same<T: PartialEq + std::fmt::Debug>(op: &str, v: &Vec<usize>, k: usize, a: T, b: T, n: &mut u64) {
    *n += 1;
    if a != b { println!("{op} on {v:?} with {k}: reference {a:?}, std {b:?}"); std::process::exit(1); }
}
fn refs(v: &Vec<usize>) -> Vec<usize> { v.clone() }
fn main() {
    let mut all: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..5 { let to = all.len(); for i in from..to { for x in 0..3 { let mut v = all[i].clone(); v.push(x); all.push(v); } } from = to; }
    let mut n = 0u64;
    for v in &all {
        let c = |v: &Vec<usize>| v.clone();
        same("next", v, 0, { let mut i = it(v); let a = i.next(); (a, got(i)) }, { let mut i = c(v).into_iter(); let a = i.next(); (a, i.collect::<Vec<_>>()) }, &mut n);
        same("len", v, 0, it(v).vx_count(), v.iter().len(), &mut n);
        same("enumerate", v, 0, got(it(v).enumerate()), v.iter().copied().enumerate().collect(), &mut n);
        same("rev", v, 0, got(it(v).rev()), v.iter().copied().rev().collect(), &mut n);
        same("count", v, 0, it(v).count(), v.iter().count(), &mut n);
        same("last", v, 0, it(v).last(), v.iter().copied().last(), &mut n);
        same("max", v, 0, it(v).max(), v.iter().copied().max(), &mut n);
        same("min", v, 0, it(v).min(), v.iter().copied().min(), &mut n);
        same("fold", v, 0, it(v).fold(7, |a: usize, x: usize| a * 5 + x), v.iter().copied().fold(7, |a, x| a * 5 + x), &mut n);
        same("map", v, 0, got(it(v).map(|x: usize| 9 - x)), v.iter().copied().map(|x| 9 - x).collect::<Vec<_>>(), &mut n);
        // first of equal keys: the key hides a part of the item
        let tagged: Vec<(usize, usize)> = v.iter().copied().zip(0..).collect();
        same("min_by_key", v, 0, It { v: tagged.clone() }.min_by_key(|x: &(usize, usize)| x.0), tagged.iter().copied().min_by_key(|x| x.0), &mut n);
        same("once", v, 0, got(vx_once(v.clone())), std::iter::once(v.clone()).collect(), &mut n);
        same("iter", v, 0, got(v.as_slice().vx_iter()), v.iter().collect::<Vec<_>>(), &mut n);
        same("copied", v, 0, got(v.as_slice().vx_iter().vx_copied()), v.iter().copied().collect::<Vec<_>>(), &mut n);
        same("for x in vec", v, 0, got(v.clone().vx_loop_items()), v.clone().into_iter().collect::<Vec<_>>(), &mut n);
        same("for x in &vec", v, 0, got((&v.clone()).vx_loop_items()).len(), v.iter().collect::<Vec<_>>().len(), &mut n);
        same("for x in &slice", v, 0, got(<&[usize] as VxLoopSource>::vx_loop_items(v.as_slice())), v.as_slice().into_iter().collect::<Vec<_>>(), &mut n);
        same("reverse", v, 0, { let mut w = c(v); w.as_mut_slice().vx_reverse(); w }, { let mut w = c(v); w.reverse(); w }, &mut n);
        same("first", v, 0, v.as_slice().vx_first(), v.first(), &mut n);
        same("slice last", v, 0, v.as_slice().vx_last(), v.last(), &mut n);
        same("to_vec", v, 0, v.as_slice().vx_to_vec(), v.to_vec(), &mut n);
        same("dedup", v, 0, { let mut w = c(v); w.vx_dedup(); w }, { let mut w = c(v); w.dedup(); w }, &mut n);
        same("copy_from_slice", v, 0, { let mut w = vec![8; v.len()]; w.as_mut_slice().vx_copy_from_slice(v); w }, { let mut w = vec![8; v.len()]; w.copy_from_slice(v); w }, &mut n);
        same("sort_by", v, 0, { let mut w = c(v); w.as_mut_slice().vx_sort_by(|a: &usize, b: &usize| a.cmp(b)); w }, { let mut w = c(v); w.sort_by(|a, b| a.cmp(b)); w }, &mut n);
        same("sort_by descending", v, 0, { let mut w = c(v); w.as_mut_slice().vx_sort_by(|a: &usize, b: &usize| b.cmp(a)); w }, { let mut w = c(v); w.sort_unstable_by(|a, b| b.cmp(a)); w }, &mut n);
        let o = vec![4usize, 5];
        same("chain", v, 0, got(it(v).chain(it(&o))), v.iter().copied().chain(o.iter().copied()).collect(), &mut n);
        same("extend", v, 0, { let mut w = c(v); w.vx_extend(it(&o)); w }, { let mut w = c(v); w.extend(o.iter().copied()); w }, &mut n);
        same("extend_from_slice", v, 0, { let mut w = c(v); w.vx_extend_from_slice(&o); w }, { let mut w = c(v); w.extend_from_slice(&o); w }, &mut n);
        // a map from symbols to the sets of their successors, built and pruned both ways
        let (mut ma, mut mb): (HashMap<usize, HashSet<usize>>, HashMap<usize, HashSet<usize>>) = (HashMap::new(), HashMap::new());
        for w in v.windows(3) {
            vx_entry_extend(&mut ma, w[1], [w[0], w[2]]);
            mb.entry(w[1]).or_insert_with(HashSet::new).extend([w[0], w[2]]);
            same("entry().or_insert_with().extend()", v, 0, ma.clone(), mb.clone(), &mut n);
            same("map[&k]", v, w[1], vx_map_index(&ma, &w[1]).clone(), mb[&w[1]].clone(), &mut n);
            vx_values_mut_remove(&mut ma, &w[2]);
            for s in mb.values_mut() { s.remove(&w[2]); }
            same("for s in values_mut() { remove }", v, w[2], ma.clone(), mb.clone(), &mut n);
        }
        same("set extend", v, 0, { let mut w = HashSet::from([1, 7]); VxSetExtend::vx_extend(&mut w, it(v)); w }, { let mut w = HashSet::from([1, 7]); w.extend(v.iter().copied()); w }, &mut n);
        for m in 0..4 {
            let o: Vec<usize> = (4..4 + m).collect();
            same("zip", v, m, got(it(v).zip(it(&o))), v.iter().copied().zip(o.iter().copied()).collect(), &mut n);
        }
        for k in 0..4usize {
            same("position", v, k, it(v).position(|x: usize| x >= k), v.iter().copied().position(|x| x >= k), &mut n);
            same("rposition", v, k, it(v).rposition(|x: usize| x == k), v.iter().copied().rposition(|x| x == k), &mut n);
            same("any", v, k, it(v).any(|x: usize| x == k), v.iter().any(|x| *x == k), &mut n);
            same("all", v, k, it(v).all(|x: usize| x != k), v.iter().all(|x| *x != k), &mut n);
            same("find", v, k, it(v).find(|x: &usize| *x >= k), v.iter().copied().find(|x| *x >= k), &mut n);
            same("find_map", v, k, it(v).find_map(|x: usize| if x >= k { Some(x + 10) } else { None }), v.iter().find_map(|x| if *x >= k { Some(x + 10) } else { None }), &mut n);
            same("filter", v, k, got(it(v).filter(|x: &usize| *x != k)), v.iter().copied().filter(|x| *x != k).collect::<Vec<_>>(), &mut n);
            same("take_while", v, k, got(it(v).take_while(|x: &usize| *x != k)), v.iter().copied().take_while(|x| *x != k).collect::<Vec<_>>(), &mut n);
            same("skip_while", v, k, got(it(v).skip_while(|x: &usize| *x != k)), v.iter().copied().skip_while(|x| *x != k).collect::<Vec<_>>(), &mut n);
            same("retain", v, k, { let mut w = c(v); w.vx_retain(|x: &usize| *x != k); w }, { let mut w = c(v); w.retain(|x| *x != k); w }, &mut n);
            same("contains", v, k, v.as_slice().vx_contains(&k), v.contains(&k), &mut n);
        }
        for k in 0..8usize {
            same("skip", v, k, got(it(v).skip(k)), v.iter().copied().skip(k).collect::<Vec<_>>(), &mut n);
            same("take", v, k, got(it(v).take(k)), v.iter().copied().take(k).collect::<Vec<_>>(), &mut n);
            same("nth", v, k, { let mut i = it(v); let a = i.nth(k); (a, got(i)) }, { let mut i = c(v).into_iter(); let a = i.nth(k); (a, i.collect::<Vec<_>>()) }, &mut n);
            same("truncate", v, k, { let mut w = c(v); w.vx_truncate(k); w }, { let mut w = c(v); w.truncate(k); w }, &mut n);
            same("reserve", v, k, { let mut w = c(v); w.vx_reserve(k); w }, { let mut w = c(v); w.reserve(k); w }, &mut n);
            same("get", v, k, v.as_slice().vx_get(k), v.get(k), &mut n);
            same("vec![x; n]", v, k, vx_vec_from_elem(v.clone(), k), vec![v.clone(); k], &mut n);
            for m in 0..8usize {
                same("range", v, k, got((k..m).vx_loop_items()), (k..m).collect(), &mut n);
                same("range contains", v, k, (k..m).vx_contains(&v.len()), (k..m).contains(&v.len()), &mut n);
            }
            if k > 0 {
                same("step_by", v, k, got(it(v).step_by(k)), v.iter().copied().step_by(k).collect::<Vec<_>>(), &mut n);
                same("windows", v, k, got(v.as_slice().vx_windows(k)), v.windows(k).collect::<Vec<_>>(), &mut n);
            }
            if k <= v.len() {
                same("rotate_right", v, k, { let mut w = c(v); w.as_mut_slice().vx_rotate_right(k); w }, { let mut w = c(v); w.rotate_right(k); w }, &mut n);
                same("rotate_left", v, k, { let mut w = c(v); w.as_mut_slice().vx_rotate_left(k); w }, { let mut w = c(v); w.rotate_left(k); w }, &mut n);
                same("split_at", v, k, v.as_slice().vx_split_at(k), v.split_at(k), &mut n);
                for m in k..=v.len() {
                    same("a[i..j]", v, k, { let mut w = c(v); w.vx_sub_mut(k..m).vx_reverse(); w }, { let mut w = c(v); w[k..m].reverse(); w }, &mut n);
                    same("slice[i..j]", v, k, { let mut w = c(v); w.as_mut_slice().vx_sub_mut(k..m).vx_reverse(); w }, { let mut w = c(v); w.as_mut_slice()[k..m].reverse(); w }, &mut n);
                }
                same("a[i..]", v, k, { let mut w = c(v); w.vx_sub_mut(k..).vx_reverse(); w }, { let mut w = c(v); w[k..].reverse(); w }, &mut n);
                same("a[..i]", v, k, { let mut w = c(v); w.vx_sub_mut(..k).vx_reverse(); w }, { let mut w = c(v); w[..k].reverse(); w }, &mut n);
            }
            for m in 0..v.len() { if k < v.len() { same("swap", v, k, { let mut w = c(v); w.as_mut_slice().vx_swap(k, m); w }, { let mut w = c(v); w.swap(k, m); w }, &mut n); } }
        }
        same("Option::copied", v, 0, v.first().vx_copied(), v.first().copied(), &mut n);
    }
    println!("{n} comparisons");
}
