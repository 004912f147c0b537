use super::{kit::*, reference as r};
use crate::sequences::rowsum::generate_rowsums;
use std::collections::{HashMap, HashSet};

/// Complete invariant of a quadruple of integers under the reorderings and negations allowed for the type
fn key(t: r::T, q: &[i64; 4]) -> ([i64; 4], bool) {
    let mut a = q.map(|x| x.abs());
    let mut parity = q.iter().filter(|&&x| x < 0).count() % 2 == 1;
    for i in 1..4 { let mut j = i; while j > 0 && a[j] < a[j - 1] { a.swap(j, j - 1); parity = !parity; j -= 1; } }
    // equal entries can be swapped, a zero can be negated
    if t != r::T::Qts || a[0] == 0 || a[0] == a[1] || a[1] == a[2] || a[2] == a[3] { parity = false; }
    (a, parity)
}

pub fn main() {
    let k = Kit::new();
    let max = if k.thorough { 1200 } else { 400 };
    par(max, |i| {
        let n = max - i;
        let all = r::rowsum_quads(n);
        k.count("states", all.len() as u64);
        for t in r::TYPES {
            let nm = format!("{} {n}", r::tname(t));
            let Some(list) = k.guard(&format!("panic {nm}"), || nm.clone(), || generate_rowsums(n, st(t))) else { continue };
            k.count("transitions", list.len() as u64);
            k.count("traces", 1);
            let list: Vec<[i64; 4]> = list.iter().map(|q| [q.0 as i64, q.1 as i64, q.2 as i64, q.3 as i64]).collect();
            let mut seen = HashSet::new();
            let mut keys: HashMap<_, [i64; 4]> = HashMap::new();
            for q in &list {
                k.check(q.iter().map(|x| x * x).sum::<i64>() == 4 * n as i64, &format!("squares {nm}"), || format!("{q:?}: squares do not sum to {}", 4 * n));
                k.check(q.iter().all(|x| x.rem_euclid(2) == n as i64 % 2), &format!("parity {nm}"), || format!("{q:?}: not all of the parity of {n}"));
                k.check(0 <= q[0] && q[0] <= q[1] && q[1] <= q[2] && q[2] <= q[3].abs(), &format!("order {nm}"), || format!("{q:?} is not in the documented order"));
                k.check(seen.insert(*q), &format!("repeated {nm}"), || format!("{q:?} is listed twice"));
                if let Some(o) = keys.insert(key(t, q), *q) { k.violation(&format!("repeated-equivalent {nm}"), &format!("{o:?} and {q:?} are equivalent")); }
                if t != r::T::Qts { k.check(q[3] >= 0, &format!("negative {nm}"), || format!("{q:?}")); }
            }
            for q in &all {
                if !keys.contains_key(&key(t, q)) { k.violation(&format!("missing {nm}"), &format!("{q:?} cannot be brought to a listed quadruple of {list:?}")); break; }
            }
            if n == 9 { k.sample(r::tname(t), &format!("n = 9: {list:?} cover {} quadruples", all.len())); }
        }
    });
    // the reference invariant agrees with the closure under the allowed operations
    for n in 1..=(if k.thorough { 60 } else { 25 }) {
        let all: HashSet<[i64; 4]> = r::rowsum_quads(n).into_iter().collect();
        let perms = r::permutations4();
        for t in r::TYPES { for q in &all {
            let mut orbit = HashSet::new();
            for (p, odd) in &perms { for s in 0..16u32 {
                if t == r::T::Qts && *odd != (s.count_ones() % 2 == 1) { continue; }
                let mut x = [q[p[0]], q[p[1]], q[p[2]], q[p[3]]];
                for i in 0..4 { if s >> i & 1 == 1 { x[i] = -x[i]; } }
                orbit.insert(x);
            } }
            assert!(all.iter().all(|x| orbit.contains(x) == (key(t, x) == key(t, q))));
            k.count("reference_orbits_checked", 1);
        } }
    }
    // the printed lists, to be compared with the files
    let mut s = String::new();
    for t in r::TYPES { for n in 1..=60 {
        if let Ok(l) = Kit::quiet(|| generate_rowsums(n, st(t))) {
            s += &format!("{} {n} {}\n", r::tname(t), l.iter().map(|q| format!("{},{},{},{}", q.0, q.1, q.2, q.3)).collect::<Vec<_>>().join(" "));
        }
    } }
    std::fs::write("rowsums.txt", s).unwrap();
    k.done();
}
