use super::{kit::*, reference as r};
use crate::sequences::rowsum::{generate_sequences_with_rowsum, rowsum};

fn one(k: &Kit, n: usize, s: isize, expect: &dyn Fn(u64) -> Option<u64>) {
    let nm = format!("n={n} rowsum={s}");
    let Some(l) = k.guard(&format!("panic {nm}"), || nm.clone(), || generate_sequences_with_rowsum(s, n)) else { return };
    k.count("traces", 1);
    k.count("transitions", l.len() as u64);
    let mut seen = std::collections::HashSet::with_capacity(l.len());
    for v in &l {
        if !k.check(v.len() == n && v.iter().all(|&x| x == 1 || x == -1), &format!("form {nm}"), || format!("{v:?}")) { continue; }
        k.check(v.iter().map(|&x| x as isize).sum::<isize>() == s, &format!("rowsum {nm}"), || format!("{v:?} has another rowsum"));
        if !seen.contains(v) { seen.insert(v.clone()); } else { k.violation(&format!("repeated {nm}"), &format!("{v:?} is generated twice")); }
    }
    if let Some(e) = expect(0) { k.check(seen.len() as u64 == e, &format!("missing {nm}"), || format!("{} of the {e} sequences are generated", seen.len())); }
    if n == 6 && s == 2 { k.sample("rowsum 2 length 6", &format!("{} sequences", l.len())); }
}

fn binomial(n: u64, m: u64) -> u64 { if m > n { 0 } else { (0..m).fold(1u128, |a, i| a * (n - i) as u128 / (i + 1) as u128) as u64 } }

pub fn main() {
    let k = Kit::new();
    let full = if k.thorough { 20 } else { 16 };
    par(full, |i| {
        let n = full - i;
        // counted directly from all 2^n sequences
        let mut counts = std::collections::HashMap::new();
        for s in 0..(1u64 << n) { *counts.entry(r::rowsum(s, n) as isize).or_insert(0u64) += 1; }
        k.count("states", 1 << n);
        for s in -(n as isize)..=(n as isize) { one(&k, n, s, &|_| Some(*counts.get(&s).unwrap_or(&0))); }
        for s in 0..(1u64 << n.min(12)) {
            let v = r::b_to_vec(s, n);
            if Kit::quiet(|| rowsum(v.clone())) != Ok(r::rowsum(s, n) as isize) { k.violation(&format!("rowsum-function n={n}"), &format!("rowsum of {v:?}")); }
        }
    });
    // long sequences with few +1 or few -1
    let mut long = vec![];
    for n in full + 1..=64usize { for m in 0..=n { let c = binomial(n as u64, m as u64); if c <= if k.thorough { 200_000 } else { 5_000 } { long.push((n, m, c)); } } }
    par(long.len(), |i| {
        let (n, m, c) = long[i];
        k.count("states", c);
        one(&k, n, 2 * m as isize - n as isize, &|_| Some(c));
        one(&k, n, 2 * m as isize - n as isize + 1, &|_| Some(0));
    });
    k.done();
}
