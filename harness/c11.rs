use super::{kit::*, reference as r};
use crate::sequences::{equivalence::*, symmetries::SequenceType, williamson::QuadSeq};
use std::collections::{HashMap, HashSet};

include!(concat!(env!("VERIF_HARNESS_DIR"), "/maps.rs"));

fn named(name: &str) -> Op {
    match name {
        "negate" => equivalent_negate, "uniform_shift" => equivalent_uniform_shift, "reorder" => equivalent_reorder,
        "even_alternated_negation" => equivalent_even_alternated_negation, "automorphism" => equivalent_automorphism,
        "uniform_half_shift" => equivalent_uniform_half_shift, "negate_swap" => equivalent_negate_swap,
        "dual_half_shift" => equivalent_dual_half_shift, "double_negate" => equivalent_double_negate,
        "double_reorder" => equivalent_double_reorder, "disjoint_swaps" => equivalent_disjoint_swaps, "reverse" => equivalent_reverse,
        _ => panic!(),
    }
}
const DOCUMENTED: [&[&str]; 3] = [
    &["uniform_shift", "even_alternated_negation", "automorphism", "negate_swap", "dual_half_shift"],
    &["negate", "uniform_shift", "reorder", "even_alternated_negation", "automorphism", "uniform_half_shift"],
    &["negate", "reorder", "even_alternated_negation", "automorphism", "uniform_half_shift"],
];
const CANONICAL: [&[&str]; 3] = [
    &["automorphism", "even_alternated_negation", "uniform_shift", "dual_half_shift"],
    &["automorphism", "even_alternated_negation", "uniform_shift", "uniform_half_shift"],
    &["automorphism", "even_alternated_negation", "uniform_half_shift"],
];

/// The compositions of the operations, as labelled vectors (entry +-(p + 1))
fn compositions(names: &[&str], n: usize) -> HashSet<Vec<i16>> {
    let mut gens: Vec<Map> = names.iter().flat_map(|s| images(s, n)).collect();
    gens.sort(); gens.dedup();
    let start: Vec<i16> = (1..=4 * n as i16).collect();
    let mut seen = HashSet::from([start.clone()]);
    let mut todo = vec![start];
    while let Some(v) = todo.pop() {
        for g in &gens {
            let w: Vec<i16> = g.iter().map(|&(p, s)| s as i16 * v[p]).collect();
            if seen.insert(w.clone()) { todo.push(w); }
        }
    }
    seen
}

fn flat(q: &QuadSeq) -> Vec<i16> { let s = q.sequences(); [s.0, s.1, s.2, s.3].concat().into_iter().map(|x| x as i16).collect() }

/// Compares a generated group with the compositions; the group if it is right
fn group(k: &Kit, t: r::T, names: &[&str], n: usize, ops: &Vec<Op>) -> Option<HashSet<QuadSeq>> {
    let nm = format!("{} n={n}", r::tname(t));
    let want = compositions(names, n);
    let got = match Kit::quiet(|| generate_symmetry_group(n, st(t), ops)) { Ok(g) => g, Err(_) => { k.violation(&format!("panic {nm}"), &format!("generate_symmetry_group panics for {nm} with {names:?}")); return None } };
    k.count("transitions", got.len() as u64);
    k.count("traces", 1);
    let have: HashSet<Vec<i16>> = got.iter().map(flat).collect();
    let signed = |v: &Vec<i16>| { let mut a: Vec<i16> = v.iter().map(|x| x.abs()).collect(); a.sort(); a == (1..=4 * n as i16).collect::<Vec<_>>() };
    let mut ok = k.check(got.iter().all(|q| q.size() == n) && have.iter().all(signed), &format!("signed-permutation {nm}"), || format!("{nm} {names:?}: an element is not a signed permutation of the {} positions: {:?}", 4 * n, have.iter().find(|v| !signed(v))));
    ok &= k.check(have == want, &format!("group {nm}"), || format!("{nm} {names:?}: {} elements instead of {}, {} missing, {} too many", have.len(), want.len(), want.difference(&have).count(), have.difference(&want).count()));
    if ok { Some(got) } else { None }
}

/// Each element moves and negates the entries it should: applied to quadruples with one entry different
fn applied(k: &Kit, t: r::T, n: usize, g: &HashSet<QuadSeq>, step: usize) {
    let elems: Vec<&QuadSeq> = g.iter().collect();
    par(elems.len().div_ceil(step), |i| {
        let e = elems[i * step];
        let one = HashSet::from([e.clone()]);
        let f = flat(e);
        for p in 0..=4 * n {
            let v: Vec<i8> = (0..4 * n).map(|x| if x == p { -1 } else { 1 }).collect();
            let q: r::Quad = [0, 1, 2, 3].map(|s| r::vec_to_b(&v[s * n..(s + 1) * n]).unwrap());
            let want: Vec<i16> = f.iter().map(|&l| l.signum() * v[l.unsigned_abs() as usize - 1] as i16).collect();
            let got = Kit::quiet(|| generate_equivalence_class_fast(&quadseq(&q, n), &one));
            k.count("transitions", 1);
            let ok = got.as_ref().map_or(false, |c| c.len() == 1 && c.iter().all(|x| x.size() == n && flat(x) == want));
            k.check(ok, &format!("apply {} n={n}", r::tname(t)), || format!("the element {f:?} applied to {} gives {:?}", r::quad_to_str(&q, n), got.map(|c| c.iter().map(flat).collect::<Vec<_>>())));
        }
    });
}

/// quadruples of a length: a given valid one, and three others
fn quads_of(n: usize) -> Vec<[Vec<i8>; 4]> {
    let f = |a: usize, b: usize| [0, 1, 2, 3].map(|s: usize| (0..n).map(|i| if (i * i * a + i * b + s * (i / 2) + i / (s + 2)) % 5 < 2 { -1 } else { 1i8 }).collect::<Vec<i8>>());
    long().into_iter().filter(|v| v[0].len() == n).chain([f(1, 1), f(2, 3), [0, 1, 2, 3].map(|s: usize| (0..n).map(|i| if i == s * n / 4 { -1 } else { 1 }).collect())]).collect()
}

pub fn main() {
    let k = Kit::new();
    let th = k.thorough;
    for (ti, t) in r::TYPES.into_iter().enumerate() {
        // the operations of the type and those used for canonical forms
        let size = |n: usize, full: bool| { let b = if full { if t == r::T::Qts { 192 } else { 384 } } else { 2 }; b * r::units(n).len() * if t == r::T::Ws { 1 } else { n } * if n % 2 == 0 { if full { 32 } else { 16 } } else { 1 } };
        let full: Vec<usize> = (1..=31).filter(|&n| size(n, true) <= if th { 300_000 } else { 26_000 }).collect();
        let small: Vec<usize> = (1..=31).filter(|&n| size(n, false) <= if th { 40_000 } else { 12_000 }).collect();
        let jobs: Vec<(usize, bool)> = full.iter().map(|&n| (n, true)).chain(small.iter().map(|&n| (n, false))).collect();
        let order = { let mut o: Vec<usize> = (0..jobs.len()).collect(); o.sort_by_key(|&i| std::cmp::Reverse(size(jobs[i].0, jobs[i].1))); o };
        let groups: std::sync::Mutex<HashMap<(usize, bool), HashSet<QuadSeq>>> = Default::default();
        par(jobs.len(), |i| {
            let (n, f) = jobs[order[i]];
            let names = if f { DOCUMENTED[ti] } else { CANONICAL[ti] };
            let ops = if f { st(t).equivalences() } else { names.iter().map(|s| named(s)).collect() };
            if let Some(g) = group(&k, t, names, n, &ops) { k.count("states", g.len() as u64); groups.lock().unwrap().insert((n, f), g); }
        });
        let groups = groups.into_inner().unwrap();
        k.sample(r::tname(t), &format!("groups of {:?}", { let mut v: Vec<_> = groups.iter().map(|(x, g)| (x.0, x.1, g.len())).collect(); v.sort(); v }));
        for ((n, f), g) in &groups {
            let step = (g.len() * 4 * n / if th { 4_000_000 } else { 300_000 }).max(1);
            applied(&k, t, *n, g, step);
            let _ = f;
        }
        // every subset of the operations on short lengths
        let names: Vec<&str> = DOCUMENTED[ti].iter().chain(CANONICAL[ti]).chain(["double_negate", "double_reorder", "disjoint_swaps"].iter()).cloned().collect::<std::collections::BTreeSet<_>>().into_iter().collect();
        let top = if th { 4 } else { 3 };
        let subsets: Vec<(usize, usize)> = (1..=top).flat_map(|n| (0..1usize << names.len()).map(move |m| (n, m))).collect();
        par(subsets.len(), |i| {
            let (n, m) = subsets[i];
            // the even lengths have large groups: subsets of at most three operations
            if n > 1 && m.count_ones() > if n == 4 { 2 } else if n == 3 && !th { 2 } else { 3 } { return; }
            let s: Vec<&str> = (0..names.len()).filter(|j| m >> j & 1 == 1).map(|j| names[j]).collect();
            group(&k, t, &s, n, &s.iter().map(|x| named(x)).collect());
        });
        k.count("operation_subsets", subsets.len() as u64);
        // classes of all quadruples of short lengths, and of valid ones of longer lengths
        for n in 1..=(if th { 10 } else { 7 }) {
            let Some(g) = groups.get(&(n, true)) else { continue };
            let quads: Vec<r::Quad> = if n <= 3 { let m = r::mask(n); (0..1u64 << (4 * n)).map(|x| [x & m, x >> n & m, x >> (2 * n) & m, x >> (3 * n) & m]).collect() }
                else {
                    let v: Vec<r::Quad> = r::classes(t, n).0.keys().map(|c| c.0).collect();
                    // valid or not: the operations are defined on all quadruples
                    let m = r::mask(n);
                    v.into_iter().take(3).chain((0..if th { 20 } else { 3 }).map(|i: u64| { let x = 0x9E3779B97F4A7C15u64.wrapping_mul(i + 1); [x & m, x >> n & m, x >> (2 * n) & m, x >> (3 * n) & m] })).collect()
                };
            let step = (quads.len() * g.len() / if th { 20_000_000 } else { 1_500_000 }).max(1);
            let quads: Vec<r::Quad> = quads.into_iter().step_by(step).collect();
            par(quads.len(), |i| {
                let q = quads[i];
                let want = r::class(t, &q, n);
                let nm = format!("class {} n={n}", r::tname(t));
                let s = || r::quad_to_str(&q, n);
                if let Some(c) = k.guard(&format!("panic {nm}"), s, || generate_equivalence_class_fast(&quadseq(&q, n), g)) {
                    k.count("traces", 1);
                    let got: Option<HashSet<r::Quad>> = c.iter().map(unquad).collect();
                    k.check(got.as_ref() == Some(&want), &nm, || format!("the class of {} has {} members, {} were computed", s(), want.len(), c.len()));
                }
                if i % 8 == 0 && want.len() < 20000 {
                    if let Some(c) = k.guard(&format!("panic {nm}"), s, || generate_equivalence_class(&quadseq(&q, n), st(t), &st(t).equivalences(), true)) {
                        let got: Option<HashSet<r::Quad>> = c.iter().map(unquad).collect();
                        k.check(got.as_ref() == Some(&want), &format!("closure {} n={n}", r::tname(t)), || format!("the closure of {} has {} members, {} were computed", s(), want.len(), c.len()));
                    }
                }
            });
            k.count("states", quads.len() as u64);
        }
        // the union of the classes of lists
        for n in 1..=(if th { 7 } else { 5 }) {
            let l: Vec<r::Quad> = r::classes(t, n).0.keys().map(|c| { let mut q = c.0; if c.1 { q[3] = r::neg(q[3], n); } q }).collect();
            let all = r::all_valid(t, n);
            for rep in 1..=2 {
                let list: Vec<QuadSeq> = l.iter().cycle().take(l.len() * rep).map(|q| quadseq(q, n)).collect();
                if let Some(u) = k.guard(&format!("panic union {} n={n}", r::tname(t)), || format!("{:?}", l), || generate_equivalent_quad_seqs(&list, st(t))) {
                    k.count("traces", 1);
                    let got: HashSet<r::Quad> = u.iter().filter_map(unquad).collect();
                    // a canonical form of a class determines it up to the sign lost when sequences coincide
                    let want: HashSet<r::Quad> = l.iter().flat_map(|q| r::class(t, q, n)).collect();
                    k.check(got == want && got.len() == u.len() && want.iter().all(|q| all.contains(q)) && want.len() == all.len(), &format!("union {} n={n}", r::tname(t)), || format!("{} quadruples returned ({} different), {} equivalent to one of the list, {} valid", u.len(), got.len(), want.len(), all.len()));
                }
            }
        }
    }
    // longer lengths: a group that cannot be represented is refused, never wrong; classes are computed without it
    for n in [32usize, 33, 35, 37, 48, 63, 64, 65, 96, 100] {
        for (ti, t) in r::TYPES.into_iter().enumerate() {
            for names in [&CANONICAL[ti][..1], &DOCUMENTED[ti][..2]] {
                let ops: Vec<Op> = names.iter().map(|s| named(s)).collect();
                k.count("traces", 1);
                if Kit::quiet(|| generate_symmetry_group(n, st(t), &ops)).is_ok() { let _ = group(&k, t, names, n, &ops); }
            }
        }
    }
    let lens: Vec<usize> = if th { (32..=100).collect() } else { vec![32, 33, 36, 37, 41, 50, 63, 64, 75, 100] };
    let mut cases = vec![];
    for &n in &lens {
        let real: Vec<[Vec<i8>; 4]> = quads_of(n);
        for v in real { for (t, names) in [(r::T::Wts, vec!["uniform_shift", "negate"]), (r::T::Qts, vec!["negate_swap", "dual_half_shift"]), (r::T::Ws, vec!["reorder", "uniform_half_shift"]), (r::T::Ws, vec!["automorphism"]), (r::T::Wts, vec!["even_alternated_negation", "uniform_shift"])] { cases.push((n, t, names, v.clone())); } }
    }
    par(cases.len(), |i| {
        let (n, t, names, v) = &cases[i];
        let n = *n;
        let mut gens: Vec<Map> = names.iter().flat_map(|s| images(s, n)).collect();
        gens.sort(); gens.dedup();
        let start: Vec<i8> = v.concat();
        let mut want = HashSet::from([start.clone()]);
        let mut todo = vec![start];
        while let Some(x) = todo.pop() { for g in &gens { let w: Vec<i8> = g.iter().map(|&(p, s)| s as i8 * x[p]).collect(); if want.insert(w.clone()) { todo.push(w); } } }
        let ops: Vec<Op> = names.iter().map(|s| named(s)).collect();
        let nm = format!("closure {} n={n}", r::tname(*t));
        if let Some(c) = k.guard(&format!("panic {nm}"), || format!("{names:?} {v:?}"), || generate_equivalence_class(&quadseq_of(v), st(*t), &ops, true)) {
            k.count("traces", 1);
            k.count("states", c.len() as u64);
            let got: HashSet<Vec<i8>> = c.iter().map(|q| { let s = q.sequences(); [s.0, s.1, s.2, s.3].concat() }).collect();
            k.check(got == want, &nm, || format!("{names:?}: the closure of {v:?} has {} members, {} were computed", want.len(), got.len()));
        }
    });
    k.done();
}
