// C18: the reduction up to Hadamard equivalence.
use super::{kit::*, reference as r};
use crate::sequences::matrices::HM;
use crate::sequences::matrix_equivalence::*;
include!("hadamard.rs");
use hadamard::*;

fn hm(h: &H) -> HM { let m = to_rows(h); let mut x = HM::new(m.len()); for (i, r) in m.iter().enumerate() { for (j, v) in r.iter().enumerate() { x.set_value(i, j, *v); } } x }
fn un(h: &HM) -> H { let n = h.size(); (0..n).map(|i| (0..n).map(|j| ((h.get(i, j) < 0) as u128) << j).sum()).collect() }

/// Reduces a list whose matrices have the given class numbers: one of each class remains
fn reduce(k: &Kit, kind: &str, list: &[&H], cls: &[usize]) {
    let key = format!("{kind} order={}", list[0].len());
    let name = || format!("{} matrices of order {} of classes {:?}{}", list.len(), list[0].len(), cls.iter().take(20).collect::<Vec<_>>(), if list.len() <= 2 { format!(": {:x?}", list) } else { String::new() });
    k.count("transitions", 1);
    k.count("matrices_reduced", list.len() as u64);
    let mats: Vec<HM> = list.iter().map(|h| hm(h)).collect();
    let Some(out) = k.guard(&key, name, || reduce_to_hadamard_equivalence(&mats).into_iter().map(un).collect::<Vec<H>>()) else { return };
    let mut got = vec![];
    for o in &out { match list.iter().position(|h| *h == o) { Some(i) => got.push(cls[i]), None => { k.violation(&key, &format!("a matrix that was not in the list is left of {}", name())); return } } }
    got.sort();
    let mut want = cls.to_vec();
    want.sort(); want.dedup();
    k.check(got == want, &key, || format!("classes left: {got:?}, expected {want:?}, of {}", name()));
}

fn neg_row(h: &H, i: usize) -> H { let mut x = h.clone(); x[i] ^= ones(h.len()); x }
fn swap_rows(h: &H, i: usize, j: usize) -> H { let mut x = h.clone(); x.swap(i, j); x }
fn col(f: impl Fn(&H) -> H, h: &H) -> H { transpose(&f(&transpose(h))) }
fn elementary(h: &H) -> Vec<H> {
    let n = h.len();
    let mut v = vec![];
    for i in 0..n { v.push(neg_row(h, i)); v.push(col(|x| neg_row(x, i), h)); for j in 0..i { v.push(swap_rows(h, i, j)); v.push(col(|x| swap_rows(x, i, j), h)); } }
    v
}
/// generators of the group of operations only
fn generators(h: &H) -> Vec<H> {
    let n = h.len();
    let rot = |x: &H| { let mut y = x.clone(); y.rotate_left(1); y };
    let mut v = vec![neg_row(h, 0), col(|x| neg_row(x, 0), h), rot(h), col(rot, h)];
    if n > 1 { v.push(swap_rows(h, 0, 1)); v.push(col(|x| swap_rows(x, 0, 1), h)); }
    v
}

fn lists(len: usize, m: usize) -> Vec<Vec<usize>> { let mut v = vec![vec![]]; for _ in 0..len { v = v.iter().flat_map(|x: &Vec<usize>| (0..m).map(move |i| { let mut y = x.clone(); y.push(i); y })).collect(); } v }

pub fn main() {
    let k = Kit::new();
    let th = k.thorough;
    // all Hadamard matrices of order 1, 2 and 4: all of one class
    for n in [1usize, 2, 4] {
        let all: Vec<H> = (0..1u64 << (n * n)).map(|x| (0..n).map(|i| (x >> (i * n)) as u128 & ones(n)).collect::<H>()).filter(is_hadamard).collect();
        let base = all[0].clone();
        par(all.len(), |i| { reduce(&k, "all", &[&base, &all[i]], &[0, 0]); reduce(&k, "all", &[&all[i]], &[0]); });
        reduce(&k, "all", &all.iter().collect::<Vec<_>>(), &vec![0; all.len()]);
        k.count("states", all.len() as u64);
    }
    // classes of each order: from sequences, from Sylvester's and Paley's constructions, closed under transposing and switching
    for (o, cap) in [(8usize, 20), (12, 20), (16, 60), (20, 20), (24, if th { 20 } else { 3 }), (28, 4), (32, if th { 20 } else { 5 }), (36, if th { 20 } else { 4 }), (40, if th { 8 } else { 2 }), (44, if th { 4 } else { 0 }), (48, if th { 6 } else { 0 })] {
        if cap == 0 { continue; }
        let mut c = Classes::default();
        let mut seq: Vec<H> = vec![];
        if o % 4 == 0 { for t in r::TYPES { let n = o / 4; if t == r::T::Wts && n > 12 || t == r::T::Qts && n > 9 { continue; } for x in r::classes(t, n).0.keys() { let mut q = x.0; if x.1 { q[3] = r::neg(q[3], n); } seq.push(of_quad(&q, n)); } } }
        if o.is_power_of_two() { seq.push((0..o).map(|i| (0..o).map(|j| (((i & j).count_ones() & 1) as u128) << j).sum()).collect()); }
        let p = o - 1;
        if (2..p).all(|d| p % d != 0) && o % 4 == 0 && o != 24 {
            let sq: std::collections::HashSet<usize> = (1..p).map(|x| x * x % p).collect();
            seq.push((0..o).map(|i| (0..o).map(|j| { let m = if i == 0 { false } else if j == 0 { true } else if i == j { false } else { !sq.contains(&((j + p - i) % p)) }; (m as u128) << j }).sum()).collect());
        }
        for h in &seq { if k.check(is_hadamard(h), "reference", || format!("order {o}")) { c.add(h); } }
        let given = c.reps.len();
        let mut members: Vec<(H, usize)> = seq.iter().map(|h| (h.clone(), c.find(h).unwrap())).collect();
        let mut i = 0;
        // from order 20 on, a few matrices for each value of the (incomplete) invariant
        let mut seen: std::collections::BTreeMap<(usize, Profile, Profile), u32> = Default::default();
        while i < c.reps.len() && c.reps.len() < cap {
            let h = c.reps[i].clone();
            let t = transpose(&h);
            for x in std::iter::once(t.clone()).chain(switched(&h)).chain(switched(&t).iter().map(transpose)) {
                if c.reps.len() >= cap { break; }
                if o > 16 { let e = seen.entry(invariant(&x)).or_default(); *e += 1; if *e > 4 { continue; } }
                let before = c.reps.len();
                let id = c.add(&x);
                if c.reps.len() > before || members.iter().filter(|m| m.1 == id).count() < 4 { members.push((x, id)); }
            }
            i += 1;
        }
        k.count("states", c.reps.len() as u64);
        k.count("equivalence_search_nodes", c.nodes);
        if o == 16 { k.check(c.reps.len() == 5, "reference", || format!("{} classes of order 16", c.reps.len())); }
        if o == 8 || o == 12 { k.check(c.reps.len() == 1, "reference", || format!("{} classes of order {o}", c.reps.len())); }
        let m = c.reps.len();
        if std::env::var("VERIF_DEBUG").is_ok() { eprintln!("{o} {given} {m} {:?}", std::time::SystemTime::now()); }
        k.sample(&format!("order {o}"), &format!("{given} classes of matrices from sequences and constructions, {m} classes after transposing and switching"));
        // the operations, applied to every representative, alone and composed
        let reps = &c.reps.clone();
        let few = if o <= 16 { 5 } else { 2 };
        par(m, |i| {
            if i >= few && o > 20 && !th { return; }
            if o <= 20 || th { for x in elementary(&reps[i]) { reduce(&k, "operation", &[&reps[i], &x], &[0, 0]); } }
            let g = generators(&reps[i]);
            let mut l: Vec<&H> = g.iter().collect(); l.push(&reps[i]); reduce(&k, "operations", &l, &vec![0; l.len()]);
            // all compositions of the generators, breadth first
            let mut level = vec![reps[i].clone()];
            for d in 0..(if o <= 16 { 3 } else if o <= 20 || th { 2 } else { 1 }) {
                let next: Vec<H> = level.iter().flat_map(|h| generators(h)).collect();
                if d > 0 { let mut l: Vec<&H> = next.iter().collect(); l.push(&reps[i]); reduce(&k, "operations", &l, &vec![0; l.len()]); }
                level = next;
            }
        });
        // every pair of representatives, and of each with its transpose
        let tr: Vec<H> = reps.iter().map(transpose).collect();
        let tid: Vec<Option<usize>> = { let mut v = vec![None; m]; if o != 20 { for i in 0..m { v[i] = c.find(&tr[i]); } } v };
        let pairs: Vec<(usize, usize)> = (0..m).flat_map(|i| (0..m).map(move |j| (i, j))).collect();
        par(pairs.len(), |x| { let (i, j) = pairs[x]; if i != j && (m <= 24 || i < j) { reduce(&k, "pair", &[&reps[i], &reps[j]], &[i, j]); } if let Some(t) = tid[j] { if i == j || m <= 12 { reduce(&k, "transpose", &[&reps[i], &tr[j]], &[i, t]); } } });
        // every list of three among a few (with repetitions and equivalent forms)
        let mut pool: Vec<(H, usize)> = (0..m.min(3)).map(|i| (reps[i].clone(), i)).collect();
        pool.push((elementary(&reps[m - 1])[1].clone(), m - 1));
        pool.push((col(|x| swap_rows(x, 0, 1), &neg_row(&reps[0], 1)), 0));
        let ls = if o <= 20 || th { lists(3, pool.len()) } else { lists(3, 2) };
        par(ls.len(), |x| { let l = &ls[x]; reduce(&k, "triple", &l.iter().map(|&i| &pool[i].0).collect::<Vec<_>>(), &l.iter().map(|&i| pool[i].1).collect::<Vec<_>>()); });
        // everything at once
        reduce(&k, "list", &members.iter().map(|x| &x.0).collect::<Vec<_>>(), &members.iter().map(|x| x.1).collect::<Vec<_>>());
        let l: Vec<&(H, usize)> = members.iter().rev().collect();
        reduce(&k, "list", &l.iter().map(|x| &x.0).collect::<Vec<_>>(), &l.iter().map(|x| x.1).collect::<Vec<_>>());
        k.count("states", members.len() as u64);
    }
    let e: Vec<HM> = vec![];
    k.guard("empty", || "the empty list".into(), || { if !reduce_to_hadamard_equivalence(&e).is_empty() { panic!("not empty") } });
    k.done();
}
