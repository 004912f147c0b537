use super::{kit::*, reference as r};
use crate::sequences::{equivalence::*, symmetries::SequenceType, williamson::{QuadSeq, SequenceTag}};
use std::collections::{BTreeSet, HashSet};

include!(concat!(env!("VERIF_HARNESS_DIR"), "/maps.rs"));
/// operation, types it is an equivalence of (even lengths only: second list)
fn ops() -> Vec<(&'static str, Op, Vec<r::T>)> {
    use r::T::*;
    vec![
        ("negate", equivalent_negate as Op, vec![Wts, Ws]),
        ("uniform_shift", equivalent_uniform_shift, vec![Wts, Qts]),
        ("reorder", equivalent_reorder, vec![Wts, Ws]),
        ("even_alternated_negation", equivalent_even_alternated_negation, vec![Wts, Ws, Qts]),
        ("automorphism", equivalent_automorphism, vec![Wts, Ws, Qts]),
        ("single_half_shift", equivalent_single_half_shift, vec![Wts, Ws]), //opt
        ("uniform_half_shift", equivalent_uniform_half_shift, vec![Wts, Ws]),
        ("negate_swap", equivalent_negate_swap, vec![Wts, Ws, Qts]),
        ("dual_half_shift", equivalent_dual_half_shift, vec![Wts, Ws, Qts]),
        ("double_negate", equivalent_double_negate, vec![Wts, Ws, Qts]),
        ("double_reorder", equivalent_double_reorder, vec![Wts, Ws, Qts]),
        ("disjoint_swaps", equivalent_disjoint_swaps, vec![Wts, Ws, Qts]),
        ("reverse", equivalent_reverse, vec![Wts, Qts]),
        ("alternated_negation", equivalent_alternated_negation, vec![]),
    ]
}

fn flat(q: &QuadSeq) -> Option<Vec<i8>> {
    let n = q.size();
    let s = q.sequences();
    if [s.0.len(), s.1.len(), s.2.len(), s.3.len()] != [n; 4] { return None; }
    Some([s.0, s.1, s.2, s.3].concat())
}
fn unflat(v: &[i8], n: usize) -> QuadSeq {
    let mut q = QuadSeq::new(n);
    let p: Vec<Vec<i8>> = (0..4).map(|i| v[i * n..(i + 1) * n].to_vec()).collect();
    q.set_all_values((&p[0], &p[1], &p[2], &p[3]));
    q
}
fn apply(m: &Map, v: &[i8]) -> Vec<i8> { m.iter().map(|&(p, s)| s * v[p]).collect() }

fn compare(k: &Kit, name: &str, op: Op, t: r::T, n: usize, v: &[i8], maps: &[Map], what: &str) -> Option<HashSet<Vec<i8>>> {
    let q = unflat(v, n);
    let nm = format!("{name} n={n} {what}");
    let got = k.guard(&format!("panic {nm}"), || format!("{v:?}"), || op(&q, st(t), true))?;
    k.count("transitions", 1);
    let got: Option<HashSet<Vec<i8>>> = got.iter().map(flat).collect();
    let Some(got) = got else { k.violation(&format!("shape {nm}"), "an image has another length"); return None };
    let mut want: HashSet<Vec<i8>> = maps.iter().map(|m| apply(m, v)).collect();
    want.insert(v.to_vec());
    if got != want {
        let e: Vec<_> = got.difference(&want).take(1).collect();
        let f: Vec<_> = want.difference(&got).take(1).collect();
        k.violation(&format!("images-{name} n={n} {what}"), &format!("of {v:?}: not documented {e:?}, not returned {f:?}"));
    }
    Some(got)
}

pub fn main() {
    let k = Kit::new();
    // all quadruples of short lengths, all operations, with the closure under the operation itself
    let ops_ = ops();
    let full = 3;
    for n in 1..=full { for (name, op, _) in &ops_ {
        let maps = images(name, n);
        par(1 << (4 * n), |x| {
            let v: Vec<i8> = (0..4 * n).map(|p| if x >> p & 1 == 1 { -1 } else { 1 }).collect();
            compare(&k, name, *op, r::T::Wts, n, &v, &maps, "all");
        });
        k.count("states", 1 << (4 * n));
    } }
    // valid quadruples: images are valid, and brought back by the same operation
    let lim = |t| match (t, k.thorough) { (r::T::Ws, false) => 12, (_, false) => 8, (r::T::Ws, true) => 15, (r::T::Wts, true) => 10, (r::T::Qts, true) => 9 };
    for t in r::TYPES { for n in 1..=lim(t) {
        let all: Vec<r::Quad> = r::all_valid(t, n).into_iter().collect();
        let all: Vec<r::Quad> = if all.len() > 3000 && !k.thorough { all.iter().step_by(all.len() / 3000 + 1).cloned().chain(r::classes(t, n).0.into_keys().map(|c| c.0)).filter(|q| r::valid(t, q, n)).collect() } else { all };
        k.count("states", all.len() as u64);
        for (name, op, types) in &ops_ {
            if !types.contains(&t) || (*name == "alternated_negation" && n % 2 == 1) { continue; }
            let maps = images(name, n);
            par(all.len(), |i| {
                let v: Vec<i8> = all[i].iter().flat_map(|&s| r::b_to_vec(s, n)).collect();
                let Some(got) = compare(&k, name, *op, t, n, &v, &maps, r::tname(t)) else { return };
                for w in &got {
                    let q: Option<Vec<r::B>> = (0..4).map(|i| r::vec_to_b(&w[i * n..(i + 1) * n])).collect();
                    let ok = q.map_or(false, |q| r::valid(t, &[q[0], q[1], q[2], q[3]], n));
                    k.check(ok, &format!("validity-{name} n={n} {}", r::tname(t)), || format!("{v:?} is valid, its image {w:?} is not"));
                    if *name != "double_reorder" || i % 50 == 0 {
                        match Kit::quiet(|| op(&unflat(w, n), st(t), false)) {
                            Ok(b) => { k.check(b.contains(&unflat(&v, n)), &format!("back-{name} n={n} {}", r::tname(t)), || format!("{v:?} has the image {w:?}, but not the other way round")); }
                            Err(_) => k.violation(&format!("panic-{name} n={n}"), &format!("panics on {w:?}")),
                        }
                    }
                }
            });
        }
        if n == 6 { k.sample(r::tname(t), &format!("n = {n}: {} valid quadruples, each with all operations", all.len())); }
    } }
    // longer lengths: formal sequences (all entries different), and one entry different from the others
    let max = 100;
    par(max, |i| {
        let n = max - i;
        for (name, op, _) in &ops_ {
            let maps = images(name, n);
            if 4 * n <= 127 {
                let v: Vec<i8> = (1..=4 * n as i8).collect();
                compare(&k, name, *op, r::T::Qts, n, &v, &maps, "formal");
            }
            let step = if k.thorough || n <= 40 { 1 } else { 7 };
            for p in (0..4 * n).step_by(step).chain([n - 1, n, 2 * n, 3 * n, 4 * n - 1]) {
                let mut v = vec![1i8; 4 * n];
                v[p] = -1;
                compare(&k, name, *op, r::T::Qts, n, &v, &maps, "one");
                // a pattern without symmetries around it
                let v: Vec<i8> = (0..4 * n).map(|x| if x == p || (x * x + x / 3) % 5 < 2 { -1 } else { 1 }).collect();
                if p < 5 { compare(&k, name, *op, r::T::Wts, n, &v, &maps, "pattern"); }
            }
        }
    });
    // the helpers on single sequences
    for n in 1..=12usize { for s in 0..(1u64 << n) {
        let v = r::b_to_vec(s, n);
        k.check(Kit::quiet(|| negated(&v)) == Ok(r::b_to_vec(r::neg(s, n), n)), &format!("negated n={n}"), || format!("{v:?}")); //opt
        if n % 2 == 0 { k.check(Kit::quiet(|| half_shift(&v)) == Ok(r::b_to_vec(r::rot(s, n, n / 2), n)), &format!("half_shift n={n}"), || format!("{v:?}")); } //opt
    } }
    // the operations of each type generate the documented group: same closure of each valid quadruple
    for t in r::TYPES { for n in 1..=(if k.thorough { 7 } else { 6 }) {
        let e = st(t).equivalences();
        let mut left: BTreeSet<r::Quad> = r::all_valid(t, n);
        while let Some(q) = left.iter().next().cloned() {
            let c = r::class(t, &q, n);
            for x in &c { left.remove(x); }
            k.count("traces", 1);
            let got = k.guard(&format!("class-panic n={n}"), || format!("{q:?}"), || generate_equivalence_class(&quadseq(&q, n), st(t), &e, false));
            if let Some(g) = got {
                let g: Option<HashSet<r::Quad>> = g.iter().map(unquad).collect();
                k.check(g == Some(c), &format!("class n={n} {}", r::tname(t)), || format!("the operations of the type do not generate the documented class of {}", r::quad_to_str(&q, n)));
            }
        }
    } }
    let _ = SequenceTag::W;
    k.done();
}
