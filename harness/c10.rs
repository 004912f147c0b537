use super::{kit::{self, *}, reference as r};
use crate::find::find_unique::*; //opt
use crate::sequences::{equivalence::*, williamson::QuadSeq};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Mutex;

/// the representative of equivalent quadruples
fn rep_of(k: &Kit, t: r::T, l: &[r::Quad], n: usize) -> Option<r::Quad> {
    let nm = format!("{} n={n}", r::tname(t));
    let show = || l.iter().take(4).map(|q| r::quad_to_str(q, n)).collect::<Vec<_>>().join(" ");
    let list: Vec<QuadSeq> = l.iter().map(|q| quadseq(q, n)).collect();
    let got = k.guard(&format!("panic {nm}"), || format!("reduce_to_canonical_reps of {}", show()), || reduce_to_canonical_reps(&list, st(t)))?; //opt: let got: Vec<QuadSeq> = { let _ = (&list, &show); return None; };
    k.count("transitions", l.len() as u64);
    if got.len() != 1 { k.violation(&format!("single {nm}"), &format!("{} equivalent quadruples ({} ...) get {} representatives", l.len(), show(), got.len())); return None; }
    let u = unquad(&got[0]);
    if u.is_none() { k.violation(&format!("single {nm}"), &format!("the representative of {} is not a quadruple", show())); }
    u
}

/// all reductions of a list: name, result
fn reductions(t: r::T, l: &Vec<QuadSeq>, only: Option<&str>) -> Vec<(&'static str, Result<Vec<QuadSeq>, ()>)> {
    let e = st(t).equivalences();
    if only == Some("canonical") { return vec![("canonical", Kit::quiet(|| reduce_to_canonical_reps(l, st(t))))]; } //opt: if only == Some("canonical") { return vec![]; }
    vec![
        ("original", Kit::quiet(|| reduce_to_equivalence(l, st(t), &e))),
        ("set-difference", Kit::quiet(|| reduce_to_equivalence_set_dif(l, st(t), &e))), //opt
        ("parallel", Kit::quiet(|| reduce_to_equivalence_par(l, st(t), &e))), //opt
        ("canonical", Kit::quiet(|| reduce_to_canonical_reps(l, st(t)))), //opt
    ]
}

/// the number of compositions of the operations, roughly
fn group(t: r::T, n: usize) -> usize {
    let e = n % 2 == 0;
    let u = r::units(n).len();
    match t { r::T::Qts => 192 * n * u * if e { 16 } else { 1 }, r::T::Wts => 384 * n * u * if e { 16 } else { 1 }, r::T::Ws => 384 * u * if e { 32 } else { 1 } }
}

fn judge(k: &Kit, t: r::T, n: usize, what: &str, l: &[r::Quad], canon: &dyn Fn(&r::Quad) -> r::Canon, only: Option<&str>) {
    let list: Vec<QuadSeq> = l.iter().map(|q| quadseq(q, n)).collect();
    let want: BTreeSet<r::Canon> = l.iter().map(|q| canon(q)).collect();
    let show = || { let s: Vec<String> = l.iter().take(6).map(|q| r::quad_to_str(q, n)).collect(); format!("{} n={n} {what} (list of {}: {})", r::tname(t), l.len(), s.join(" ")) };
    for (name, res) in reductions(t, &list, only) {
        k.count("traces", 1);
        let key = format!("reduction-{name} {}", r::tname(t));
        let Ok(res) = res else { k.violation(&key, &format!("{}: panicked", show())); continue };
        let mut got = BTreeSet::new();
        for x in &res {
            match unquad(x) {
                Some(q) if x.size() == n && r::valid(t, &q, n) => { if !got.insert(canon(&q)) { k.violation(&key, &format!("{}: two members of one class remain, one is {}", show(), r::quad_to_str(&q, n))); } }
                _ => { k.violation(&key, &format!("{}: returns something that is not a valid quadruple", show())); }
            }
        }
        k.check(got.is_subset(&want), &key, || format!("{}: returns a member of a class that is not in the list", show()));
        k.check(want.is_subset(&got), &key, || format!("{}: {} of the {} classes of the list are lost", show(), want.difference(&got).count(), want.len()));
    }
}

fn dbg(t: &std::time::Instant, s: &str) { if std::env::var("VERIF_DEBUG").is_ok() { eprintln!("   {s} {:?}", t.elapsed()); } }

pub fn main() {
    let k = Kit::new();
    let th = k.thorough;
    let t0 = std::time::Instant::now();
    for t in r::TYPES {
        let key = |s: &str, n: usize| format!("{s} {} n={n}", r::tname(t));
        // every valid quadruple
        let top = match t { r::T::Qts => if th { 7 } else { 6 }, r::T::Wts => if th { 7 } else { 6 }, r::T::Ws => if th { 9 } else { 7 } };
        for n in 1..=top {
            let all: Vec<r::Quad> = r::all_valid(t, n).into_iter().collect();
            k.count("states", all.len() as u64);
            // one call for each quadruple of short lengths, one for several members of a class on longer ones
            let mut jobs: Vec<Vec<r::Quad>> = vec![];
            let mut by: BTreeMap<r::Canon, Vec<r::Quad>> = BTreeMap::new();
            let cs: Vec<Mutex<Option<r::Canon>>> = all.iter().map(|_| Mutex::new(None)).collect();
            par(all.len(), |i| *cs[i].lock().unwrap() = Some(r::canon(t, &all[i], n)));
            for (q, c) in all.iter().zip(&cs) { by.entry(c.lock().unwrap().unwrap()).or_default().push(*q); }
            for v in by.values() { for c in v.chunks(if group(t, n) <= 3000 && all.len() <= 1000 { 1 } else { 250 }) { jobs.push(c.to_vec()); } }
            let got: Vec<Mutex<Option<r::Quad>>> = jobs.iter().map(|_| Mutex::new(None)).collect();
            par(jobs.len(), |i| *got[i].lock().unwrap() = rep_of(&k, t, &jobs[i], n));
            let mut found: HashMap<r::Quad, r::Quad> = HashMap::new();
            for (j, g) in jobs.iter().zip(&got) { if let Some(x) = *g.lock().unwrap() { for q in j { found.insert(*q, x); } } }
            // without reduce_to_canonical_reps: the first member stands in for the representative
            if found.is_empty() { for v in by.values() { for q in v { found.insert(*q, v[0]); } } }
            if found.len() < all.len() { continue; }
            let out: Vec<Option<(r::Canon, r::Quad)>> = all.iter().zip(&cs).map(|(q, c)| Some((c.lock().unwrap().unwrap(), found[q]))).collect();
            let canon: HashMap<r::Quad, r::Canon> = all.iter().zip(&out).map(|(q, o)| (*q, o.unwrap().0)).collect();
            let reps: HashMap<r::Quad, r::Quad> = all.iter().zip(&out).map(|(q, o)| (*q, o.unwrap().1)).collect();
            let mut of_class: BTreeMap<r::Canon, (r::Quad, r::Quad)> = BTreeMap::new();
            for q in &all {
                let (c, x) = (canon[q], reps[q]);
                let s = |q: &r::Quad| r::quad_to_str(q, n);
                k.check(canon.get(&x) == Some(&c), &key("member", n), || format!("the representative {} of {} is not equivalent to it", s(&x), s(q)));
                k.check(reps.get(&x) == Some(&x), &key("idempotent", n), || format!("the representative {} of {} is not its own", s(&x), s(q)));
                let e = of_class.entry(c).or_insert((*q, x));
                k.check(e.1 == x, &key("same-class", n), || format!("the equivalent quadruples {} and {} have representatives {} and {}", s(&e.0), s(q), s(&e.1), s(&x)));
            }
            let distinct: BTreeSet<r::Quad> = of_class.values().map(|x| x.1).collect();
            k.check(distinct.len() == of_class.len(), &key("other-class", n), || format!("{} classes have {} representatives", of_class.len(), distinct.len()));
            k.count("classes", of_class.len() as u64);
            if std::env::var("VERIF_DEBUG").is_ok() { eprintln!("{} n={n}: {} quadruples, {:?}", r::tname(t), all.len(), t0.elapsed()); }
            k.sample("classes", &format!("{} n={n}: {} quadruples, {} classes", r::tname(t), all.len(), of_class.len()));
            // the lexicographic minimum of the class, where it is used
            let some: Vec<r::Quad> = { let step = (all.len() / if th { 24 } else { 8 }).max(1); all.iter().step_by(step).cloned().collect() };
            //[opt
            if group(t, n) <= if th { 100_000 } else { 6_000 } { par(some.len(), |i| {
                let q = &some[i];
                if let Some(x) = k.guard(&key("panic", n), || format!("generate_canonical_representative of {}", r::quad_to_str(q, n)), || generate_canonical_representative(&quadseq(q, n), st(t))) {
                    k.count("transitions", 1);
                    let u = unquad(&x);
                    k.check(u.map_or(false, |u| canon.get(&u) == canon.get(q)), &key("minimum-member", n), || format!("generate_canonical_representative of {} is not a member of the class", r::quad_to_str(q, n)));
                    if let Some(u) = u { if let Some((p, _)) = of_class.get(&canon[q]) {
                        if let Some(y) = k.guard(&key("panic", n), || "generate_canonical_representative".into(), || generate_canonical_representative(&quadseq(p, n), st(t))) {
                            k.check(unquad(&y) == Some(u), &key("minimum-same", n), || format!("generate_canonical_representative of the equivalent {} and {} differ", r::quad_to_str(q, n), r::quad_to_str(p, n)));
                        }
                    } }
                }
            }); }
            //]
            dbg(&t0, "equiv");
            // equiv on pairs
            let pairs: Vec<(r::Quad, r::Quad)> = some.iter().flat_map(|a| some.iter().map(move |b| (*a, *b))).collect();
            par(pairs.len(), |i| {
                let (a, b) = pairs[i];
                if let Some(e) = k.guard(&key("panic", n), || format!("equiv({}, {})", r::quad_to_str(&a, n), r::quad_to_str(&b, n)), || equiv(&quadseq(&a, n), &quadseq(&b, n), st(t))) {
                    k.count("transitions", 1);
                    k.check(e == (canon[&a] == canon[&b]), &key("equiv", n), || format!("equiv({}, {}) is {e}", r::quad_to_str(&a, n), r::quad_to_str(&b, n)));
                }
            });
            dbg(&t0, "whole");
            // whole lists, in several orders and with everything repeated (the quadratic one on shorter lists)
            let cf = |q: &r::Quad| canon.get(q).copied().unwrap_or_else(|| r::canon(t, q, n));
            if all.len() <= if th { 40000 } else { 8000 } {
                // long lists take long: every fifth in the quick tier
                let all: Vec<r::Quad> = if th || all.len() <= 1000 { all.clone() } else { all.iter().step_by(5).cloned().collect() };
                let mut lists = vec![("all", all.clone()), ("all reversed", all.iter().rev().cloned().collect::<Vec<_>>())];
                if all.len() <= 2000 { lists.push(("all twice", all.iter().chain(all.iter()).cloned().collect())); lists.push(("each twice", all.iter().flat_map(|q| [*q, *q]).collect())); }
                for stride in [7usize, 101] { if r::gcd(stride, all.len()) == 1 { lists.push(("all, permuted", (0..all.len()).map(|i| all[i * stride % all.len()]).collect())); } }
                par(lists.len(), |i| judge(&k, t, n, lists[i].0, &lists[i].1, &cf, Some("canonical")));
                dbg(&t0, "whole-others");
                // the other reductions expand whole classes: lists of bounded length
                let cap = if th { 10_000_000 } else { 100_000 } / group(t, n);
                if cap >= 3 {
                    let lists: Vec<_> = lists.into_iter().map(|(s, l)| { let m = l.len().div_ceil(cap); (s, if m > 1 { l.into_iter().step_by(m).collect::<Vec<_>>() } else { l }) }).collect();
                    par(lists.len(), |i| judge(&k, t, n, lists[i].0, &lists[i].1, &cf, None));
                }
            }
            dbg(&t0, "short");
            // all short lists over a few members of a few classes
            let mut letters: Vec<r::Quad> = vec![];
            let mut members: BTreeMap<r::Canon, Vec<r::Quad>> = BTreeMap::new();
            for q in &all { members.entry(canon[q]).or_default().push(*q); }
            // the classes that differ most from each other in size first
            let mut cl: Vec<&Vec<r::Quad>> = members.values().collect();
            cl.sort_by_key(|v| v.len());
            let want = if th { 6 } else { 5 };
            let mut pos = 0;
            while letters.len() < want && pos < 3 * want {
                let v = cl[pos % cl.len()];
                let x = match pos / cl.len() { 0 => v[v.len() - 1], 1 => v[0], _ => v[(pos * 31) % v.len()] };
                if !letters.contains(&x) { letters.push(x); }
                // the representative itself as well
                let y = *reps.get(&x).unwrap_or(&x);
                if letters.len() < want && !letters.contains(&y) && pos % 2 == 0 { letters.push(y); }
                pos += 1;
            }
            let mut lists: Vec<Vec<r::Quad>> = vec![vec![]];
            let mut last: Vec<Vec<r::Quad>> = vec![vec![]];
            for _ in 0..(if th { 4 } else { 3 }) {
                last = last.iter().flat_map(|l| letters.iter().map(move |x| { let mut m = l.clone(); m.push(*x); m })).collect();
                lists.extend(last.iter().cloned());
            }
            par(lists.len(), |i| judge(&k, t, n, "short list", &lists[i], &cf, Some("canonical")));
            dbg(&t0, "short-others");
            let cap = if th { 2_000_000 } else { 60_000 } / group(t, n);
            let lists: Vec<_> = if cap < 3 { vec![] } else if lists.len() <= cap { lists } else { let m = if cap >= 40 { 3 } else { 2 }; lists.into_iter().filter(|l| l.len() <= if cap >= 40 { 3 } else { 2 } && l.iter().all(|x| letters[..letters.len().min(m)].contains(x))).take(cap.max(3)).collect() };
            k.count("short_lists", lists.len() as u64);
            par(lists.len(), |i| judge(&k, t, n, "short list", &lists[i], &cf, None));
        }
        // longer lengths: members of each class at distance at most 2 in the operations
        let long: Vec<usize> = match t { r::T::Qts => if th { vec![8, 9, 10, 11] } else { vec![8, 9] }, r::T::Wts => if th { vec![8, 9, 10, 11, 12, 13] } else { vec![8, 9, 10, 11] }, r::T::Ws => if th { vec![10, 11, 12, 13, 14, 15, 16, 18, 20] } else { vec![10, 11, 12, 13, 14, 15, 16] } };
        // beyond: published sequences
        let searched = *long.last().unwrap();
        let long: Vec<usize> = long.into_iter().chain((searched + 1..=21).filter(|&n| (th || n % 2 == 1 && n < 18 || n == 12) && !published(t, n).is_empty()))
            .chain(match t { r::T::Ws => if th { vec![19, 21, 25, 26, 27, 30, 31, 37, 38, 42, 49, 54, 63] } else { vec![18, 25, 27, 30, 37, 38] }, _ => if th { vec![25, 26, 27, 31, 37, 38, 41, 49, 51] } else { vec![25, 37] } }).collect();
        for n in long {
            let mut reps: BTreeMap<r::Quad, r::Canon> = BTreeMap::new();
            let mut all: Vec<(r::Quad, r::Canon)> = vec![];
            let g = r::generators(t, n);
            // class sizes grow with 4^n: a bounded number of classes per length
            let cap = if th { 12 } else { 4 };
            let classes: Vec<r::Canon> = if n > searched { vec![] } else { r::classes(t, n).0.into_keys().collect() };
            let step = (classes.len() / cap).max(1);
            let mut start: Vec<r::Quad> = classes.iter().step_by(step).map(|c| { let mut q = c.0; if c.1 { q[3] = r::neg(q[3], n); } q }).collect();
            if n > searched { let p = published(t, n); start = p.iter().step_by((p.len() / if th { cap } else { 2 }).max(1)).cloned().collect(); }
            if n > 21 || t == r::T::Ws && start.is_empty() { start = kit::long().iter().filter(|v| v[0].len() == n).map(|v| [0, 1, 2, 3].map(|s: usize| r::vec_to_b(&v[s]).unwrap())).collect(); }
            assert!(!start.is_empty() && start.iter().all(|q| r::valid(t, q, n)));
            for q in start {
                let c = r::canon(t, &q, n);
                let mut one: Vec<r::Quad> = vec![q];
                for (i, f) in g.iter().enumerate() { let y = f(&q); one.push(y); let m = &g[(i * 7 + 3) % g.len()]; one.push(m(&y)); one.push(g[(i * 5 + 1) % g.len()](&m(&y))); }
                // one class at a time is expanded from 32 on: some of the members
                if n > 31 { let m = one.len().div_ceil(if th { 24 } else { 8 }); one = one.into_iter().step_by(m).collect(); }
                let mut seen = BTreeSet::new();
                for x in one { if seen.insert(x) { all.push((x, c)); } }
            }
            k.count("states", all.len() as u64);
            let mut by: BTreeMap<r::Canon, Vec<r::Quad>> = BTreeMap::new();
            for (q, c) in &all { by.entry(*c).or_default().push(*q); }
            let by: Vec<(r::Canon, Vec<r::Quad>)> = by.into_iter().collect();
            let out: Vec<Mutex<Option<r::Quad>>> = by.iter().map(|_| Mutex::new(None)).collect();
            par(by.len(), |i| { *out[i].lock().unwrap() = rep_of(&k, t, &by[i].1, n); });
            if std::env::var("VERIF_DEBUG").is_ok() { eprintln!("long {} n={n}: {} quadruples, {:?}", r::tname(t), all.len(), t0.elapsed()); }
            dbg(&t0, "long-rep");
            let mut of: BTreeMap<r::Canon, (r::Quad, r::Quad)> = BTreeMap::new();
            for ((c, v), o) in by.iter().zip(&out) {
                let q = &v[0];
                let Some(x) = *o.lock().unwrap() else { continue };
                let s = |q: &r::Quad| r::quad_to_str(q, n);
                k.check(r::valid(t, &x, n) && r::canon(t, &x, n) == *c, &key("member", n), || format!("the representative {} of {} is not equivalent to it", s(&x), s(q)));
                let e = of.entry(*c).or_insert((*q, x));
                k.check(e.1 == x, &key("same-class", n), || format!("the equivalent quadruples {} and {} have representatives {} and {}", s(&e.0), s(q), s(&e.1), s(&x)));
                let f = reps.entry(x).or_insert(*c);
                k.check(f == c, &key("other-class", n), || format!("{} represents two classes", s(&x)));
            }
            dbg(&t0, "long-list");
            // one list of all of them
            let l: Vec<r::Quad> = all.iter().map(|x| x.0).collect();
            let m: HashMap<r::Quad, r::Canon> = all.iter().cloned().collect();
            judge(&k, t, n, "members of several classes", &l, &|q| m.get(q).copied().unwrap_or_else(|| r::canon(t, q, n)), Some("canonical"));
        }
        // reductions with one operation only: many classes
        for n in 2..=(if th { 6 } else { 5 }) {
            let e: Vec<fn(&QuadSeq, crate::sequences::symmetries::SequenceType, bool) -> std::collections::HashSet<QuadSeq>> = if t == r::T::Ws { vec![equivalent_negate] } else { vec![equivalent_uniform_shift] };
            let min = |q: &r::Quad| -> r::Quad { if t == r::T::Ws { q.map(|b| b.min(r::neg(b, n))) } else { (0..n).map(|s| q.map(|b| r::rot(b, n, s))).min().unwrap() } };
            let all: Vec<r::Quad> = r::all_valid(t, n).into_iter().collect();
            let m = all.len().div_ceil(if th { 4000 } else { 1200 });
            // whole classes, in an order that takes them apart: first member of each, second member of each, ...
            let mut by: BTreeMap<r::Quad, Vec<r::Quad>> = BTreeMap::new();
            for q in &all { by.entry(min(q)).or_default().push(*q); }
            let by: Vec<Vec<r::Quad>> = by.into_values().step_by(m).collect();
            let l: Vec<r::Quad> = (0..16).flat_map(|i| by.iter().filter_map(move |v| v.get(i).copied())).collect();
            let grouped: Vec<r::Quad> = by.iter().flatten().cloned().collect();
            let want: BTreeSet<r::Quad> = l.iter().map(min).collect();
            k.count("states", l.len() as u64);
            let lists: Vec<Vec<QuadSeq>> = [l.clone(), l.iter().rev().cloned().collect(), grouped, l.iter().chain(l.iter()).cloned().collect()].iter().map(|l| l.iter().map(|q| quadseq(q, n)).collect()).collect();
            par(lists.len() * 3, |i| {
                let list = &lists[i / 3];
                let (name, res) = match i % 3 {
                    0 => ("original", Kit::quiet(|| reduce_to_equivalence(list, st(t), &e))),
                    1 => ("set-difference", Kit::quiet(|| reduce_to_equivalence_set_dif(list, st(t), &e))), //opt
                    2 => ("parallel", Kit::quiet(|| reduce_to_equivalence_par(list, st(t), &e))), //opt
                    _ => return,
                };
                k.count("traces", 1);
                let got: Option<Vec<r::Quad>> = res.ok().map(|v| v.iter().filter(|x| x.size() == n).filter_map(unquad).map(|q| min(&q)).collect());
                k.check(got.as_ref().map_or(false, |g| g.len() == want.len() && g.iter().cloned().collect::<BTreeSet<_>>() == want), &format!("reduction-{name} {}", r::tname(t)), || format!("{} n={n}, {} quadruples up to one operation: {:?} remain of {} classes", r::tname(t), list.len(), got.map(|g| g.len()), want.len()));
            });
        }
        dbg(&t0, "many-classes");
        // lengths above 64, as vectors: equivalent forms of a long quadruple and their one representative
        //[opt
        let lens: &[usize] = match t { r::T::Ws => if th { &[69, 74, 75, 79, 82, 85, 87, 90, 91, 97, 98, 99] } else { &[69, 75, 90, 99] }, _ => if th { &[69, 75, 85, 90, 99] } else { &[75] } };
        let longs: Vec<[Vec<i8>; 4]> = kit::long().into_iter().filter(|v| lens.contains(&v[0].len())).collect();
        let same: Vec<Mutex<BTreeSet<Vec<Vec<i8>>>>> = longs.iter().map(|_| Mutex::new(BTreeSet::new())).collect();
        let forms: Vec<Vec<[Vec<i8>; 4]>> = longs.iter().map(|v| {
            let n = v[0].len();
            type V = [Vec<i8>; 4];
            let each = |q: &V, f: &dyn Fn(&Vec<i8>, usize) -> i8| -> V { [0, 1, 2, 3].map(|s: usize| (0..n).map(|i| f(&q[s], i)).collect()) };
            let order = |q: &V, o: [usize; 4]| -> V { o.map(|s| q[s].clone()) };
            let sign = |q: &V, m: usize| -> V { [0, 1, 2, 3].map(|s: usize| if m >> s & 1 == 1 { q[s].iter().map(|x| -x).collect() } else { q[s].clone() }) };
            let u = r::units(n);
            let mut out = vec![v.clone()];
            for (i, o) in [[1, 0, 3, 2], [2, 3, 0, 1], [1, 2, 0, 3], [3, 2, 1, 0], [0, 3, 1, 2]].into_iter().enumerate() {
                let mut q = order(v, o);
                q = sign(&q, [3, 5, 9, 6, 15][i]);
                if t != r::T::Qts { q = order(&sign(&q, [1, 4, 7, 8, 11][i]), [[1, 0, 2, 3], [0, 1, 3, 2], [0, 2, 1, 3], [3, 1, 2, 0], [0, 1, 2, 3]][i]); }
                let m = u[(7 * i + 3) % u.len()];
                q = each(&q, &|s, x| s[x * m % n]);
                if t != r::T::Ws { let k = [1, n - 1, n / 2, n - 3, 2][i]; q = each(&q, &|s, x| s[(x + k) % n]); }
                if t == r::T::Ws && n % 2 == 0 && i % 2 == 1 { q = each(&q, &|s, x| s[(x + n / 2) % n]); }
                if n % 2 == 0 && i < 3 { q = each(&q, &|s, x| if x % 2 == 1 { -s[x] } else { s[x] }); }
                out.push(q);
            }
            out
        }).collect();
        let jobs: Vec<(usize, usize)> = forms.iter().enumerate().flat_map(|(i, f)| (0..=f.len()).map(move |j| (i, j))).collect();
        k.count("states", jobs.len() as u64);
        par(jobs.len(), |x| {
            let (i, j) = jobs[x];
            let n = longs[i][0].len();
            // each form alone, and the list of all of them
            let list: Vec<QuadSeq> = if j < forms[i].len() { vec![quadseq_of(&forms[i][j])] } else { forms[i].iter().map(quadseq_of).collect() };
            k.count("traces", 1);
            let Some(got) = k.guard(&key("panic", n), || format!("reduce_to_canonical_reps of {} equivalent quadruples", list.len()), || reduce_to_canonical_reps(&list, st(t))) else { return };
            k.count("transitions", list.len() as u64);
            k.check(got.len() == 1, &key("single", n), || format!("{} equivalent quadruples get {} representatives", list.len(), got.len()));
            for g in got { let (a, b, c, d) = g.sequences(); same[i].lock().unwrap().insert(vec![a, b, c, d]); }
        });
        for (i, s) in same.iter().enumerate() {
            let n = longs[i][0].len();
            let s = s.lock().unwrap();
            k.check(s.len() == 1, &key("same-class", n), || format!("equivalent quadruples have {} representatives", s.len()));
            for q in s.iter() {
                let ok = q.iter().all(|v| v.len() == n && v.iter().all(|x| *x == 1 || *x == -1)) && (1..n).all(|t| q.iter().map(|v| (0..n).map(|i| (v[i] * v[(i + t) % n]) as i64).sum::<i64>()).sum::<i64>() == 0);
                k.check(ok, &key("member", n), || "the representative is not complementary".into());
            }
        }
        dbg(&t0, "vectors");
        //]
        // reductions with some of the operations only: shifts and signs on all lengths
        if t == r::T::Ws { continue; }
        let lens: Vec<usize> = if th { (1..=63).collect() } else { vec![7, 13, 21, 25, 31, 37, 41, 49, 50, 63] };
        par(lens.len(), |i| {
            let n = lens[i];
            let mut l: Vec<r::Quad> = kit::long().iter().filter(|v| v[0].len() == n).map(|v| [0, 1, 2, 3].map(|s: usize| r::vec_to_b(&v[s]).unwrap())).chain(published(t, n).into_iter().take(3)).collect();
            let min = |q: &r::Quad| -> r::Quad { (0..n).map(|s| q.map(|b| { let x = r::rot(b, n, s); if t == r::T::Wts { x.min(r::neg(x, n)) } else { x } })).min().unwrap() };
            let more: Vec<r::Quad> = l.iter().flat_map(|q| [q.map(|b| r::rot(b, n, 3)), q.map(|b| r::aut(b, n, if n % 2 == 1 { 2 } else { n - 1 })), q.map(|b| r::rot(b, n, n - 1)), if t == r::T::Wts { [r::neg(q[0], n), q[1], r::rot(r::neg(q[2], n), n, 0), q[3]] } else { *q }, q.map(|b| r::rot(b, n, n / 2))]).collect();
            l.extend(more);
            if l.is_empty() { return; }
            assert!(l.iter().all(|q| r::valid(t, q, n)));
            let want: BTreeSet<r::Quad> = l.iter().map(min).collect();
            let e: Vec<fn(&QuadSeq, crate::sequences::symmetries::SequenceType, bool) -> std::collections::HashSet<QuadSeq>> = if t == r::T::Wts { vec![equivalent_uniform_shift, equivalent_negate] } else { vec![equivalent_uniform_shift] };
            for rev in [false, true] {
                let mut list: Vec<QuadSeq> = l.iter().map(|q| quadseq(q, n)).collect();
                if rev { list.reverse(); }
                let res = [
                    ("original", Kit::quiet(|| reduce_to_equivalence(&list, st(t), &e))),
                    ("set-difference", Kit::quiet(|| reduce_to_equivalence_set_dif(&list, st(t), &e))), //opt
                    ("parallel", Kit::quiet(|| reduce_to_equivalence_par(&list, st(t), &e))), //opt
                ];
                for (name, res) in res {
                    k.count("traces", 1);
                    let got: Option<Vec<r::Quad>> = res.ok().map(|v| v.iter().filter(|x| x.size() == n).filter_map(unquad).map(|q| min(&q)).collect());
                    let nm = format!("reduction-{name} {}", r::tname(t));
                    k.check(got.as_ref().map_or(false, |g| g.len() == want.len() && g.iter().cloned().collect::<BTreeSet<_>>() == want), &nm, || format!("{} n={n}, {} quadruples up to shifts{}: {:?} remain of {} classes", r::tname(t), l.len(), if t == r::T::Wts { " and signs" } else { "" }, got.map(|g| g.len()), want.len()));
                }
            }
        });
    }
    k.done();
}
