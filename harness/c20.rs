// C20: products of sequences and of matrix sequences.
use super::{kit::*, reference as r};
use crate::sequences::{matrices::QHM, product::*, sequence::QS};
include!("ops.rs");

fn show(v: &[r::Q]) -> String { r::qs_to_str(v) }
fn values(s: &QS) -> Option<Vec<r::Q>> { s.values().iter().map(|x| { let mut o = [0; 4]; for (c, v) in [x.s, x.v.x, x.v.y, x.v.z].into_iter().enumerate() { let d = v * 2.0; if d.fract() != 0.0 { return None; } o[c] = d as i64; } Some(o) }).collect() }

fn product(k: &Kit, a: &[r::Q], b: &[r::Q], qa: &QS, qb: &QS, perfect: bool) {
    let (p, q) = (a.len(), b.len());
    let key = |s: &str| format!("{s} {p}x{q}");
    let name = || format!("{} and {}", show(a), show(b));
    k.count("transitions", 1);
    let Some(x) = k.guard(&key("panic"), name, || sequence_product(qa, qb)) else { return };
    let want: Vec<r::Q> = (0..p * q).map(|i| r::qmul(a[i % p], b[i % q])).collect();
    let got = values(&x);
    if !k.check(x.size() == p * q && got.as_ref() == Some(&want), &key("product"), || format!("the product of {} is {:?} of length {}", name(), got.as_ref().map(|v| v.iter().map(|q| r::encode(*q).unwrap_or('?')).collect::<String>()), x.size())) { return; }
    if perfect {
        k.check(r::perfect(&want), &key("reference"), || name());
        let ok = Kit::quiet(|| x.is_perfect());
        k.check(ok == Ok(true), &key("perfect"), || format!("the product of {} is said not to be perfect", name()));
        let t = Kit::quiet(|| x.to_string_raw());
        k.check(t.as_deref() == Ok(show(&want).as_str()), &key("text"), || format!("the product of {} is written {t:?}", name()));
    }
}

/// numbers as matrices
fn id1(n: usize) -> Vec<Mx> { (0..n).map(|i| vec![vec![(i as f64 % 61.0, (i % 7) as f64 - 3.0)]]).collect() }

pub fn main() {
    let k = Kit::new();
    let th = k.thorough;
    let a24: Vec<r::Q> = r::ALPHABET24.chars().map(|c| r::decode(c).unwrap()).collect();
    let words = |n: usize, al: usize| -> Vec<Vec<r::Q>> { (0..al.pow(n as u32)).map(|mut x| (0..n).map(|_| { let q = a24[x % al]; x /= al; q }).collect()).collect() };
    let qs = |v: &Vec<r::Q>| QS::from_str(&show(v));
    // the entries, for all short sequences of coprime lengths, perfect or not
    for (p, q, al) in [(1usize, 1usize, 24usize), (1, 2, 24), (2, 1, 24), (1, 3, 16), (3, 1, 16), (2, 3, 6), (3, 2, 6), (1, 4, 8), (4, 1, 8), (3, 4, 2), (4, 3, 2), (2, 5, 2), (5, 2, 2)] {
        let (al, bl) = (words(p, al), words(q, al));
        let (aq, bq): (Vec<QS>, Vec<QS>) = (al.iter().map(qs).collect(), bl.iter().map(qs).collect());
        par(al.len(), |i| for j in 0..bl.len() { product(&k, &al[i], &bl[j], &aq[i], &bq[j], r::perfect(&al[i]) && r::perfect(&bl[j])); });
        k.count("states", (al.len() * bl.len()) as u64);
    }
    // perfect sequences: all that start with 1 of short lengths, times units on both sides; the classes of longer ones
    let mut perf: Vec<Vec<Vec<r::Q>>> = vec![vec![]];
    for n in 1..=(if th { 13 } else { 12usize }) {
        let mut v: Vec<Vec<r::Q>> = if n <= 3 { words(n, 24).into_iter().filter(|v| r::perfect(v)).collect() } else if n == 4 { words(n, 16).into_iter().filter(|v| v[0] == r::ONE && r::perfect(v)).collect() } else { vec![] };
        for t in [r::T::Wts, r::T::Ws] { for c in r::classes(t, n).0.keys() { let mut q = c.0; if c.1 { q[3] = r::neg(q[3], n); }
            let s = r::to_qs(&q, n);
            for (i, (l, g)) in [(r::ONE, r::ONE), (a24[16], r::ONE), (r::ONE, a24[9]), (a24[21], a24[13]), (a24[5], a24[19])].into_iter().enumerate() {
                let mut w: Vec<r::Q> = s.iter().map(|&x| r::qmul(l, r::qmul(x, g))).collect();
                w.rotate_left(i % n);
                v.push(w);
            }
        } }
        if n > 2 && !th { let m = (v.len() / 1500).max(1); if m > 1 { v = v.into_iter().enumerate().filter(|x| x.0 % m == 0).map(|x| x.1).collect(); } }
        k.check(v.iter().all(|s| r::perfect(s)), "reference", || format!("length {n}"));
        perf.push(v);
    }
    for p in 1..perf.len() { for q in 1..perf.len() {
        if r::gcd(p, q) != 1 || p * q > 160 { continue; }
        let (aq, bq): (Vec<QS>, Vec<QS>) = (perf[p].iter().map(qs).collect(), perf[q].iter().map(qs).collect());
        par(aq.len(), |i| for j in 0..bq.len() { product(&k, &perf[p][i], &perf[q][j], &aq[i], &bq[j], true); });
        k.count("states", (aq.len() * bq.len()) as u64);
        if p > 4 && q > 4 && !aq.is_empty() && !bq.is_empty() { k.sample("products of perfect sequences", &format!("lengths {p} and {q}: {} pairs", aq.len() * bq.len())); }
    } }
    // products of long perfect sequences, with short ones and with each other
    let l: Vec<Vec<r::Q>> = long().iter().map(|v| quaternions(v)).collect();
    let short: Vec<Vec<r::Q>> = (2..=7).flat_map(|n| perf[n].iter().take(2).cloned()).collect();
    par(l.len(), |i| {
        let a = &l[l.len() - 1 - i];
        let qa = qs(a);
        for b in short.iter().chain(&l) {
            let m = a.len() * b.len();
            if r::gcd(a.len(), b.len()) != 1 || m > if th { 2500 } else { 900 } { continue; }
            let qb = qs(b);
            product(&k, a, b, &qa, &qb, true);
            product(&k, b, a, &qb, &qa, true);
            k.count("states", 2);
        }
    });
    // long sequences, perfect or not: more elements than 16 bits count, very different lengths
    let some = |n: usize, m: usize| -> Vec<r::Q> { (0..n).map(|i| a24[(i * i / 3 + m * i + i / 7) % 24]).collect() };
    let lens: Vec<(usize, usize)> = if th { vec![(255, 256), (256, 257), (301, 400), (1, 70000), (65537, 3), (1023, 1025)] } else { vec![(255, 256), (256, 257), (301, 400), (1, 70000), (65537, 3)] };
    par(lens.len() * 2, |i| {
        let (p, q) = if i % 2 == 0 { lens[i / 2] } else { (lens[i / 2].1, lens[i / 2].0) };
        let (a, b) = (some(p, 5), some(q, 11));
        product(&k, &a, &b, &qs(&a), &qs(&b), false);
        k.count("states", 1);
        let (x, y) = (id1(p), id1(q));
        if p.min(q) > 1 { mums(&k, &format!("{p}x{q}, numbers"), 1, &x, 1, &y); }
    });
    // products of three
    for (p, q, s) in [(2usize, 3usize, 5usize), (3, 2, 5), (5, 3, 2), (3, 4, 5), (2, 3, 7), (3, 5, 7)] { if perf.len() > s {
        for a in perf[p].iter().take(6) { for b in perf[q].iter().take(6) { for c in perf[s].iter().take(4) {
            let Some(x) = k.guard("panic-three", || show(a), || { let ab = sequence_product(&qs(a), &qs(b)); (sequence_product(&ab, &qs(c)), sequence_product(&qs(a), &sequence_product(&qs(b), &qs(c)))) }) else { continue };
            let want: Vec<r::Q> = (0..p * q * s).map(|i| r::qmul(r::qmul(a[i % p], b[i % q]), c[i % s])).collect();
            k.check(values(&x.0).as_ref() == Some(&want) && values(&x.1).as_ref() == Some(&want), &format!("three {p}x{q}x{s}"), || format!("the product of {}, {} and {}", show(a), show(b), show(c)));
            k.count("transitions", 4);
        } } }
    } }
    // products of sequences of operators: every small matrix with distinguishable entries, and those of quaternionic matrices
    let id = |n: usize, m: usize, s: f64| -> Vec<Mx> { (0..n).map(|i| (0..m).map(|a| (0..m).map(|b| ((i * m * m + a * m + b + 1) as f64 * s, (a as f64 - b as f64) * (i + 1) as f64)).collect()).collect()).collect() };
    for p in 1..=5usize { for q in 1..=5usize { if r::gcd(p, q) != 1 { continue; } for a in 1..=3usize { for b in 1..=3usize {
        let (x, y) = (id(p, a, 1.0), id(q, b, 0.5));
        mums(&k, &format!("{p}x{q} of dimensions {a} and {b}"), a, &x, b, &y);
    } } } }
    for p in 2..=4usize { for q in 2..=5usize { if r::gcd(p, q) != 1 || perf[p].is_empty() || perf[q].is_empty() { continue; } for i in 0..3 { for j in 0..3 {
        let m = |v: &Vec<r::Q>| MUM::from_qhm(&QHM::from_pqs(qs(v)).dephased());
        let (u, v) = (&perf[p][i * perf[p].len() / 3], &perf[q][j * perf[q].len() / 3]);
        let (x, y) = (m(u), m(v));
        let name = || format!("{} and {}", show(u), show(v));
        let Some(z) = k.guard("mum-panic", name, || mum_product(&x, &y)) else { continue };
        compare(&k, &name(), &x, &y, &z);
    } } } }
    k.done();
}
fn mums(k: &Kit, name: &str, a: usize, x: &[Mx], b: usize, y: &[Mx]) {
    let (x, y) = (MUM::new(a, &x.iter().map(operator).collect()), MUM::new(b, &y.iter().map(operator).collect()));
    let Some(z) = k.guard("mum-panic", || name.to_string(), || mum_product(&x, &y)) else { return };
    compare(k, name, &x, &y, &z);
}
fn compare(k: &Kit, name: &str, x: &MUM, y: &MUM, z: &MUM) {
    let (p, q) = (x.length(), y.length());
    k.count("transitions", 1);
    k.count("states", (p * q) as u64);
    let key = format!("mum {p}x{q}");
    k.check(z.length() == p * q && z.matrix_size() == x.matrix_size() * y.matrix_size(), &key, || format!("the product of {name} has length {} and dimension {}", z.length(), z.matrix_size()));
    let e = |m: &MUM| -> Vec<Option<Mx>> { m.values().iter().map(entries).collect() };
    let (ex, ey, ez) = (e(x), e(y), e(z));
    for (i, m) in ez.iter().enumerate() {
        let want = mtensor(ex[i % p].as_ref().unwrap(), ey[i % q].as_ref().unwrap());
        if !k.check(m.as_ref() == Some(&want), &key, || format!("position {i} of the product of {name} is {m:?}, expected {want:?}")) { break; }
    }
}
