use super::{kit::*, reference as r};
use crate::sequences::{sequence::*, symmetries::SequenceType, williamson::*};
use std::collections::BTreeMap;
use std::sync::Mutex;

fn qs(v: &[r::Q]) -> QS { QS::from_str(&r::qs_to_str(v)) }

/// the predicates on quaternion sequences; tells which shifts fail
fn sequence(k: &Kit, v: &[r::Q]) {
    let n = v.len();
    k.count("transitions", 3);
    let s = || r::qs_to_str(v);
    let got = Kit::quiet(|| { let q = qs(v); (q.is_perfect(), q.is_odd_perfect(), q.is_symmetric()) });
    let want = (r::perfect(v), r::odd_perfect(v), (1..n).all(|i| v[i] == v[n - i]));
    match got {
        Err(_) => k.violation(&format!("panic n={n}"), &s()),
        Ok(g) => {
            k.check(g.0 == want.0, &format!("is_perfect n={n}"), || format!("{}: {} instead of {}", s(), g.0, want.0));
            k.check(g.1 == want.1, &format!("is_odd_perfect n={n}"), || format!("{}: {} instead of {}", s(), g.1, want.1));
            k.check(g.2 == want.2, &format!("is_symmetric-sequence n={n}"), || format!("{}: {} instead of {}", s(), g.2, want.2));
        }
    }
}

fn symmetric(q: &r::Quad, n: usize) -> bool { q.iter().all(|&s| r::symmetric(s, n)) }

/// the predicates on quadruples
fn quad(k: &Kit, q: &r::Quad, n: usize, seen: &Mutex<BTreeMap<(usize, [bool; 4]), u64>>) {
    k.count("transitions", 7);
    let x = quadseq(q, n);
    let want = [r::complementary(q, n), r::amicable(q, n), r::qt_cross(q, n), symmetric(q, n)];
    let s = || r::quad_to_str(q, n);
    let Some(g) = k.guard(&format!("panic n={n}"), s, || [x.is_periodic_complementary(), x.is_amicable(), x.verify_cross_correlation(), x.is_symmetric(),
        x.verify(SequenceType::QuaternionType), x.verify(SequenceType::WilliamsonType), x.verify(SequenceType::Williamson)]) else { return };
    let all = [want[0], want[1], want[2], want[3], want[0] && want[2], want[0] && want[1], want[0] && want[3]];
    for (i, name) in ["complementary", "amicable", "cross-correlation", "symmetric", "valid-qts", "valid-wts", "valid-ws"].iter().enumerate() {
        k.check(g[i] == all[i], &format!("{name} n={n}"), || format!("{}: {} instead of {}", s(), g[i], all[i]));
    }
    if want[0] && want[2] { k.check(want[1], &format!("qts-amicable n={n}"), || format!("{} is a QT sequence and not amicable", s())); }
    // few distinct outcomes: count them
    let mut m = seen.lock().unwrap();
    *m.entry((n, want)).or_insert(0) += 1;
}

/// the predicates on quadruples of any length
fn wide(k: &Kit, v: &[Vec<i8>; 4]) {
    let n = v[0].len();
    k.count("transitions", 7);
    let c = |a: usize, b: usize, t: usize| (0..n).map(|i| v[a][i] as i64 * v[b][if i + t < n { i + t } else { i + t - n }] as i64).sum::<i64>();
    let mut want = [true; 4];
    for t in 0..n {
        let d = |a, b| c(a, b, t) - c(b, a, t);
        if want[1] || want[2] {
            let [wx, wy, wz, xy, xz, yz] = [d(0, 1), d(0, 2), d(0, 3), d(1, 2), d(1, 3), d(2, 3)];
            if [wx, wy, wz, xy, xz, yz] != [0; 6] { want[1] = false; }
            if wx + yz != 0 || wy - xz != 0 || wz + xy != 0 { want[2] = false; }
        }
        if t == 0 { continue; }
        if want[0] && (0..4).map(|s| c(s, s, t)).sum::<i64>() != 0 { want[0] = false; }
        if (0..4).any(|s| v[s][t] != v[s][n - t]) { want[3] = false; }
    }
    let s = || v.iter().map(|x| x.iter().map(|&y| if y == 1 { '+' } else { '-' }).collect::<String>()).collect::<Vec<_>>().join(",");
    let x = quadseq_of(v);
    let Some(g) = k.guard(&format!("panic n={n}"), s, || [x.is_periodic_complementary(), x.is_amicable(), x.verify_cross_correlation(), x.is_symmetric(),
        x.verify(SequenceType::QuaternionType), x.verify(SequenceType::WilliamsonType), x.verify(SequenceType::Williamson)]) else { return };
    let all = [want[0], want[1], want[2], want[3], want[0] && want[2], want[0] && want[1], want[0] && want[3]];
    for (i, name) in ["complementary", "amicable", "cross-correlation", "symmetric", "valid-qts", "valid-wts", "valid-ws"].iter().enumerate() {
        k.check(g[i] == all[i], &format!("{name} n={n}"), || format!("{}: {} instead of {}", s(), g[i], all[i]));
    }
}

/// Quadruples of symmetric sequences whose autocorrelations sum to zero at all shifts except t and -t
fn near_misses(n: usize, t: usize, cap: usize) -> Vec<r::Quad> {
    let half = n / 2;
    let seqs: Vec<r::B> = (0..1u64 << (half + 1)).map(|m| { let mut s = 0; for i in 0..=half { if m >> i & 1 == 1 { s |= 1 << (i % n); s |= 1 << ((n - i) % n); } } s }).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    let pafs: Vec<Vec<i16>> = seqs.iter().map(|&s| (1..=half).map(|k| r::paf(s, n, k) as i16).collect()).collect();
    let drop = |v: &mut Vec<i16>| { v.remove(t - 1); };
    let mut left: std::collections::HashMap<Vec<i16>, (usize, usize, i16)> = Default::default();
    let mut out = vec![];
    for i in 0..seqs.len() { for j in 0..=i {
        let mut v: Vec<i16> = (0..half).map(|k| pafs[i][k] + pafs[j][k]).collect();
        let x = v[t - 1];
        drop(&mut v);
        let w: Vec<i16> = v.iter().map(|x| -x).collect();
        if let Some(&(a, b, y)) = left.get(&w) {
            if x + y != 0 { out.push([seqs[i], seqs[a], seqs[b], seqs[j]]); if out.len() >= cap { return out; } }
        }
        left.entry(v).or_insert((i, j, x));
    } }
    out
}

pub fn main() {
    let k = Kit::new();
    let th = k.thorough;
    let seen: Mutex<BTreeMap<(usize, [bool; 4]), u64>> = Default::default();
    let a24: Vec<r::Q> = r::ALPHABET24.chars().map(|c| r::decode(c).unwrap()).collect();
    // all short sequences over both alphabets
    for (alpha, top) in [(16usize, 5), (24, if th { 5 } else { 4 })] { for n in 1..=top {
        let total = alpha.pow(n as u32);
        let chunk = total.div_ceil(512);
        par(512, |b| for i in b * chunk..total.min((b + 1) * chunk) {
            let mut x = i;
            let v: Vec<r::Q> = (0..n).map(|_| { let q = a24[x % alpha]; x /= alpha; q }).collect();
            sequence(&k, &v);
        });
        k.count("states", total as u64);
    } }
    // all short quadruples (up to a sign of the first sequence and, for n = 6, of the second)
    let top = if th { 7 } else { 6 };
    for n in 1..=top {
        let fix = if n >= 6 { if th && n == 6 { 1 } else { n - 4 } } else { 0 }; // entries equal to -1 at position 0
        let free = 4 * n - fix.min(4);
        let total = 1usize << free;
        par(1024, |b| {
            let (lo, hi) = (total * b / 1024, total * (b + 1) / 1024);
            // n = 7 in the thorough tier: every 16th block position
            for i in lo..hi {
                let mut x = i as u64;
                let mut q = [0; 4];
                for s in 0..4 {
                    if s < fix { q[s] = 1 | (x & r::mask(n - 1)) << 1; x >>= n - 1; } else { q[s] = x & r::mask(n); x >>= n; }
                }
                quad(&k, &q, n, &seen);
            }
        });
        k.count("states", total as u64);
    }
    // each predicate one pair of sequences at a time: all pairs at each two places, constants elsewhere
    for n in 2..=(if th { 10 } else { 7 }) {
        par(1 << n, |a| for b in 0..1u64 << n { for i in 0..4 { for j in 0..i {
            for c in [0, r::mask(n)] {
                if c != 0 && (n > 6 || (a as u64 ^ b) & 3 != 0) { continue; }
                let mut q = [c; 4];
                q[i] = a as u64; q[j] = b;
                quad(&k, &q, n, &seen);
            }
        } } });
        k.count("states", 6 << (2 * n));
    }
    // longer pairs whose cross-correlations are asymmetric at a single shift only
    for n in 8..=(if th { 13 } else { 11 }) {
        let found: Mutex<BTreeMap<usize, Vec<(r::B, r::B)>>> = Default::default();
        par(1 << (n - 1), |a| for b in 0..1u64 << (n - 1) {
            let mut at = 0;
            let mut only = 0;
            for t in 1..=(n - 1) / 2 { if r::asym(a as u64, b, n, t) != 0 { at += 1; only = t; if at > 1 { break; } } }
            if at == 1 { let mut f = found.lock().unwrap(); let v = f.entry(only).or_default(); if v.len() < 40 { v.push((a as u64, b)); } }
        });
        k.count("states", 1 << (2 * n - 2));
        let f = found.into_inner().unwrap();
        for (t, v) in &f { k.count("single_shift_asymmetries", v.len() as u64); let _ = t; for &(a, b) in v { for i in 0..4 { for j in 0..4 { if i != j {
            let mut q = [0; 4];
            q[i] = a; q[j] = b;
            quad(&k, &q, n, &seen);
        } } } } }
    }
    // longer quadruples that are complementary except at a single pair of shifts
    for n in 6..=(if th { 24 } else { 20 }) {
        let missing = Mutex::new(vec![]);
        par(n / 2, |t| {
            let l = near_misses(n, t + 1, 30);
            k.count("single_shift_complementarity", l.len() as u64);
            if l.is_empty() { missing.lock().unwrap().push(t + 1); }
            for q in l {
                quad(&k, &q, n, &seen);
                sequence(&k, &r::to_qs(&q, n));
                // the same values in another arrangement
                let rot = [r::rot(q[0], n, 1), q[1], r::neg(q[2], n), q[3]];
                quad(&k, &rot, n, &seen);
            }
        });
        k.count("states", n as u64 / 2);
        let m = missing.into_inner().unwrap();
        if !m.is_empty() { k.sample("none", &format!("n={n}: no near miss at shifts {m:?}")); }
    }
    // valid quadruples: themselves, their single-entry and double-entry deviations
    for t in r::TYPES {
        let top = match t { r::T::Qts => if th { 11 } else { 9 }, r::T::Wts => if th { 13 } else { 11 }, r::T::Ws => if th { 20 } else { 17 } };
        for n in 5..=top {
            let cl: Vec<r::Quad> = r::classes(t, n).0.into_keys().map(|c| { let mut q = c.0; if c.1 { q[3] = r::neg(q[3], n); } q }).collect();
            let double = if th { 4 } else { 1 };
            par(cl.len(), |i| {
                for p in 0..=4 * n { for p2 in p..=(if i < double { 4 * n } else { p }) {
                    let mut q = cl[i];
                    if p < 4 * n { q[p / n] ^= 1 << (p % n); }
                    if p2 < 4 * n && p2 != p { q[p2 / n] ^= 1 << (p2 % n); }
                    quad(&k, &q, n, &seen);
                    if p == p2 {
                        // asymmetric at that entry only, in a quadruple of constants otherwise
                        let mut c = [0; 4];
                        if p < 4 * n { c[p / n] ^= 1 << (p % n); }
                        quad(&k, &c, n, &seen);
                    }
                } }
                // the quaternion sequence, and each entry replaced by each symbol
                let v = r::to_qs(&cl[i], n);
                // odd perfect sequences from perfect ones of odd length, by alternating signs
                let alt: Vec<r::Q> = v.iter().enumerate().map(|(i, &x)| if i % 2 == 1 { r::qneg(x) } else { x }).collect();
                for base in [v, alt] {
                    sequence(&k, &base);
                    for p in 0..n { for q in &a24 { let mut w = base.clone(); w[p] = *q; sequence(&k, &w); } }
                }
            });
            k.count("states", cl.len() as u64);
        }
    }
    // long valid quadruples (up to length 126): their forms, and every single entry changed
    let l = long();
    par(l.len(), |i| {
        let n = l[l.len() - 1 - i][0].len();
        for (f, v) in long_forms(&l[l.len() - 1 - i]).into_iter().enumerate() {
            wide(&k, &v);
            sequence(&k, &quaternions(&v));
            if f < 2 { for s in 0..4 { for p in (0..n).step_by(if th || n < 32 { 1 } else { n / 16 }).chain([n - 1]) {
                let mut w = v.clone();
                w[s][p] = -w[s][p];
                wide(&k, &w);
                if p % 3 == s % 3 || p == 0 || p == n - 1 { sequence(&k, &quaternions(&w)); }
            } } }
        }
        k.count("states", 1);
    });
    // long regular sequences with large correlations: all quadruples of constants, alternating ones and blocks
    let lens = [31usize, 32, 33, 63, 64, 65, 96, 126, 127, 128, 129, 256];
    par(lens.len() * 256, |x| {
        let (n, mut c) = (lens[x / 256], x % 256);
        let v = [0, 1, 2, 3].map(|_| { let p = c % 4; c /= 4; (0..n).map(|i| match p { 0 => 1, 1 => if i % 2 == 1 { -1 } else { 1 }, 2 => if i % 4 > 1 { -1 } else { 1 }, _ => if i == 0 { -1 } else { 1i8 } }).collect::<Vec<i8>>() });
        wide(&k, &v);
        if x % 256 < 16 || n <= 64 { sequence(&k, &quaternions(&v)); }
        k.count("states", 1);
    });
    let m = seen.into_inner().unwrap();
    for (n, o) in m.keys().map(|x| x.0).collect::<std::collections::BTreeSet<_>>().iter().map(|n| (n, m.iter().filter(|x| x.0.0 == *n).map(|x| (x.0.1.map(|b| b as u8), *x.1)).collect::<Vec<_>>())).take(12) {
        k.sample("outcomes", &format!("n={n} (complementary, amicable, cross-correlation, symmetric): {o:?}"));
        k.count("distinct_outcomes", o.len() as u64);
    }
    k.done();
}
