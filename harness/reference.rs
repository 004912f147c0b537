// Reference definitions, written from the README and the definitions of the sequences, without
// using any code of the program. A sequence of +-1 of length n is a bitmask (bit i set <=> entry i is -1).
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub type B = u64;
pub type Quad = [B; 4];

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum T { Qts, Wts, Ws }
pub const TYPES: [T; 3] = [T::Qts, T::Wts, T::Ws];
pub fn tname(t: T) -> &'static str { match t { T::Qts => "qts", T::Wts => "wts", T::Ws => "ws" } }
pub fn tparse(s: &str) -> T { match s { "qts" => T::Qts, "wts" => T::Wts, "ws" => T::Ws, _ => panic!("type {s}") } }

pub fn mask(n: usize) -> B { if n >= 64 { !0 } else { (1 << n) - 1 } }
pub fn at(s: B, i: usize) -> i32 { 1 - 2 * ((s >> i) & 1) as i32 }
/// r(i) = s(i + t)
pub fn rot(s: B, n: usize, t: usize) -> B {
    let t = t % n;
    if t == 0 { s } else { ((s >> t) | (s << (n - t))) & mask(n) }
}
pub fn neg(s: B, n: usize) -> B { !s & mask(n) }
/// r(i) = s(k i)
pub fn aut(s: B, n: usize, k: usize) -> B { let mut r = 0; for i in 0..n { r |= ((s >> (i * k % n)) & 1) << i; } r }
/// negates the entries of odd index
pub fn alt(s: B, n: usize) -> B { (s ^ 0xAAAA_AAAA_AAAA_AAAA) & mask(n) }
pub fn rowsum(s: B, n: usize) -> i32 { n as i32 - 2 * (s & mask(n)).count_ones() as i32 }
/// sum over i of a(i) b(i + t)
pub fn pcf(a: B, b: B, n: usize, t: usize) -> i32 { n as i32 - 2 * (a ^ rot(b, n, t)).count_ones() as i32 }
pub fn paf(a: B, n: usize, t: usize) -> i32 { pcf(a, a, n, t) }
/// antisymmetric part of the cross-correlation
pub fn asym(a: B, b: B, n: usize, t: usize) -> i32 { pcf(a, b, n, t) - pcf(b, a, n, t) }

pub fn symmetric(s: B, n: usize) -> bool { (1..n).all(|i| at(s, i) == at(s, n - i)) }
pub fn complementary(q: &Quad, n: usize) -> bool { (1..n).all(|t| q.iter().map(|&s| paf(s, n, t)).sum::<i32>() == 0) }
pub fn amicable2(a: B, b: B, n: usize) -> bool { (1..n).all(|t| asym(a, b, n, t) == 0) }
pub fn amicable(q: &Quad, n: usize) -> bool { (0..4).all(|i| (0..i).all(|j| amicable2(q[i], q[j], n))) }

// Quaternions with doubled integer coordinates (1, i, j, k)
pub type Q = [i64; 4];
pub fn qmul(u: Q, v: Q) -> Q {
    // product of the halves, doubled: (u/2)(v/2) = (uv/2)/2; the 24 units and their products stay integral
    let w = qmul_raw(u, v);
    debug_assert!(w.iter().all(|x| x % 2 == 0));
    [w[0] / 2, w[1] / 2, w[2] / 2, w[3] / 2]
}
/// the product of the doubled coordinates (four times the product)
pub fn qmul_raw(u: Q, v: Q) -> Q {
    [u[0] * v[0] - u[1] * v[1] - u[2] * v[2] - u[3] * v[3],
     u[0] * v[1] + u[1] * v[0] + u[2] * v[3] - u[3] * v[2],
     u[0] * v[2] - u[1] * v[3] + u[2] * v[0] + u[3] * v[1],
     u[0] * v[3] + u[1] * v[2] - u[2] * v[1] + u[3] * v[0]]
}
pub fn qconj(u: Q) -> Q { [u[0], -u[1], -u[2], -u[3]] }
pub fn qneg(u: Q) -> Q { [-u[0], -u[1], -u[2], -u[3]] }
pub const ONE: Q = [2, 0, 0, 0];
pub const QI: Q = [0, 2, 0, 0];
pub const QJ: Q = [0, 0, 2, 0];
pub const QK: Q = [0, 0, 0, 2];
pub const QQ: Q = [1, 1, 1, 1];

/// The table of the README (16 symbols), extended to the 24 units: s = (1-i-j-k)/2, u = si, v = sj, w = sk
pub fn decode(c: char) -> Option<Q> {
    let s: Q = [1, -1, -1, -1];
    Some(match c {
        '+' => ONE, '-' => qneg(ONE),
        'i' => QI, 'I' => qneg(QI), 'j' => QJ, 'J' => qneg(QJ), 'k' => QK, 'K' => qneg(QK),
        'q' => QQ, 'Q' => qneg(QQ),
        'x' => qmul(QQ, QI), 'X' => qneg(qmul(QQ, QI)),
        'y' => qmul(QQ, QJ), 'Y' => qneg(qmul(QQ, QJ)),
        'z' => qmul(QQ, QK), 'Z' => qneg(qmul(QQ, QK)),
        's' => s, 'S' => qneg(s),
        'u' => qmul(s, QI), 'U' => qneg(qmul(s, QI)),
        'v' => qmul(s, QJ), 'V' => qneg(qmul(s, QJ)),
        'w' => qmul(s, QK), 'W' => qneg(qmul(s, QK)),
        _ => return None,
    })
}
pub const ALPHABET16: &str = "+-iIjJkKqQxXyYzZ";
pub const ALPHABET24: &str = "+-iIjJkKqQxXyYzZsSuUvVwW";
pub fn encode(q: Q) -> Option<char> { ALPHABET24.chars().find(|&c| decode(c) == Some(q)) }

/// The quaternion of a quadruple: ((-1+i+j+k)/2) (a+bi+cj+dk)/2
pub fn quad_to_q(v: [i32; 4]) -> Q { qmul([-1, 1, 1, 1], [v[0] as i64, v[1] as i64, v[2] as i64, v[3] as i64]) }
pub fn q_to_quad(q: Q) -> Option<[i32; 4]> {
    (0..16).map(|m| [at(m, 0), at(m, 1), at(m, 2), at(m, 3)]).find(|&v| quad_to_q(v) == q)
}
pub fn to_qs(q: &Quad, n: usize) -> Vec<Q> { (0..n).map(|i| quad_to_q([at(q[0], i), at(q[1], i), at(q[2], i), at(q[3], i)])).collect() }
pub fn from_qs(v: &[Q]) -> Option<Quad> {
    let mut r = [0; 4];
    for (i, &q) in v.iter().enumerate() {
        let e = q_to_quad(q)?;
        for s in 0..4 { if e[s] < 0 { r[s] |= 1 << i; } }
    }
    Some(r)
}
pub fn qs_from_str(s: &str) -> Option<Vec<Q>> { s.chars().map(decode).collect() }
pub fn qs_to_str(v: &[Q]) -> String { v.iter().map(|&q| encode(q).unwrap()).collect() }
/// sum over i of v(i) conj(v(i + t)), doubled coordinates times two
pub fn qautocorr(v: &[Q], t: usize, odd: bool) -> Q {
    let n = v.len();
    let mut r = [0; 4];
    for i in 0..n {
        let s = if odd && i + t >= n { -1 } else { 1 };
        let p = qmul_raw(v[i], qconj(v[(i + t) % n]));
        for k in 0..4 { r[k] += s * p[k]; }
    }
    r
}
pub fn perfect(v: &[Q]) -> bool { (1..v.len()).all(|t| qautocorr(v, t, false) == [0; 4]) }
pub fn odd_perfect(v: &[Q]) -> bool { (1..v.len()).all(|t| qautocorr(v, t, true) == [0; 4]) }

/// The cross-correlation condition of QT sequences
pub fn qt_cross(q: &Quad, n: usize) -> bool {
    let [a, b, c, d] = *q;
    (0..n).all(|t| asym(a, b, n, t) + asym(c, d, n, t) == 0
        && asym(a, c, n, t) + asym(d, b, n, t) == 0
        && asym(a, d, n, t) + asym(b, c, n, t) == 0)
}

pub fn valid(t: T, q: &Quad, n: usize) -> bool {
    match t {
        T::Qts => perfect(&to_qs(q, n)),
        T::Wts => complementary(q, n) && amicable(q, n),
        T::Ws => complementary(q, n) && q.iter().all(|&s| symmetric(s, n)),
    }
}

pub fn gcd(a: usize, b: usize) -> usize { if b == 0 { a } else { gcd(b, a % b) } }
pub fn units(n: usize) -> Vec<usize> { (1..=n).filter(|&k| gcd(k, n) == 1).collect() }

// ---- equivalence -------------------------------------------------------------------------

/// Complete invariant under the "static" part of the group: signed permutations of the four sequences,
/// all of them for wts and ws, those whose sign times the product of the signs is +1 for qts.
/// Returns the sorted sequences with first entry -1 and (qts) the remaining sign, which is immaterial
/// when two of them are equal (swap them).
pub fn static_key(t: T, q: &Quad, n: usize) -> (Quad, bool) {
    let mut parity = false;
    let mut r = *q;
    for s in r.iter_mut() { if *s & 1 == 0 { *s = neg(*s, n); parity = !parity; } }
    // insertion sort, counting swaps
    for i in 1..4 { let mut j = i; while j > 0 && r[j] < r[j - 1] { r.swap(j, j - 1); parity = !parity; j -= 1; } }
    if t != T::Qts || r[0] == r[1] || r[1] == r[2] || r[2] == r[3] { parity = false; }
    (r, parity)
}

pub type Canon = (Quad, bool);

/// Complete invariant of the equivalence class of a quadruple
pub fn canon(t: T, q: &Quad, n: usize) -> Canon {
    let mut best: Option<Canon> = None;
    let even = n % 2 == 0;
    let shifts: Vec<usize> = if t == T::Ws { vec![0] } else { (0..n).collect() };
    for &k in &units(n) {
        let qk = q.map(|s| aut(s, n, k));
        for &sh in &shifts {
            let qs = qk.map(|s| rot(s, n, sh));
            for an in 0..(if even { 2 } else { 1 }) {
                let qa = if an == 1 { qs.map(|s| alt(s, n)) } else { qs };
                if t == T::Qts {
                    for hs in 0..16u32 {
                        if hs != 0 && (!even || hs.count_ones() % 2 == 1) { continue; }
                        let mut x = qa;
                        for i in 0..4 { if hs >> i & 1 == 1 { x[i] = rot(x[i], n, n / 2); } }
                        let c = static_key(t, &x, n);
                        if best.map_or(true, |b| c < b) { best = Some(c); }
                    }
                } else {
                    // half shifts and signs are free for each sequence: take the smallest of each
                    let x = if even { qa.map(|s| {
                        let f = |s: B| if s & 1 == 0 { neg(s, n) } else { s };
                        f(s).min(f(rot(s, n, n / 2)))
                    }) } else { qa };
                    let c = static_key(t, &x, n);
                    if best.map_or(true, |b| c < b) { best = Some(c); }
                }
            }
        }
    }
    best.unwrap()
}

/// The images of a quadruple under one application of each generator of the documented group
pub fn generators(t: T, n: usize) -> Vec<Box<dyn Fn(&Quad) -> Quad>> {
    let mut g: Vec<Box<dyn Fn(&Quad) -> Quad>> = vec![];
    let even = n % 2 == 0;
    for k in units(n) { if k > 1 { g.push(Box::new(move |q| q.map(|s| aut(s, n, k)))); } }
    if even { g.push(Box::new(move |q| q.map(|s| alt(s, n)))); }
    if t != T::Ws { for sh in 1..n { g.push(Box::new(move |q| q.map(|s| rot(s, n, sh)))); } }
    match t {
        T::Qts => {
            if even { for i in 0..4 { for j in 0..i { g.push(Box::new(move |q| { let mut r = *q; r[i] = rot(r[i], n, n / 2); r[j] = rot(r[j], n, n / 2); r })); } } }
            for i in 0..4 { for j in 0..i { for m in 0..4 { g.push(Box::new(move |q| { let mut r = *q; r[m] = neg(r[m], n); r.swap(i, j); r })); } } }
        }
        _ => {
            for i in 0..4 {
                if even { g.push(Box::new(move |q| { let mut r = *q; r[i] = rot(r[i], n, n / 2); r })); }
                g.push(Box::new(move |q| { let mut r = *q; r[i] = neg(r[i], n); r }));
                for j in 0..i { g.push(Box::new(move |q| { let mut r = *q; r.swap(i, j); r })); }
            }
        }
    }
    g
}

/// The whole equivalence class, by closure (breadth-first search)
pub fn class(t: T, q: &Quad, n: usize) -> HashSet<Quad> { closure(q, &generators(t, n)) }
pub fn closure(q: &Quad, g: &[Box<dyn Fn(&Quad) -> Quad>]) -> HashSet<Quad> {
    let mut seen: HashSet<Quad> = HashSet::new();
    seen.insert(*q);
    let mut todo = vec![*q];
    while let Some(x) = todo.pop() {
        for f in g { let y = f(&x); if seen.insert(y) { todo.push(y); } }
    }
    seen
}

// ---- enumeration -------------------------------------------------------------------------

/// Calls f on every valid quadruple of a normalised form that meets every orbit of the signed
/// permutations (a subgroup of the equivalences of every type): sequences of first entry -1 (except the last
/// one for qts), in increasing order. Meet in the middle on the autocorrelations.
pub fn for_each_normalised(t: T, n: usize, f: &mut dyn FnMut(&Quad)) -> u64 {
    let half = n / 2;
    let seqs: Vec<B> = (0..(1u64 << (n - 1))).map(|m| m << 1 | 1).filter(|&s| t != T::Ws || symmetric(s, n)).collect();
    // shifts of which the correlations are compared: 1..=n/2 is enough since pafs are symmetric
    let pafs: Vec<Vec<i8>> = seqs.iter().map(|&s| (1..=half).map(|k| paf(s, n, k) as i8).collect()).collect();
    // power spectral bound with slack: sum of the psds of a valid quadruple is 4n at each frequency
    let tau = std::f64::consts::TAU;
    let psd: Vec<Vec<f64>> = pafs.iter().map(|p| (0..=half).map(|w| {
        let mut r = n as f64;
        for k in 1..=half { let c = (tau * (w * k) as f64 / n as f64).cos() * p[k - 1] as f64; r += if 2 * k == n { c } else { 2.0 * c }; }
        r
    }).collect()).collect();
    let bound = 4.0 * n as f64 + 1e-3;
    let ok = |i: usize, j: usize| (0..=half).all(|w| psd[i][w] + psd[j][w] <= bound);
    let keep: Vec<usize> = (0..seqs.len()).filter(|&i| psd[i].iter().all(|&x| x <= bound)).collect();
    // left pairs, by key (the key of the right pair is negated)
    let mut left: HashMap<Vec<i16>, Vec<(u32, u32)>> = HashMap::new();
    let cross = |a: B, b: B| -> Vec<i16> { if t == T::Qts { (1..=half).map(|k| asym(a, b, n, k) as i16).collect() } else { vec![] } };
    let mut visited = 0u64;
    let mut pairs: Vec<(u32, u32)> = vec![];
    for (x, &i) in keep.iter().enumerate() { for &j in &keep[x..] {
        visited += 1;
        if !ok(i, j) { continue; }
        if t == T::Wts && !amicable2(seqs[i], seqs[j], n) { continue; }
        pairs.push((i as u32, j as u32));
    } }
    for &(i, j) in &pairs {
        let (i, j) = (i as usize, j as usize);
        let mut key: Vec<i16> = (0..half).map(|k| pafs[i][k] as i16 + pafs[j][k] as i16).collect();
        key.extend(cross(seqs[i], seqs[j]));
        left.entry(key).or_default().push((i as u32, j as u32));
    }
    for &(i, j) in &pairs {
        let (i, j) = (i as usize, j as usize);
        for sign in 0..(if t == T::Qts { 2 } else { 1 }) {
            let d = if sign == 1 { neg(seqs[j], n) } else { seqs[j] };
            let mut key: Vec<i16> = (0..half).map(|k| -(pafs[i][k] as i16 + pafs[j][k] as i16)).collect();
            key.extend(cross(seqs[i], d).into_iter().map(|x| -x));
            if let Some(l) = left.get(&key) {
                for &(a, b) in l {
                    if b as usize > i { continue; }
                    visited += 1;
                    let q = [seqs[a as usize], seqs[b as usize], seqs[i], d];
                    if valid(t, &q, n) { f(&q); }
                }
            }
        }
    }
    visited
}

/// One canonical form per equivalence class, with the number of normalised quadruples met
pub fn classes(t: T, n: usize) -> (BTreeMap<Canon, u64>, u64) {
    let mut r = BTreeMap::new();
    let mut v = 0;
    // the group acts on a lot of normalised quadruples: remember those seen
    let mut known: HashMap<Canon, Canon> = HashMap::new();
    v += for_each_normalised(t, n, &mut |q| {
        let k = static_key(t, q, n);
        let c = *known.entry(k).or_insert_with(|| canon(t, q, n));
        *r.entry(c).or_insert(0) += 1;
    });
    (r, v)
}

/// Every valid quadruple (small n): all of the 2^(4n) quadruples
pub fn all_valid_brute(t: T, n: usize) -> BTreeSet<Quad> {
    let m = mask(n);
    let mut r = BTreeSet::new();
    for x in 0..(1u64 << (4 * n)) {
        let q = [x & m, x >> n & m, x >> (2 * n) & m, x >> (3 * n) & m];
        if valid(t, &q, n) { r.insert(q); }
    }
    r
}

/// Every valid quadruple, from the normalised ones and the signed permutations
pub fn all_valid(t: T, n: usize) -> BTreeSet<Quad> {
    let mut r = BTreeSet::new();
    let perms = permutations4();
    for_each_normalised(t, n, &mut |q| {
        for (p, odd) in &perms { for s in 0..16u32 {
            if t == T::Qts && (*odd != (s.count_ones() % 2 == 1)) { continue; }
            let mut x = [q[p[0]], q[p[1]], q[p[2]], q[p[3]]];
            for i in 0..4 { if s >> i & 1 == 1 { x[i] = neg(x[i], n); } }
            r.insert(x);
        } }
    });
    r
}

/// The permutations of 4 elements, with their parity (true: odd)
pub fn permutations4() -> Vec<([usize; 4], bool)> {
    let mut r = vec![];
    for a in 0..4 { for b in 0..4 { for c in 0..4 { for d in 0..4 {
        let p = [a, b, c, d];
        if (0..4).any(|i| (0..i).any(|j| p[i] == p[j])) { continue; }
        let inv = (0..4).map(|i| (0..i).filter(|&j| p[j] > p[i]).count()).sum::<usize>();
        r.push((p, inv % 2 == 1));
    } } } }
    r
}

/// All quadruples of integers of the parity of n with squares summing to 4n
pub fn rowsum_quads(n: usize) -> Vec<[i64; 4]> {
    let m = 4 * n as i64;
    let r = (m as f64).sqrt() as i64 + 1;
    let par = n as i64 % 2;
    let mut v = vec![];
    let vals: Vec<i64> = (-r..=r).filter(|x| x.rem_euclid(2) == par && x * x <= m).collect();
    for &a in &vals { for &b in &vals {
        if a * a + b * b > m { continue; }
        for &c in &vals {
            let rest = m - a * a - b * b - c * c;
            if rest < 0 { continue; }
            let d = (rest as f64).sqrt().round() as i64;
            if d * d == rest && d % 2 == par { v.push([a, b, c, d]); if d > 0 { v.push([a, b, c, -d]); } }
        }
    } }
    v
}

pub fn vec_to_b(v: &[i8]) -> Option<B> {
    let mut r = 0;
    for (i, &x) in v.iter().enumerate() { match x { 1 => {} -1 => r |= 1 << i, _ => return None } }
    Some(r)
}
pub fn b_to_vec(s: B, n: usize) -> Vec<i8> { (0..n).map(|i| at(s, i) as i8).collect() }
pub fn b_to_str(s: B, n: usize) -> String { (0..n).map(|i| if at(s, i) == 1 { '+' } else { '-' }).collect() }
pub fn quad_to_str(q: &Quad, n: usize) -> String { q.iter().map(|&s| b_to_str(s, n)).collect::<Vec<_>>().join(",") }
