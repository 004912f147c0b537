use super::{kit::*, reference as r};
use crate::sequences::{matrices::*, sequence::QS, symmetries::SequenceType};

type M = Vec<Vec<i8>>;
fn hm(m: &M) -> HM { let mut h = HM::new(m.len()); for i in 0..m.len() { for j in 0..m.len() { h.set_value(i, j, m[i][j]); } } h }
fn un(h: &HM) -> M { (0..h.size()).map(|i| (0..h.size()).map(|j| h.get(i, j)).collect()).collect() }
fn hadamard(m: &M) -> bool { let n = m.len(); (0..n).all(|i| (0..i).all(|j| (0..n).map(|k| m[i][k] as i64 * m[j][k] as i64).sum::<i64>() == 0)) }
fn show(m: &M) -> String { if m.len() > 16 { format!("(order {})", m.len()) } else { m.iter().map(|r| r.iter().map(|&x| if x == 1 { '+' } else { '-' }).collect::<String>()).collect::<Vec<_>>().join("/") } }

fn matrix(k: &Kit, what: &str, m: &M, deep: bool) {
    let n = m.len();
    let key = |s: &str| format!("{s} order={n}");
    let name = || format!("{what} {}", show(m));
    let h = hm(m);
    let want = hadamard(m);
    k.count("transitions", 1);
    if let Some(v) = k.guard(&key("panic"), name, || h.verify()) { k.check(v == want, &key("verify"), || format!("verify of {} is {v}", name())); }
    if !deep { return; }
    k.count("transitions", 3);
    let Some(d) = k.guard(&key("panic"), name, || h.dephased()) else { return };
    let Some(e) = k.guard(&key("panic"), name, || { let mut e = h.clone(); e.dephase(); e }) else { return };
    let norm: M = (0..n).map(|i| (0..n).map(|j| m[i][j] * m[i][0] * m[0][j] * m[0][0]).collect()).collect();
    for (x, s) in [(&d, "dephased"), (&e, "dephase")] {
        let u = un(x);
        k.check(x.size() == n && u.iter().all(|r| r[0] == 1) && u[0].iter().all(|&x| x == 1), &key(s), || format!("{s} of {} does not have ones in the first row and column: {}", name(), show(&u)));
        k.check(u == norm, &key(s), || format!("{s} of {} is {}", name(), show(&u)));
        if want { k.check(hadamard(&u), &key(s), || format!("{s} of {} is not Hadamard", name())); }
    }
    k.check(un(&h) == *m, &key("dephased"), || format!("dephased changes {}", name()));
    let t = Kit::quiet(|| h.to_string());
    let w: String = m.iter().map(|r| format!("| {}|\n", r.iter().map(|&x| if x == 1 { "+ " } else { "- " }).collect::<String>())).collect();
    k.check(t.as_deref() == Ok(&w), &key("text"), || format!("{} is written {t:?}", name()));
    //[opt
    let t = Kit::quiet(|| h.to_string_magma());
    let w = format!("M := Matrix([{}]);", m.iter().map(|r| format!("[{}]", r.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    k.check(t.as_deref() == Ok(&w), &key("magma"), || format!("{} is written {t:?}", name()));
    //]
    for i in 0..n { k.check(Kit::quiet(|| h.row(i)).as_ref() == Ok(&m[i]), &key("row"), || format!("row {i} of {}", name())); } //opt
}

fn qmat(q: &QHM) -> Vec<Vec<Option<r::Q>>> {
    (0..q.size()).map(|i| (0..q.size()).map(|j| { let x = q.get(i, j); let mut o = [0; 4]; for (c, v) in [x.s, x.v.x, x.v.y, x.v.z].into_iter().enumerate() { let d = v * 2.0; if d.fract() != 0.0 { return None; } o[c] = d as i64; } Some(o) }).collect()).collect()
}
fn qhadamard(m: &Vec<Vec<r::Q>>) -> bool {
    let n = m.len();
    (0..n).all(|i| (0..n).all(|j| { let mut s = [0; 4]; for c in 0..n { let p = r::qmul_raw(m[i][c], r::qconj(m[j][c])); for x in 0..4 { s[x] += p[x]; } } s == if i == j { [4 * n as i64, 0, 0, 0] } else { [0; 4] } }))
}

/// the circulant matrix of a quaternion sequence
fn circulant(k: &Kit, v: &[r::Q], deep: bool) {
    let n = v.len();
    let key = |s: &str| format!("{s} n={n}");
    let name = || r::qs_to_str(v);
    k.count("transitions", 1);
    let perfect = r::perfect(v);
    let s = r::qs_to_str(v);
    let Some((m, ok)) = k.guard(&key("panic-qhm"), name, || { let m = QHM::from_pqs(QS::from_str(&s)); let ok = m.verify(); (m, ok) }) else { return };
    k.check(ok == perfect, &key("qhm-verify"), || format!("the circulant matrix of {} is quaternionic Hadamard: {ok}, expected {perfect}", name()));
    if !deep && !perfect { return; }
    let Some(x) = qmat(&m).into_iter().map(|r| r.into_iter().collect::<Option<Vec<_>>>()).collect::<Option<Vec<_>>>() else { k.violation(&key("qhm-entries"), &name()); return };
    k.check(x.len() == n && (0..n).all(|i| (0..n).all(|j| x[i][j] == v[(j + n - i) % n])), &key("circulant"), || format!("{} gives {x:?}", name()));
    let text = Kit::quiet(|| m.to_string());
    let w: String = x.iter().map(|r| format!("| {}|\n", r.iter().map(|&q| format!("{} ", r::encode(q).unwrap())).collect::<String>())).collect();
    k.check(text.as_deref() == Ok(&w), &key("qhm-text"), || format!("{} is written {text:?}", name()));
    //[opt
    for i in 0..n {
        let ok = Kit::quiet(|| m.row(i).len() == n && m.col(i).len() == n && (0..n).all(|j| m.row(i)[j] == m.get(i, j) && m.col(i)[j] == m.get(j, i)));
        k.check(ok == Ok(true), &key("qhm-rows"), || format!("row or column {i} of {}", name()));
    }
    //]
    k.count("transitions", 2);
    let Some(d) = k.guard(&key("panic-qhm"), name, || m.dephased()) else { return };
    let Some(e) = k.guard(&key("panic-qhm"), name, || { let mut e = QHM::from_pqs(QS::from_str(&s)); e.dephase(); e }) else { return };
    k.check(qmat(&d) == qmat(&e), &key("qhm-dephase"), || format!("dephase and dephased of {} differ", name()));
    for (y, nm) in [(&d, "dephased"), (&e, "dephase")] {
        let Some(y) = qmat(y).into_iter().map(|r| r.into_iter().collect::<Option<Vec<_>>>()).collect::<Option<Vec<_>>>() else { k.violation(&key("qhm-dephase"), &name()); continue };
        k.check(y.len() == n && y.iter().all(|r| r[0] == r::ONE) && y[0].iter().all(|&q| q == r::ONE), &key("qhm-dephase"), || format!("{nm} of {} does not have ones in the first row and column", name()));
        // rows multiplied on the left and columns on the right by units: unique up to conjugation by a unit
        let base: Vec<Vec<r::Q>> = (0..n).map(|i| (0..n).map(|j| r::qmul(r::qmul(r::qconj(x[i][0]), x[i][j]), r::qmul(r::qconj(x[0][j]), x[0][0]))).collect()).collect();
        let ok = r::ALPHABET24.chars().map(|c| r::decode(c).unwrap()).any(|u| (0..n).all(|i| (0..n).all(|j| y[i][j] == r::qmul(r::qmul(r::qconj(u), base[i][j]), u))));
        k.check(ok, &key("qhm-dephase"), || format!("{nm} of {} is not the matrix with rows and columns multiplied by units", name()));
        k.check(qhadamard(&y) == perfect, &key("qhm-dephase"), || format!("{nm} of {}: quaternionic Hadamard no longer as before", name()));
        let nc = (1..n).any(|a| (1..n).any(|b| (1..n).any(|c| (1..n).any(|e| r::qmul_raw(y[a][b], y[c][e]) != r::qmul_raw(y[c][e], y[a][b])))));
        //[opt
        let got = Kit::quiet(|| d.contains_non_commuting_elements());
        k.check(got == Ok(nc), &key("non-commuting"), || format!("the normalized matrix of {} has non-commuting entries: {got:?}, expected {nc}", name()));
        //]
        k.check(Kit::quiet(|| d.verify()) == Ok(perfect), &key("qhm-verify"), || format!("the normalized matrix of {} is not verified as expected ({perfect})", name()));
    }
}

/// the block-circulant matrix of a quadruple
fn block(k: &Kit, t: r::T, q: &r::Quad, n: usize, deep: bool) -> Option<M> {
    let key = |s: &str| format!("{s} n={n}");
    let name = || format!("{} {}", r::tname(t), r::quad_to_str(q, n));
    k.count("transitions", 2);
    let h = k.guard(&key("panic-hm"), name, || HM::from_williamson(&quadseq(q, n), SequenceType::QuaternionType))?;
    let m = un(&h);
    let ok = r::complementary(q, n) && r::qt_cross(q, n);
    k.check(m.len() == 4 * n && m.iter().all(|r| r.iter().all(|x| x.abs() == 1)), &key("hm-shape"), || format!("{} gives order {}", name(), m.len()));
    if ok { k.check(hadamard(&m), &key("hadamard"), || format!("the matrix of the valid quadruple {} is not Hadamard", name())); }
    k.check(Kit::quiet(|| h.verify()) == Ok(hadamard(&m)), &key("hm-verify"), || format!("the matrix of {} is not verified correctly", name()));
    let circ = m.len() == 4 * n && (0..4 * n).all(|i| (0..4 * n).all(|j| m[i][j] == m[i / n * n][j / n * n + (j % n + n - i % n) % n]));
    k.check(circ, &key("block-circulant"), || format!("the matrix of {} is not block-circulant", name()));
    let blocks = circ && (0..4).all(|a| (0..4).all(|b| { let f = r::vec_to_b(&m[a * n][b * n..(b + 1) * n]).unwrap(); q.iter().any(|&s| s == f || r::neg(s, n) == f) }));
    k.check(blocks, &key("blocks"), || format!("a block of the matrix of {} is not one of its circulants", name()));
    let back = Kit::quiet(|| h.get_qts());
    k.check(back.as_ref().ok().and_then(unquad) == Some(*q), &key("read-back"), || format!("{} is read back as something else", name()));
    if deep { matrix(k, "the matrix of a quadruple", &m, true); }
    Some(m)
}

/// One quadruple of each class of a length, beyond the stated length the published ones
fn members(t: r::T, n: usize, top: usize) -> Vec<r::Quad> {
    if n > top { return published(t, n); }
    r::classes(t, n).0.into_keys().map(|c| { let mut q = c.0; if c.1 { q[3] = r::neg(q[3], n); } q }).collect()
}

pub fn main() {
    let k = Kit::new();
    let th = k.thorough;
    // all small matrices
    for n in 1..=4usize {
        par(1 << n.min(8), |b| { for x in 0..1u64 << (n * n - n) {
            let z = x << n | b as u64;
            let m: M = (0..n).map(|i| (0..n).map(|j| if z >> (i * n + j) & 1 == 1 { -1 } else { 1 }).collect()).collect();
            matrix(&k, "all", &m, true);
        } });
        k.count("states", 1 << (n * n));
    }
    if th { par(1 << 8, |b| for x in 0..1u64 << 17 { let z = x << 8 | b as u64; let m: M = (0..5).map(|i| (0..5).map(|j| if z >> (i * 5 + j) & 1 == 1 { -1 } else { 1 }).collect()).collect(); matrix(&k, "all", &m, false); }); k.count("states", 1 << 25); }
    // all circulants from sequences of length at most 12 of +-1
    for n in 1..=(if th { 13 } else { 11 }) { par(1 << n, |s| {
        let v = r::b_to_vec(s as u64, n);
        if let Some(h) = k.guard(&format!("panic-circulant n={n}"), || format!("{v:?}"), || HM::from_sequence(&v)) {
            let m = un(&h);
            k.check(m.len() == n && (0..n).all(|i| (0..n).all(|j| m[i][j] == v[(j + n - i) % n])), &format!("hm-circulant n={n}"), || format!("{v:?} gives {}", show(&m)));
            k.count("transitions", 1);
        }
    }); k.count("states", 1 << n); }
    // blocks: every operation, block size and place
    for n in 1..=3usize { for size in n..=n + 2 { for (op, name) in [(OpMat::NONE, "none"), (OpMat::MINUS, "minus"), (OpMat::TRANSPOSE, "transpose"), (OpMat::MINUSTRANSPOSE, "minus transpose")] {
        for ro in 0..=size - n { for co in 0..=size - n { for x in 0..1u64 << (n * n) {
            let b: M = (0..n).map(|i| (0..n).map(|j| if x >> (i * n + j) & 1 == 1 { -1 } else { 1 }).collect()).collect();
            let base: M = (0..size).map(|i| (0..size).map(|j| if (i * i + j) % 3 == 1 { -1 } else { 1 }).collect()).collect();
            let got = Kit::quiet(|| { let mut h = hm(&base); h.copy_block_to(&hm(&b), ro, co, &op); un(&h) });
            let want: M = (0..size).map(|i| (0..size).map(|j| if i >= ro && i < ro + n && j >= co && j < co + n { let (a, c) = (i - ro, j - co); match name { "none" => b[a][c], "minus" => -b[a][c], "transpose" => b[c][a], _ => -b[c][a] } } else { base[i][j] }).collect()).collect();
            k.check(got.as_ref() == Ok(&want), "copy-block", || format!("{} {name} at ({ro}, {co}) in order {size}: {got:?}", show(&b)));
            k.count("transitions", 1);
        } } }
    } } }
    // all short quadruples, valid or not
    for n in 1..=(if th { 4 } else { 3 }) {
        par(1 << n, |b| for x in 0..1u64 << (3 * n) { let m = r::mask(n); let q = [b as u64, x & m, x >> n & m, x >> (2 * n) & m]; block(&k, r::T::Qts, &q, n, n <= 2); });
        k.count("states", 1 << (4 * n));
    }
    // all valid quadruples of middle lengths; classes of longer ones
    for t in r::TYPES {
        for n in 4..=(if th { 7 } else { 6 }) { let all: Vec<_> = r::all_valid(t, n).into_iter().collect(); par(all.len(), |i| { block(&k, t, &all[i], n, i % 64 == 0); }); k.count("states", all.len() as u64); }
        let top = match t { r::T::Qts => if th { 11 } else { 9 }, r::T::Wts => if th { 14 } else { 12 }, r::T::Ws => if th { 21 } else { 18 } };
        for n in 7..=top.max(21) {
            let cl = members(t, n, top);
            par(cl.len(), |i| {
                // the forms of all generators as well
                let g = r::generators(t, n);
                for (x, f) in g.iter().enumerate() { if x % 5 == 0 || th { block(&k, t, &f(&cl[i]), n, false); } }
                if let Some(m) = block(&k, t, &cl[i], n, true) { if i < 3 {
                    // every entry flipped; every row replaced by every other one
                    let o = 4 * n;
                    for a in 0..o { for b in 0..o {
                        if o > 40 && (a * 7 + b) % (o / 8) != 0 && a != 0 && a != o - 1 { continue; }
                        let mut x = m.clone(); x[a][b] = -x[a][b]; matrix(&k, "one entry changed", &x, a == b);
                        if a != b { let mut x = m.clone(); x[a] = x[b].clone(); matrix(&k, "one row repeated", &x, false); let mut x = m.clone(); x.swap(a, b); matrix(&k, "two rows swapped", &x, a == 0); }
                    } }
                } }
            });
            k.count("states", cl.len() as u64);
        }
    }
    // Sylvester matrices up to order 512, with one row repeated or one entry changed
    let mut syl: M = vec![vec![1]];
    while syl.len() <= 256 {
        let n = syl.len();
        syl = (0..2 * n).map(|i| (0..2 * n).map(|j| syl[i % n][j % n] * if i >= n && j >= n { -1 } else { 1 }).collect()).collect();
        let o = syl.len();
        matrix(&k, "Sylvester", &syl, true);
        let pairs: Vec<(usize, usize)> = if o <= 64 { (0..o).flat_map(|a| (0..o).map(move |b| (a, b))).filter(|x| x.0 != x.1).collect() } else { vec![(0, 1), (0, o - 1), (o - 1, 0), (o - 2, o - 1), (o / 2, o / 2 - 1), (1, 0)] };
        par(pairs.len(), |i| { let (a, b) = pairs[i]; let mut x = syl.clone(); x[a] = x[b].clone(); matrix(&k, "Sylvester, one row repeated", &x, false); x[a].iter_mut().for_each(|e| *e = -*e); matrix(&k, "Sylvester, one row the opposite of another", &x, false); let mut x = syl.clone(); x[a][b] = -x[a][b]; matrix(&k, "Sylvester, one entry changed", &x, false); });
        k.count("states", 3 * pairs.len() as u64);
    }
    // circulant matrices of quaternion sequences: all short ones; perfect ones and their deviations
    let a24: Vec<r::Q> = r::ALPHABET24.chars().map(|c| r::decode(c).unwrap()).collect();
    for (alpha, top) in [(16usize, if th { 5 } else { 4 }), (24, if th { 4 } else { 3 })] { for n in 1..=top {
        let total = alpha.pow(n as u32);
        par(256, |b| for i in (b * total / 256)..((b + 1) * total / 256) { let mut x = i; let v: Vec<r::Q> = (0..n).map(|_| { let q = a24[x % alpha]; x /= alpha; q }).collect(); circulant(&k, &v, n <= 3); });
        k.count("states", total as u64);
    } }
    for (t, top) in [(r::T::Qts, if th { 11 } else { 9 }), (r::T::Wts, if th { 14 } else { 12 }), (r::T::Ws, if th { 21 } else { 18 })] { for n in 4..=top.max(21) {
        let cl = members(t, n, top);
        par(cl.len(), |i| {
            let v = r::to_qs(&cl[i], n);
            circulant(&k, &v, true);
            // multiplied by units on both sides: entries outside the sixteen
            for (a, b) in [(4usize, 8usize), (8, 16), (20, 3), (17, 11)] { let w: Vec<r::Q> = v.iter().map(|&q| r::qmul(a24[a], r::qmul(q, a24[b]))).collect(); circulant(&k, &w, true); }
            if i < 2 { for p in 0..n { for q in &a24 { let mut w = v.clone(); w[p] = *q; circulant(&k, &w, false); } } }
        });
        k.count("states", cl.len() as u64);
    } }
    // matrices of long valid quadruples (up to order 504) and of long perfect sequences, and single changes
    let l = long();
    let top = if th { 126 } else { 90 };
    par(l.len(), |x| {
        let v = &l[l.len() - 1 - x];
        let n = v[0].len();
        if n > top { return; }
        let name = || format!("long quadruple of length {n}");
        k.count("states", 1);
        let Some(h) = k.guard(&format!("panic-hm n={n}"), name, || HM::from_williamson(&quadseq_of(v), SequenceType::QuaternionType)) else { return };
        let m = un(&h);
        k.check(m.len() == 4 * n && hadamard(&m), &format!("hadamard n={n}"), || format!("the matrix of a {} is not Hadamard", name()));
        k.check(Kit::quiet(|| h.verify()) == Ok(true), &format!("hm-verify n={n}"), || format!("the matrix of a {} is not verified", name()));
        let back = Kit::quiet(|| h.get_qts()).ok().map(|q| { let s = q.sequences(); [s.0, s.1, s.2, s.3] });
        k.check(back.as_ref() == Some(v), &format!("read-back n={n}"), || format!("a {} is read back as something else", name()));
        matrix(&k, "long quadruple", &m, true);
        for (a, b) in [(0, 4 * n - 1), (4 * n - 1, 0), (2 * n + 1, n)] { let mut x = m.clone(); x[a][b] = -x[a][b]; matrix(&k, "long quadruple, one entry changed", &x, false); let mut x = m.clone(); x[a] = x[b].clone(); matrix(&k, "long quadruple, one row repeated", &x, false); }
        for (f, w) in long_forms(v).iter().enumerate() {
            let q = quaternions(w);
            circulant(&k, &q, f == 0 && n <= 64);
            if f != 0 || n > 64 && !th { continue; }
            for p in [0, 1, n / 2, n - 1] { for c in [0usize, 3, 9, 17] { let mut z = q.clone(); z[p] = a24[c]; circulant(&k, &z, false); } }
        }
    });
    // products of perfect sequences are perfect: long ones, from coprime lengths, with commuting parts
    let base: Vec<(&str, &str)> = vec![("++-+", "+++i++-i"), ("+i", "+++-")];
    for (a, b) in base { for s in [a, b] { circulant(&k, &r::qs_from_str(s).unwrap(), true); } }
    k.sample("matrix", "every row of every Hadamard matrix replaced by every other row");
    k.done();
}
