use super::{kit::*, reference as r};
use crate::find::find_write::EquationSide; //opt
use crate::sequences::{fourier::*, matching::*, williamson::SequenceTag};
use num_complex::Complex;

const TAGS: [SequenceTag; 4] = [SequenceTag::W, SequenceTag::X, SequenceTag::Y, SequenceTag::Z];
/// the sign of the antisymmetric part for a pair of names: Z before the others, W before X before Y before W
fn sign(a: usize, b: usize) -> i64 { match (a, b) { (3, _) | (0, 1) | (1, 2) | (2, 0) => 1, _ => -1 } }
fn corr(a: &[i8], b: &[i8], t: usize) -> i64 { let n = a.len(); (0..n).map(|i| a[i] as i64 * b[(i + n - t % n) % n] as i64).sum() }

fn dft(a: &[i8]) -> Vec<Complex<f64>> {
    let n = a.len();
    (0..=n / 2).map(|w| (0..n).map(|i| { let p = -std::f64::consts::TAU * ((w * i) % n) as f64 / n as f64; Complex::new(p.cos(), p.sin()) * a[i] as f64 }).sum()).collect()
}
fn close(a: &[Complex<f64>], b: &[Complex<f64>], e: f64) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).norm() < e) }
fn near(a: &[f64], b: &[f64], e: f64) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() < e) }

fn one(k: &Kit, what: &str, a: &Vec<i8>, da: &Vec<Complex<f64>>) {
    let n = a.len();
    k.count("transitions", 4);
    let eps = 1e-9 * (n * n) as f64 + 1e-9;
    let key = |s: &str| format!("{s} n={n}");
    let name = || format!("{what} {a:?}");
    if let Some(d) = k.guard(&key("panic"), name, || dft_sequence(a)) {
        k.check(close(&d, da, eps), &key("dft"), || format!("dft of {a:?} is {d:?}, expected {da:?}"));
        if let Some(b) = k.guard(&key("panic"), name, || inverse_dft(&d, n)) {
            let v: Vec<f64> = a.iter().map(|&x| x as f64).collect();
            k.check(near(&b, &v, eps), &key("inverse"), || format!("the inverse transform of the transform of {a:?} is {b:?}"));
        }
        let psd: Vec<f64> = d.iter().map(|x| x.norm_sqr()).collect();
        let auto: Vec<i64> = (0..n).map(|t| corr(a, a, t)).collect();
        if let Some(c) = k.guard(&key("panic"), name, || compute_auto_correlation_dft(&psd, n)) {
            k.check(c.iter().map(|&x| x as i64).collect::<Vec<_>>() == auto, &key("auto-dft"), || format!("autocorrelations of {a:?} are {c:?}, expected {auto:?}"));
        }
        if let Some(c) = k.guard(&key("panic"), name, || compute_auto_correlation(a)) {
            k.check(c.iter().map(|&x| x as i64).collect::<Vec<_>>() == auto[1.min(n)..].iter().take(n / 2).cloned().collect::<Vec<_>>(), &key("auto"), || format!("autocorrelations of {a:?} are {c:?}, expected {auto:?}"));
        }
    }
}

fn two(k: &Kit, what: &str, a: &Vec<i8>, b: &Vec<i8>, da: &Vec<Complex<f64>>, db: &Vec<Complex<f64>>) {
    let n = a.len();
    let h = n / 2;
    k.count("transitions", 54);
    let eps = 1e-9 * (n * n) as f64 + 1e-9;
    let key = |s: &str| format!("{s} n={n}");
    let name = || format!("{what} {a:?} {b:?}");
    let (pa, pb): (Vec<f64>, Vec<f64>) = (da.iter().map(|x| x.norm_sqr()).collect(), db.iter().map(|x| x.norm_sqr()).collect());
    let auto: Vec<i64> = (1..=h).map(|t| corr(a, a, t) + corr(b, b, t)).collect();
    let asym: Vec<i64> = (1..=h).map(|t| corr(a, b, t) - corr(b, a, t)).collect();
    let int = |v: Vec<isize>| v.into_iter().map(|x| x as i64).collect::<Vec<_>>();
    let got = k.guard(&key("panic"), name, || (int(compute_auto_correlation_pair(a, b)), int(compute_auto_correlation_pair_dft(&pa, n, &pb, n)), int(compute_complementary_auto_correlations(a, b)),
        compute_psd_pair(&pa, &pb, n, EquationSide::LEFT), //opt: (1..=h).map(|i| pa[i] + pb[i]).collect::<Vec<f64>>(),
        compute_psd_pair(&pa, &pb, n, EquationSide::RIGHT), //opt: (1..=h).map(|i| 4.0 * n as f64 - (pa[i] + pb[i])).collect::<Vec<f64>>(),
        compute_cross_psd(da, db), //opt: da.iter().zip(db).map(|(x, y)| x * y.conj()).collect::<Vec<_>>(),
        ));
    if let Some((p, q, c, l, rr, x)) = got {
        k.check(p == auto, &key("auto-pair"), || format!("{}: {p:?}, expected {auto:?}", name()));
        k.check(q == auto, &key("auto-pair-dft"), || format!("{}: {q:?}, expected {auto:?}", name()));
        k.check(c == auto.iter().map(|x| -x).collect::<Vec<_>>(), &key("auto-complementary"), || format!("{}: {c:?}, expected the opposite of {auto:?}", name()));
        let s: Vec<f64> = (1..=h).map(|i| pa[i] + pb[i]).collect();
        k.check(near(&l, &s, eps), &key("psd-left"), || format!("{}: {l:?}, expected {s:?}", name()));
        let t: Vec<f64> = s.iter().map(|x| 4.0 * n as f64 - x).collect();
        k.check(near(&rr, &t, eps), &key("psd-right"), || format!("{}: {rr:?}, expected {t:?}", name()));
        let w: Vec<Complex<f64>> = da.iter().zip(db).map(|(x, y)| x * y.conj()).collect();
        k.check(close(&x, &w, eps), &key("cross-psd"), || format!("{}: {x:?}, expected {w:?}", name()));
    }
    for i in 0..4 { for j in 0..4 { if i != j {
        let tags = (TAGS[i], TAGS[j]);
        let s = sign(i, j);
        let want: Vec<i64> = asym.iter().map(|x| s * x).collect();
        let nm = || format!("{} as {:?}", name(), tags);
        let got = k.guard(&key("panic"), nm, || (int(compute_cross_correlations(a, b, &tags)), int(compute_cross_correlations_dft(da, db, &tags, n)), int(compute_complementary_cross_correlations(a, b, &tags)),
            compute_cross_psd_pair(da.clone(), db.clone(), &tags, n), //opt: (1..=h).map(|i| (da[i] * db[i].conj() - db[i] * da[i].conj()) * s as f64).collect::<Vec<_>>(),
            ));
        if let Some((p, q, c, x)) = got {
            k.check(p == want, &key("cross"), || format!("{}: {p:?}, expected {want:?}", nm()));
            k.check(q == want, &key("cross-dft"), || format!("{}: {q:?}, expected {want:?}", nm()));
            k.check(c == want.iter().map(|x| -x).collect::<Vec<_>>(), &key("cross-complementary"), || format!("{}: {c:?}, expected the opposite of {want:?}", nm()));
            let w: Vec<Complex<f64>> = (1..=h).map(|i| (da[i] * db[i].conj() - db[i] * da[i].conj()) * s as f64).collect();
            k.check(close(&x, &w, eps), &key("cross-psd-pair"), || format!("{}: {x:?}, expected {w:?}", nm()));
        }
    } } }
}

/// A history in a process of its own: transforms of the given lengths, in order; prints whether all are right
fn history(h: &str) {
    let ok = h.split(',').all(|s| {
        let (inv, n) = (s.starts_with('i'), s[1..].parse::<usize>().unwrap());
        let a: Vec<i8> = (0..n).map(|i| if (i * i + i / 2) % 3 == 1 { -1 } else { 1 }).collect();
        let d = dft(&a);
        let eps = 1e-9 * (n * n) as f64 + 1e-9;
        if inv { Kit::quiet(|| near(&inverse_dft(&d, n), &a.iter().map(|&x| x as f64).collect::<Vec<_>>(), eps)).unwrap_or(false) }
        else { Kit::quiet(|| close(&dft_sequence(&a), &d, eps)).unwrap_or(false) }
    });
    std::process::exit(if ok { 0 } else { 3 });
}

pub fn main() {
    if let Ok(h) = std::env::var("VERIF_HISTORY") { std::panic::set_hook(Box::new(|_| {})); history(&h); }
    let k = Kit::new();
    let th = k.thorough;
    // all pairs of short sequences
    for n in 1..=(if th { 9 } else { 7 }) {
        let all: Vec<Vec<i8>> = (0..1u64 << n).map(|s| r::b_to_vec(s, n)).collect();
        let d: Vec<_> = all.iter().map(|a| dft(a)).collect();
        for (a, d) in all.iter().zip(&d) { one(&k, "all", a, d); }
        par(all.len(), |i| for j in 0..all.len() { two(&k, "all", &all[i], &all[j], &d[i], &d[j]); });
        k.count("states", (all.len() * all.len()) as u64);
    }
    // all single sequences of longer lengths
    for n in 8..=(if th { 16 } else { 13 }) { par(64, |b| for s in 0..1u64 << (n - 6) { let a = r::b_to_vec(s << 6 | b as u64, n); one(&k, "all", &a, &dft(&a)); }); k.count("states", 1 << n); }
    // longer pairs: everything is bilinear (quadratic), so pairs of indicators of positions determine it
    let top = if th { 96 } else { 56 };
    let lens: Vec<usize> = (8..=top).rev().collect();
    par(lens.len(), |i| {
        let n = lens[i];
        let e: Vec<Vec<i8>> = (0..n).map(|p| (0..n).map(|x| (x == p) as i8).collect()).collect();
        let d: Vec<_> = e.iter().map(|a| dft(a)).collect();
        // all differences of positions, and all pairs of positions of the shorter ones
        for p in 0..n { for q in 0..n { if n <= if th { 40 } else { 20 } || p == 0 || q == n / 2 { two(&k, "indicators", &e[p], &e[q], &d[p], &d[q]); } } }
        for p in 0..n { one(&k, "indicator", &e[p], &d[p]); }
        k.count("states", (n * n) as u64);
    });
    // extreme values and patterns of longer lengths
    let lens: Vec<usize> = (1..=if th { 400 } else { 200 }).rev().collect();
    par(lens.len(), |i| {
        let n = lens[i];
        let l: Vec<Vec<i8>> = vec![vec![1; n], vec![-1; n], (0..n).map(|i| if i % 2 == 1 { -1 } else { 1 }).collect(), (0..n).map(|i| if i % 4 > 1 { -1 } else { 1 }).collect(),
            (0..n).map(|i| if (i * i) % n * 2 > n { -1 } else { 1 }).collect(), (0..n).map(|i| if i * 3 < n { -1 } else { 1 }).collect(), (0..n).map(|i| if (i * i * i + 5 * i) % 7 < 3 { -1 } else { 1 }).collect()];
        let d: Vec<_> = l.iter().map(|a| dft(a)).collect();
        for a in 0..l.len() { one(&k, "pattern", &l[a], &d[a]); for b in 0..l.len() { two(&k, "pattern", &l[a], &l[b], &d[a], &d[b]); } }
        k.count("states", 49);
    });
    // histories of lengths, each in a fresh process
    let letters: Vec<String> = ["d", "i"].iter().flat_map(|c| [1, 2, 3, 4, 6, 9, 16].iter().map(move |n| format!("{c}{n}"))).collect();
    let mut hist: Vec<String> = vec![];
    for a in &letters { hist.push(a.clone()); for b in &letters { hist.push(format!("{a},{b}")); for c in &letters { hist.push(format!("{a},{b},{c}")); if th && a[..1] == b[..1] { for d in &letters { hist.push(format!("{a},{b},{c},{d}")); } } } } }
    let exe = std::env::current_exe().unwrap();
    par(hist.len(), |i| {
        let st = std::process::Command::new(&exe).env("VERIF_HISTORY", &hist[i]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().unwrap();
        k.count("traces", 1);
        k.check(st.success(), "history", || format!("after the transforms {} (d: transform, i: inverse, length) in a fresh process, a result is wrong or the process fails ({st})", hist[i]));
    });
    k.sample("history", &hist[hist.len() / 2]);
    k.done();
}
