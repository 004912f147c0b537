// C22: the brute-force finders.
use super::{kit::*, reference as r};
use crate::find::{find_naive, find_optim, find_unique, find_williamson};
use crate::sequences::{symmetries::Symmetry, williamson::QuadSeq};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Seek, Write};
use std::os::fd::AsRawFd;

extern "C" { fn dup(a: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; fn close(a: i32) -> i32; }

/// Runs f and returns what it printed to the standard output
fn captured<R>(f: impl FnOnce() -> R) -> (Option<R>, String) {
    let p = format!("capture_{}", std::process::id());
    let mut out = std::fs::File::options().read(true).write(true).create(true).truncate(true).open(&p).unwrap();
    let null = std::fs::File::options().write(true).open("/dev/null").unwrap();
    let _ = std::io::stdout().flush();
    let saved = unsafe { (dup(1), dup(2)) };
    unsafe { dup2(out.as_raw_fd(), 1); dup2(null.as_raw_fd(), 2); }
    let x = Kit::quiet(f).ok();
    let _ = std::io::stdout().flush();
    unsafe { dup2(saved.0, 1); dup2(saved.1, 2); close(saved.0); close(saved.1); }
    let mut s = String::new();
    out.rewind().unwrap();
    out.read_to_string(&mut s).unwrap();
    std::fs::remove_file(&p).unwrap();
    (x, s)
}

/// Compares what a finder reports with the set it should
fn judge(k: &Kit, key: &str, want: &BTreeSet<String>, f: impl FnOnce() -> usize) {
    let (n, text) = captured(f);
    k.count("transitions", 1);
    k.count("states", want.len() as u64);
    let Some(n) = n else { k.violation(key, "the finder panics"); return };
    let mut got: BTreeMap<&str, u32> = BTreeMap::new();
    for l in text.lines() { *got.entry(l).or_default() += 1; }
    if let Some((s, c)) = got.iter().find(|x| *x.1 > 1) { k.violation(key, &format!("{s} is reported {c} times")); }
    if let Some(s) = got.keys().find(|s| !want.contains(**s)) { k.violation(key, &format!("{s} is reported but does not satisfy the condition ({} reported, {} expected)", got.len(), want.len())); }
    if let Some(s) = want.iter().find(|s| !got.contains_key(s.as_str())) { k.violation(key, &format!("{s} is not reported ({} reported, {} expected)", got.len(), want.len())); }
    k.check(n == want.len(), key, || format!("{n} sequences are counted, expected {}", want.len()));
    if want.len() > 20 { k.sample(key.split(' ').next().unwrap(), &format!("{key}: {} sequences", want.len())); }
}
fn symmetric(s: &Symmetry, v: &[r::Q]) -> bool {
    let n = v.len();
    let sg = |q: r::Q, e: usize| if e % 2 == 1 { r::qneg(q) } else { q };
    match s {
        Symmetry::I => (0..n).all(|i| v[i] == v[n - 1 - i]),
        Symmetry::II => (0..n / 2).all(|i| v[n / 2 + i] == sg(v[i], i)),
        Symmetry::III => (0..n / 2).all(|i| v[n / 2 + i] == sg(v[i], i / 2)),
        Symmetry::IV => unreachable!(),
    }
}
fn with_threads<R: Send>(t: usize, f: impl FnOnce() -> R + Send) -> R { rayon::ThreadPoolBuilder::new().num_threads(t).build().unwrap().install(f) }

/// all sequences over the first `al` symbols that start with 1 and satisfy `ok`, where `free` positions after the first determine the rest
fn enumerate(al: usize, free: usize, build: impl Fn(&[r::Q]) -> Vec<r::Q> + Sync, ok: impl Fn(&[r::Q]) -> bool + Sync) -> BTreeSet<String> {
    let a: Vec<r::Q> = r::ALPHABET24.chars().take(al).map(|c| r::decode(c).unwrap()).collect();
    let out = std::sync::Mutex::new(BTreeSet::new());
    let total = al.pow(free as u32);
    par(512, |b| { for i in b * total / 512..(b + 1) * total / 512 {
        let mut x = i; let mut h = vec![r::ONE]; for _ in 0..free { h.push(a[x % al]); x /= al; }
        let v = build(&h);
        if ok(&v) { out.lock().unwrap().insert(r::qs_to_str(&v)); }
    } });
    out.into_inner().unwrap()
}
fn perfect(v: &[r::Q]) -> bool { v.len() == 1 || r::perfect(v) }

pub fn main() {
    let k = Kit::new();
    let th = k.thorough;
    // the sixteen-element alphabet, from the valid quadruples (and, for short lengths, from all sequences)
    let mut perf16: Vec<BTreeSet<String>> = vec![BTreeSet::new()];
    for n in 1..=(if th { 8 } else { 7usize }) {
        let s: BTreeSet<String> = r::all_valid(r::T::Qts, n).iter().map(|q| r::to_qs(q, n)).filter(|v| v[0] == r::ONE).map(|v| r::qs_to_str(&v)).collect();
        if n <= 6 { k.check(enumerate(16, n - 1, |h| h.to_vec(), perfect) == s, "reference", || format!("length {n}")); }
        perf16.push(s);
    }
    for n in 1..perf16.len() {
        if n <= 6 || th { judge(&k, &format!("naive n={n}"), &perf16[n], || find_naive::find(n, None)); }
        for t in 1..=8usize { if n > 5 && ![1, 4, 8].contains(&t) || n > 6 && t != 8 { continue; } judge(&k, &format!("parallel n={n} threads={t}"), &perf16[n], || with_threads(t, || find_optim::find(n, None))); }
    }
    // over twenty-four elements
    for n in 1..=(if th { 6 } else { 5usize }) {
        let want = enumerate(24, n - 1, |h| h.to_vec(), perfect);
        for t in 1..=8usize { if n > 4 && ![1, 3, 8].contains(&t) { continue; } judge(&k, &format!("q24 n={n} threads={t}"), &want, || with_threads(t, || find_optim::find_q24(n, None))); } //opt
    }
    // with symmetries: half of the sequence is free
    for (nm, s) in [("I", Symmetry::I), ("II", Symmetry::II), ("III", Symmetry::III)] { for n in 1..=(if th { 12 } else { 10usize }) {
        if nm != "I" && n % 2 == 1 { continue; }
        let h = (n + 1) / 2;
        let sg = |q: r::Q, e: usize| if e % 2 == 1 { r::qneg(q) } else { q };
        let build = |f: &[r::Q]| -> Vec<r::Q> { (0..n).map(|i| match s { Symmetry::I => f[i.min(n - 1 - i)], Symmetry::II => if i < h { f[i] } else { sg(f[i - h], i - h) }, _ => if i < h { f[i] } else { sg(f[i - h], (i - h) / 2) } }).collect() };
        let want = enumerate(16, h - 1, build, |v| symmetric(&s, v) && perfect(v));
        if n < perf16.len() { k.check(want == perf16[n].iter().filter(|x| symmetric(&s, &r::qs_from_str(x).unwrap())).cloned().collect(), "reference", || format!("symmetry {nm} length {n}")); }
        judge(&k, &format!("naive-symmetry-{nm} n={n}"), &want, || find_naive::find(n, Some(s.clone())));
        for t in [1usize, 2, 8] { judge(&k, &format!("parallel-symmetry-{nm} n={n} threads={t}"), &want, || with_threads(t, || find_optim::find(n, Some(s.clone())))); }
        if h <= 4 { let want = enumerate(24, h - 1, build, |v| symmetric(&s, v) && perfect(v)); judge(&k, &format!("q24-symmetry-{nm} n={n}"), &want, || find_optim::find_q24(n, Some(s.clone()))); } //opt
    } }
    // Williamson and Williamson-type sequences, and every perfect sequence
    for n in 1..=(if th { 7 } else { 6usize }) {
        let pick = |t: r::T| -> BTreeSet<String> { r::all_valid(t, n).iter().map(|q| r::to_qs(q, n)).filter(|v| v[0] == r::ONE && perfect(v)).map(|v| r::qs_to_str(&v)).collect() };
        judge(&k, &format!("williamson n={n}"), &pick(r::T::Ws), || find_williamson::find(n, |w: &QuadSeq| w.is_symmetric() && w.is_periodic_complementary())); //opt
        judge(&k, &format!("williamson-type n={n}"), &pick(r::T::Wts), || find_williamson::find(n, |w: &QuadSeq| w.is_amicable() && w.is_periodic_complementary())); //opt
        judge(&k, &format!("all n={n}"), &perf16[n], || find_williamson::find(n, |_| true)); //opt
        judge(&k, &format!("none n={n}"), &BTreeSet::new(), || find_williamson::find(n, |_| false)); //opt
    }
    // one sequence per class
    for n in 1..=(if th { 6 } else { 5usize }) {
        let all: BTreeSet<r::Quad> = r::all_valid(r::T::Qts, n).into_iter().collect();
        //[opt
        let (aux, _) = captured(|| find_unique::find_aux(n));
        let got: Option<Vec<r::Quad>> = aux.and_then(|v| v.iter().map(unquad).collect());
        k.count("transitions", 2);
        k.check(got.as_ref().map(|g| (g.len(), g.iter().cloned().collect::<BTreeSet<_>>())) == Some((all.len(), all.clone())), &format!("unique-all n={n}"), || format!("{:?} sequences before reducing, expected {}", got.as_ref().map(|g| g.len()), all.len()));
        //]
        let (text, _) = captured(|| find_unique::find(n));
        let Some(text) = text else { k.violation(&format!("unique n={n}"), "the finder panics"); continue };
        let mut classes: BTreeMap<r::Canon, u32> = BTreeMap::new();
        for l in text.lines() { match r::qs_from_str(l).and_then(|v| r::from_qs(&v)) {
            Some(q) if l.len() == n && r::valid(r::T::Qts, &q, n) => *classes.entry(r::canon(r::T::Qts, &q, n)).or_default() += 1,
            _ => k.violation(&format!("unique n={n}"), &format!("{l} is reported but is not perfect")),
        } }
        let want = r::classes(r::T::Qts, n).0;
        k.check(classes.values().all(|&c| c == 1) && classes.keys().eq(want.keys()), &format!("unique n={n}"), || format!("{} sequences of {} classes are reported, expected one of each of {} classes", text.lines().count(), classes.len(), want.len()));
        k.count("states", want.len() as u64);
    }
    k.done();
}
