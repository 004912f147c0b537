// What the harnesses share: results go to the file named by VERIF_OUT, one JSON object per line.
use std::fs::File;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use super::reference as r;
use crate::sequences::williamson::QuadSeq;
use crate::sequences::symmetries::SequenceType;

pub struct Kit { out: Mutex<File>, pub thorough: bool, violations: Mutex<std::collections::HashMap<String, u32>>, counts: Mutex<std::collections::BTreeMap<String, u64>>, samples: Mutex<std::collections::HashMap<String, u32>> }

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o
}

impl Kit {
    pub fn new() -> Kit {
        std::panic::set_hook(Box::new(|_| {}));
        Kit {
            out: Mutex::new(File::create(std::env::var("VERIF_OUT").unwrap()).unwrap()),
            thorough: std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"),
            violations: Default::default(), counts: Default::default(), samples: Default::default(),
        }
    }
    fn line(&self, s: String) { let mut f = self.out.lock().unwrap(); f.write_all((s + "\n").as_bytes()).unwrap(); }
    /// Reports a violation; `key` identifies it (at most three cases per kind, the part before the first space)
    pub fn violation(&self, key: &str, msg: &str) {
        let kind = key.split(' ').next().unwrap().to_string();
        let mut v = self.violations.lock().unwrap();
        let c = v.entry(kind).or_insert(0);
        *c += 1;
        if *c <= 3 { self.line(format!("{{\"k\":\"violation\",\"key\":\"{}\",\"msg\":\"{}\"}}", esc(key), esc(msg))); }
    }
    pub fn check(&self, ok: bool, key: &str, msg: impl FnOnce() -> String) -> bool { if !ok { self.violation(key, &msg()); } ok }
    /// Runs code of the program; a panic is a violation
    pub fn guard<R>(&self, key: &str, input: impl Fn() -> String, f: impl FnOnce() -> R) -> Option<R> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(x) => Some(x),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                self.violation(&format!("{key}"), &format!("panicked ({}) on {}", m.chars().take(300).collect::<String>(), input()));
                None
            }
        }
    }
    /// As guard, but only tells whether it panicked
    pub fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, ()> { catch_unwind(AssertUnwindSafe(f)).map_err(|_| ()) }
    pub fn count(&self, name: &str, n: u64) { *self.counts.lock().unwrap().entry(name.to_string()).or_insert(0) += n; }
    pub fn sample(&self, kind: &str, s: &str) {
        let mut v = self.samples.lock().unwrap();
        let c = v.entry(kind.to_string()).or_insert(0);
        *c += 1;
        if *c <= 2 { self.line(format!("{{\"k\":\"sample\",\"s\":\"{}: {}\"}}", esc(kind), esc(s))); }
    }
    pub fn done(&self) {
        for (k, v) in self.counts.lock().unwrap().iter() { self.line(format!("{{\"k\":\"count\",\"name\":\"{}\",\"n\":{}}}", esc(k), v)); }
        for (k, v) in self.violations.lock().unwrap().iter() { self.line(format!("{{\"k\":\"violations\",\"name\":\"{}\",\"n\":{}}}", esc(k), v)); }
        self.line("{\"k\":\"done\"}".to_string());
    }
}

pub fn st(t: r::T) -> SequenceType { match t { r::T::Qts => SequenceType::QuaternionType, r::T::Wts => SequenceType::WilliamsonType, r::T::Ws => SequenceType::Williamson } }
pub fn quadseq(q: &r::Quad, n: usize) -> QuadSeq {
    let mut x = QuadSeq::new(n);
    let v: Vec<Vec<i8>> = q.iter().map(|&s| r::b_to_vec(s, n)).collect();
    x.set_all_values((&v[0], &v[1], &v[2], &v[3]));
    x
}
pub fn unquad(x: &QuadSeq) -> Option<r::Quad> {
    let (a, b, c, d) = x.sequences();
    if x.size() != a.len() || a.len() != b.len() || b.len() != c.len() || c.len() != d.len() { return None; }
    Some([r::vec_to_b(&a)?, r::vec_to_b(&b)?, r::vec_to_b(&c)?, r::vec_to_b(&d)?])
}
/// Valid quadruples of longer lengths: the ones published with the repository
#[allow(dead_code)]
pub fn published(t: r::T, n: usize) -> Vec<r::Quad> {
    let mut out = vec![];
    for l in include_str!(concat!(env!("VERIF_HARNESS_DIR"), "/../data/published.txt")).lines() {
        let w: Vec<&str> = l.split(' ').collect();
        if w[0] == r::tname(t) && w[1] == n.to_string() {
            let q = r::from_qs(&r::qs_from_str(w[2]).unwrap()).unwrap();
            assert!(w[2].len() == n && r::valid(t, &q, n), "published {l}");
            out.push(q);
        }
    }
    out
}
/// Valid symmetric quadruples of long lengths (data/long.txt: Turyn's family and its doubling), as vectors
#[allow(dead_code)]
pub fn long() -> Vec<[Vec<i8>; 4]> {
    include_str!(concat!(env!("VERIF_HARNESS_DIR"), "/../data/long.txt")).lines().map(|l| {
        let (n, s) = l.split_once(' ').unwrap();
        let v: Vec<Vec<i8>> = s.split(',').map(|x| x.chars().map(|c| if c == '+' { 1 } else { -1 }).collect()).collect();
        let n: usize = n.parse().unwrap();
        assert!(v.len() == 4 && v.iter().all(|x| x.len() == n && (1..n).all(|i| x[i] == x[n - i])), "long {n}");
        assert!((1..n).all(|t| v.iter().map(|x| (0..n).map(|i| (x[i] * x[(i + t) % n]) as i64).sum::<i64>()).sum::<i64>() == 0), "long {n}");
        [v[0].clone(), v[1].clone(), v[2].clone(), v[3].clone()]
    }).collect()
}
#[allow(dead_code)]
pub fn quadseq_of(v: &[Vec<i8>; 4]) -> QuadSeq { let mut x = QuadSeq::new(v[0].len()); x.set_all_values((&v[0], &v[1], &v[2], &v[3])); x }
/// the quaternions of a quadruple
#[allow(dead_code)]
pub fn quaternions(v: &[Vec<i8>; 4]) -> Vec<r::Q> { (0..v[0].len()).map(|i| r::quad_to_q([v[0][i] as i32, v[1][i] as i32, v[2][i] as i32, v[3][i] as i32])).collect() }
/// the same long quadruple with its sequences rotated together, negated, permuted or alternated; all remain qts (and wts)
#[allow(dead_code)]
pub fn long_forms(v: &[Vec<i8>; 4]) -> Vec<[Vec<i8>; 4]> {
    let n = v[0].len();
    let rot = |t: usize| [0, 1, 2, 3].map(|s: usize| (0..n).map(|i| v[s][(i + t) % n]).collect::<Vec<i8>>());
    let mut out = vec![v.clone(), rot(1), rot(n / 2 + 1)];
    out.push([0, 1, 2, 3].map(|s: usize| (0..n).map(|i| if s < 2 { -v[s][i] } else { v[s][i] }).collect()));
    out.push([1, 2, 0, 3].map(|s: usize| v[s].clone()));
    if n % 2 == 0 { out.push([0, 1, 2, 3].map(|s: usize| (0..n).map(|i| if i % 2 == 1 { -v[s][i] } else { v[s][i] }).collect())); }
    out
}
/// Runs f(0..n) on all cores
pub fn par(n: usize, f: impl Fn(usize) + Sync) {
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| { for _ in 0..8 { s.spawn(|| loop {
        let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if i >= n { break; }
        f(i);
    }); } });
}
