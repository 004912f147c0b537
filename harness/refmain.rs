// Command line of the reference: see the match below.
mod reference { include!("reference.rs"); }
use reference::*;
use std::collections::*;
use std::io::BufRead;
include!("refpairs.rs");
include!("hadamard.rs");
fn canon_str(c: &Canon, n: usize) -> String { format!("{}{}", quad_to_str(&c.0, n), if c.1 { "~" } else { "" }) }
fn seqfile(p: &str) -> Vec<Vec<Q>> { std::fs::read_to_string(p).unwrap().lines().map(|l| qs_from_str(l).expect(l)).collect() }
/// matrices separated by empty lines, one row per line
fn qhmfile(p: &str) -> Result<Vec<Vec<Vec<Q>>>, String> {
    let t = std::fs::read_to_string(p).map_err(|e| e.to_string())?;
    let (mut all, mut m) = (vec![], vec![]);
    for l in t.lines().chain([""]) {
        if l.trim().is_empty() { if !m.is_empty() { all.push(std::mem::take(&mut m)); } continue; }
        let c: Vec<char> = l.chars().filter(|c| !" |".contains(*c)).collect();
        m.push(c.iter().map(|&c| decode(c).ok_or(format!("unknown symbol {c}"))).collect::<Result<Vec<Q>, _>>()?);
    }
    match all.iter().position(|m| m.iter().any(|r| r.len() != m.len())) { Some(i) => Err(format!("matrix {i} is not square")), None => Ok(all) }
}
/// rows multiplied on the left and columns on the right by units, so that the first ones become 1
fn normalized(s: &[Q]) -> Vec<Vec<Q>> {
    let n = s.len();
    let x = |i: usize, j: usize| s[(j + n - i) % n];
    (0..n).map(|i| (0..n).map(|j| qmul(qmul(qconj(x(i, 0)), x(i, j)), qmul(qconj(x(0, j)), x(0, 0)))).collect()).collect()
}
/// the form above is unique up to conjugating all entries by a unit
fn conj_canon(m: &Vec<Vec<Q>>) -> Vec<Vec<Q>> {
    ALPHABET24.chars().map(|c| decode(c).unwrap()).map(|u| m.iter().map(|r| r.iter().map(|&q| qmul(qmul(qconj(u), q), u)).collect::<Vec<Q>>()).collect::<Vec<_>>()).min().unwrap()
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        // classes TYPE N: a canonical form per equivalence class
        "classes" => {
            let (t, n) = (tparse(&a[2]), a[3].parse().unwrap());
            let (r, v) = classes(t, n);
            println!("#visited {v} normalised {}", r.values().sum::<u64>());
            for (c, k) in r { println!("{} {}", canon_str(&c, n), k); }
        }
        // canon TYPE: reads quaternion sequences; validity and canonical form of each
        "canon" => {
            let t = tparse(&a[2]);
            for l in std::io::stdin().lock().lines() {
                let l = l.unwrap();
                let v = match qs_from_str(&l) { Some(v) if v.len() > 0 && v.len() < 64 => v, _ => { println!("undecodable"); continue; } };
                let n = v.len();
                let q = match from_qs(&v) { Some(q) => q, None => { println!("outside"); continue; } };
                let ok = valid(t, &q, n);
                println!("{} {} {} {}", ok, canon_str(&canon(t, &q, n), n), n, quad_to_str(&q, n));
            }
        }
        // self-test: meet in the middle against all quadruples; canonical forms against closures
        "selftest" => {
            let max: usize = a[2].parse().unwrap();
            let mut checks = 0u64;
            for t in TYPES { for n in 1..=max {
                let all = all_valid_brute(t, n);
                assert!(all == all_valid(t, n), "{t:?} {n}");
                let mut canons: BTreeMap<Canon, u64> = BTreeMap::new();
                for q in &all { *canons.entry(canon(t, q, n)).or_default() += 1; checks += 1; }
                let (cl, _) = classes(t, n);
                assert!(cl.keys().eq(canons.keys()));
                let mut left = all.clone();
                let mut sizes = BTreeMap::new();
                while let Some(q) = left.iter().next().cloned() {
                    let c = class(t, &q, n);
                    assert!(c.iter().all(|x| left.remove(x)));
                    assert!(c.iter().all(|x| canon(t, x, n) == canon(t, &q, n)));
                    sizes.insert(canon(t, &q, n), c.len() as u64);
                }
                assert!(sizes == canons, "{t:?} {n}");
                // definitions against each other
                for q in &all { if t == T::Qts { assert!(complementary(q, n) && qt_cross(q, n)); } }
            } }
            println!("ok {checks}");
        }
        // pairs TYPE N PAIRING DIR...: checks the sorted pair files of a search (see refpairs.rs)
        "pairs" => pairs_main(&a[2..]),
        // hm: reads "s <quaternion sequence>" and "m <matrix, rows separated by />" lines; numbers the class of each matrix
        // (of a sequence: its block-circulant matrix); "-" for what is not a Hadamard matrix
        "hm" => {
            let mut c = hadamard::Classes::default();
            for l in std::io::stdin().lock().lines() {
                let l = l.unwrap();
                let (k, x) = l.split_at(2);
                let h = if k == "s " {
                    qs_from_str(x).and_then(|v| from_qs(&v).map(|q| hadamard::of_quad(&q, v.len())))
                } else {
                    let rows: Vec<Vec<i8>> = x.split('/').map(|r| r.chars().map(|c| if c == '+' { 1 } else if c == '-' { -1 } else { 0 }).collect()).collect();
                    hadamard::from_rows(&rows)
                };
                match h { Some(h) if hadamard::is_hadamard(&h) => println!("{}", c.add(&h)), _ => println!("-") }
            }
            println!("nodes {}", c.nodes);
        }
        // qhm SEQ QHM: the matrices of the second file are the normalized matrices of the sequences of the first, in order
        "qhm" => {
            let seqs = seqfile(&a[2]);
            let mats = match qhmfile(&a[3]) { Ok(m) => m, Err(e) => { println!("bad {e}"); return } };
            if seqs.len() != mats.len() { println!("bad {} matrices for {} sequences", mats.len(), seqs.len()); return }
            let mut nc = 0;
            for (i, (s, m)) in seqs.iter().zip(&mats).enumerate() {
                if conj_canon(&normalized(s)) != conj_canon(m) || m.iter().any(|r| r[0] != ONE) || m[0].iter().any(|&q| q != ONE) { println!("bad matrix {i} of {}", qs_to_str(s)); return }
                let e: BTreeSet<Q> = m.iter().skip(1).flat_map(|r| r.iter().skip(1).cloned()).collect();
                nc += e.iter().any(|x| e.iter().any(|y| qmul(*x, *y) != qmul(*y, *x))) as u64;
            }
            println!("ok {} {nc}", mats.len());
        }
        // qhm-all TYPE SEQ MAT: one matrix per sequence equivalent to one of the first file
        "qhm-all" => {
            let t = tparse(&a[2]);
            let mats = match qhmfile(&a[4]) { Ok(m) => m, Err(e) => { println!("bad {e}"); return } };
            let mut want: BTreeMap<Vec<Vec<Q>>, i64> = BTreeMap::new();
            let mut members = BTreeSet::new();
            let mut n = 0;
            for s in seqfile(&a[3]) { n = s.len(); members.extend(class(t, &from_qs(&s).unwrap(), n)); }
            for q in &members { *want.entry(conj_canon(&normalized(&to_qs(q, n)))).or_default() += 1; }
            if members.len() != mats.len() { println!("bad {} matrices for {} sequences", mats.len(), members.len()); return }
            for (i, m) in mats.iter().enumerate() {
                if m.len() != n || m.iter().any(|r| r[0] != ONE) || m[0].iter().any(|&q| q != ONE) { println!("bad matrix {i} is not normalized"); return }
                let e = want.entry(conj_canon(m)).or_default();
                *e -= 1;
                if *e < 0 { println!("bad matrix {i} is there too often"); return }
            }
            println!("ok {}", mats.len());
        }
        // perfect N: all perfect sequences of the 16 symbols starting with 1
        "perfect" => {
            let n: usize = a[2].parse().unwrap();
            let alpha: Vec<Q> = ALPHABET16.chars().map(|c| decode(c).unwrap()).collect();
            for i in 0..16usize.pow(n as u32 - 1) { let mut x = i; let mut v = vec![ONE]; for _ in 1..n { v.push(alpha[x % 16]); x /= 16; } if perfect(&v) { println!("{}", qs_to_str(&v)); } }
        }
        x => panic!("unknown command {x}"),
    }
}
