//opt-file
use super::{kit::*, reference as r};
use crate::find::find_write::join_pairs_files;
use crate::sequences::williamson::SequenceTag;
use std::collections::BTreeMap;

type Seqs = (Vec<Vec<i8>>, Vec<Vec<i8>>, Vec<Vec<i8>>, Vec<Vec<i8>>);
type Line = (String, usize, usize);

fn tag(i: usize) -> SequenceTag { match i { 0 => SequenceTag::W, 1 => SequenceTag::X, 2 => SequenceTag::Y, _ => SequenceTag::Z } }
const ORDERS: [[usize; 4]; 6] = [[0, 1, 2, 3], [2, 3, 0, 1], [0, 2, 1, 3], [1, 3, 0, 2], [0, 3, 1, 2], [1, 2, 0, 3]];
const TAGS: [&str; 4] = ["W", "X", "Y", "Z"];

/// what the sort step makes of the lines (bytewise order)
fn write(dir: &str, name: &str, lines: &[Line]) -> String {
    let mut l: Vec<String> = lines.iter().map(|(k, i, j)| format!("{k}_:_{i}_{j}\n")).collect();
    l.sort_by(|a, b| a.trim_end_matches('\n').as_bytes().cmp(b.trim_end_matches('\n').as_bytes()));
    let d = format!("{dir}/{name}");
    std::fs::create_dir_all(&d).unwrap();
    for p in 0..6 { let o = ORDERS[p]; std::fs::write(format!("{d}/pair_{}{}.pair.sorted", TAGS[o[0]], TAGS[o[1]]), l.concat()).unwrap(); }
    d
}

fn joined(k: &Kit, nm: &str, t: r::T, n: usize, o: [usize; 4], d: (&str, &str), f: (&[Line], &[Line]), seqs: &Seqs, valid: &dyn Fn(&r::Quad) -> bool) {
    k.count("traces", 1);
    let order = (tag(o[0]), tag(o[1]), tag(o[2]), tag(o[3]));
    let names = (format!("{}/pair_{}{}.pair.sorted", d.0, TAGS[o[0]], TAGS[o[1]]), format!("{}/pair_{}{}.pair.sorted", d.1, TAGS[o[2]], TAGS[o[3]]));
    let Some(got) = k.guard(&format!("panic {nm}"), || format!("{nm}: {:?} {:?}", f.0.iter().take(5).collect::<Vec<_>>(), f.1.iter().take(5).collect::<Vec<_>>()), || join_pairs_files(&names, st(t), &order, seqs)) else { return };
    let s = [&seqs.0, &seqs.1, &seqs.2, &seqs.3];
    let mut want: BTreeMap<r::Quad, i64> = BTreeMap::new();
    let mut by: std::collections::HashMap<&str, Vec<(usize, usize)>> = Default::default();
    for (key, i, j) in f.1 { by.entry(key).or_default().push((*i, *j)); }
    for (key, i, j) in f.0 { for &(x, y) in by.get(key.as_str()).map_or(&[][..], |v| v) {
        let mut q = [0; 4];
        for (p, ix) in [(o[0], *i), (o[1], *j), (o[2], x), (o[3], y)] { q[p] = r::vec_to_b(&s[p][ix]).unwrap(); }
        k.count("transitions", 1);
        if valid(&q) { *want.entry(q).or_default() += 1; }
    } }
    let total: i64 = want.values().sum();
    let mut bad = None;
    for g in &got {
        match unquad(g) { Some(q) => { let e = want.entry(q).or_default(); *e -= 1; if *e < 0 { bad = Some(format!("{} is kept too often or is not a valid match", r::quad_to_str(&q, n))); } } None => bad = Some("unreadable result".into()) }
    }
    if bad.is_none() { if let Some((q, c)) = want.iter().find(|x| *x.1 > 0) { bad = Some(format!("{} is missing ({c} of the {total} matches of its kind)", r::quad_to_str(q, n))); } }
    if let Some(b) = bad { k.violation(&format!("join {nm}"), &format!("{} order {:?}, files {:?} and {:?}: {b}", r::tname(t), o, f.0.iter().take(6).collect::<Vec<_>>(), f.1.iter().take(6).collect::<Vec<_>>())); }
}

fn multisets(keys: usize, len: usize, from: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    out.push(cur.clone());
    if cur.len() == len { return; }
    for i in from..keys { cur.push(i); multisets(keys, len, i, cur, out); cur.pop(); }
}

pub fn main() {
    let k = Kit::new();
    let dir = std::env::current_dir().unwrap().display().to_string() + "/files";
    std::fs::create_dir_all(&dir).unwrap();
    // The four symmetric sequences of length 4 without off-peak autocorrelations: each of the 4^4 quadruples
    // is valid for all types, so that every combination tried is seen with its indices.
    let four: Vec<Vec<i8>> = vec![vec![-1, 1, 1, 1], vec![1, 1, -1, 1], vec![1, -1, -1, -1], vec![-1, -1, 1, -1]];
    let seqs: Seqs = (four.clone(), four.clone(), four.clone(), four.clone());
    for w in &four { for x in &four { for y in &four { for z in &four {
        let q = [w, x, y, z].map(|v| r::vec_to_b(v).unwrap());
        for t in r::TYPES { assert!(r::valid(t, &q, 4)); }
    } } } }
    let families: Vec<Vec<&str>> = vec![
        vec!["2", "23", "-2", "-23", "3", "0", "10", "1"],
        vec!["2_3", "23_3", "2_-3", "-2_3", "2_30", "-2_-3", "22_3", "0_0"],
        vec!["8_8_-8_0", "8_8_8_0", "8_80_8_0", "-8_8_8_0", "8_8_8_-4", "8_8_8_4"],
        // single keys of n = 1
        vec![""],
    ];
    for (fi, keys) in families.iter().enumerate() {
        let mut sets = vec![];
        multisets(keys.len(), if k.thorough { 4 } else { 3 }, 0, &mut vec![], &mut sets);
        if fi == 1 && !k.thorough { sets.retain(|s| s.len() <= 3 && s.iter().all(|&x| x < 6)); }
        let files: Vec<(Vec<Line>, String)> = sets.iter().enumerate().map(|(a, s)| {
            let l: Vec<Line> = s.iter().enumerate().map(|(i, &x)| (keys[x].to_string(), (i + a) % 4, (2 * i + a / 4 + x) % 4)).collect();
            let d = write(&dir, &format!("f{fi}_{a}"), &l);
            (l, d)
        }).collect();
        k.count("states", (files.len() * files.len()) as u64);
        par(files.len(), |a| for b in 0..files.len() {
            for (oi, &o) in ORDERS.iter().enumerate() { for t in r::TYPES {
                // all orders and types on the small files, one of each by turns on the others
                if !k.thorough && files[a].0.len() + files[b].0.len() > 3 && (a + b) % 18 != oi * 3 + t as usize { continue; }
                if k.thorough && files[a].0.len() + files[b].0.len() > 5 && (a + b) % 18 != oi * 3 + t as usize { continue; }
                joined(&k, &format!("keys{fi} {a} {b}"), t, 4, o, (&files[a].1, &files[b].1), (&files[a].0, &files[b].0), &seqs, &|_| true);
            } }
        });
    }
    // every combination of all sequences of short lengths: exactly the valid ones are kept
    for n in 1..=(if k.thorough { 4 } else { 3 }) {
        let all: Vec<Vec<i8>> = (0..(1u64 << n)).map(|m| r::b_to_vec(m, n)).collect();
        let seqs: Seqs = (all.clone(), all.clone(), all.clone(), all.clone());
        let l: Vec<Line> = (0..all.len()).flat_map(|i| (0..all.len()).map(move |j| ("1_2".to_string(), i, j))).collect();
        let d = write(&dir, &format!("all{n}"), &l);
        par(18, |i| joined(&k, &format!("all-of-length-{n} {i}"), r::TYPES[i % 3], n, ORDERS[i / 3], (&d, &d), (&l, &l), &seqs, &|q| r::valid(r::TYPES[i % 3], q, n)));
        k.count("states", 1 << (4 * n));
    }
    // valid quadruples of longer lengths and all their neighbours, one key each
    for n in 4..=(if k.thorough { 9 } else { 7 }) { for t in r::TYPES {
        let mut some = vec![];
        for (c, _) in r::classes(t, n).0 { some.push(c.0); if c.1 { some.pop(); let mut q = c.0; q[3] = r::neg(q[3], n); some.push(q); } }
        for (ci, q) in some.iter().take(3).enumerate() {
            let mut seqs: Seqs = Default::default();
            let mut l: [Vec<usize>; 4] = Default::default();
            for i in 0..4 {
                let v = match i { 0 => &mut seqs.0, 1 => &mut seqs.1, 2 => &mut seqs.2, _ => &mut seqs.3 };
                v.push(r::b_to_vec(q[i], n));
                for b in 0..n { v.push(r::b_to_vec(q[i] ^ 1 << b, n)); }
                v.push(r::b_to_vec(r::rot(q[i], n, 1), n));
                v.push(r::b_to_vec(r::neg(q[i], n), n));
                v.push(r::b_to_vec(r::alt(q[i], n), n));
                l[i] = (0..v.len()).collect();
            }
            let line = |a: usize, b: usize| -> Vec<Line> { l[a].iter().flat_map(|&i| l[b].iter().map(move |&j| ("4_-4_0".to_string(), i, j))).collect() };
            par(6, |p| {
                let o = ORDERS[p];
                let (a, b) = (line(o[0], o[1]), line(o[2], o[3]));
                let d = (write(&dir, &format!("n{n}{t:?}{ci}{p}a"), &a), write(&dir, &format!("n{n}{t:?}{ci}{p}b"), &b));
                joined(&k, &format!("neighbours-{n} {}", r::tname(t)), t, n, o, (&d.0, &d.1), (&a, &b), &seqs, &|q| r::valid(t, q, n));
            });
        }
    } }
    // long runs of one key, and large indices
    let big: Vec<Vec<i8>> = (0..70000).map(|i| four[(i * 7 + i / 256 + i / 65536) % 4].clone()).collect();
    let bseqs: Seqs = (big.clone(), big.clone(), big.clone(), big.clone());
    let ix = [0usize, 1, 9, 10, 11, 99, 100, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 69999];
    let a: Vec<Line> = ix.iter().map(|&i| ("5_-5".to_string(), i, ix[(i + 3) % ix.len()])).collect();
    let b: Vec<Line> = ix.iter().rev().map(|&i| ("5_-5".to_string(), ix[(i + 5) % ix.len()], i)).collect();
    let d = (write(&dir, "ia", &a), write(&dir, "ib", &b));
    par(18, |i| joined(&k, "large-indices", r::TYPES[i % 3], 4, ORDERS[i / 3], (&d.0, &d.1), (&a, &b), &bseqs, &|_| true));
    for (x, y) in [(1usize, 70000usize), (1500, 3), (3, 1500), (300, 300), (70000, 1), (1025, 64), (4097, 2)] {
        let mut a: Vec<Line> = (0..x).map(|i| ("-1_1".to_string(), i, (i * 3) % 70000)).collect();
        let mut b: Vec<Line> = (0..y).map(|i| ("-1_1".to_string(), (i * 11) % 70000, i)).collect();
        for (l, m) in [(&mut a, 1usize), (&mut b, 2)] { for (c, key) in ["-1_0", "-1_2", "-1_11", "-1_10", "0_1", "-10_1"].iter().enumerate() { if c % 3 != m { for i in 0..m { l.push((key.to_string(), i, c)); } } } }
        let d = (write(&dir, &format!("ra{x}"), &a), write(&dir, &format!("rb{x}"), &b));
        par(3, |i| joined(&k, &format!("long-run-{x}-{y}"), r::TYPES[i], 4, ORDERS[i], (&d.0, &d.1), (&a, &b), &bseqs, &|_| true));
    }
    // many different keys, interleaved
    let a: Vec<Line> = (0..3000usize).map(|i| (format!("{}_{}", (i as i64 % 61) - 30, (i as i64 * 7 % 53) - 26), i, i + 1)).collect();
    let b: Vec<Line> = (0..3000usize).map(|i| (format!("{}_{}", (i as i64 % 59) - 29, (i as i64 * 5 % 47) - 23), i + 2, i)).collect();
    let d = (write(&dir, "ma", &a), write(&dir, "mb", &b));
    par(6, |i| joined(&k, "many-keys", r::TYPES[i % 3], 4, ORDERS[i], (&d.0, &d.1), (&a, &b), &bseqs, &|_| true));
    k.sample("file", &format!("{:?} joined with {:?}", a[..2].to_vec(), b[..2].to_vec()));
    let _ = std::fs::remove_dir_all(&dir);
    k.done();
}
