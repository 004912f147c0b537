//opt-file
// The in-memory matching table: the same pairs and keys as the definitions
use super::{kit::*, reference as r};
use crate::sequences::{matching::{generate_matching_table, MatchData}, rowsum::generate_sequences_with_rowsum, williamson::SequenceTag};
use std::collections::{HashMap, HashSet};

fn tag(i: usize) -> SequenceTag { match i { 0 => SequenceTag::W, 1 => SequenceTag::X, 2 => SequenceTag::Y, _ => SequenceTag::Z } }

pub fn main() {
    let k = Kit::new();
    let max = if k.thorough { 8 } else { 6 };
    for n in 1..=max {
        for q in r::rowsum_quads(n).iter().filter(|q| 0 <= q[0] && q[0] <= q[1] && q[1] <= q[2] && q[2] <= q[3].abs()) {
            for (i, j, sign) in [(0usize, 1usize, 1), (0, 2, -1), (3, 0, 1), (1, 2, 1), (3, 1, 1), (3, 2, 1), (1, 3, -1), (0, 3, -1)] {
                let nm = format!("n={n} rowsums={q:?} tags={i}{j}");
                let (Ok(a), Ok(b)) = (Kit::quiet(|| generate_sequences_with_rowsum(q[i] as isize, n)), Kit::quiet(|| generate_sequences_with_rowsum(q[j] as isize, n))) else { continue };
                k.count("traces", 1);
                let tags = (tag(i), tag(j));
                let Some(table) = k.guard(&format!("table-panic {nm}"), || nm.clone(), || generate_matching_table(&a, &b, &tags, n)) else { continue };
                // what each pair needs: its own key, looked up through the constructor
                let mut have: HashMap<(r::B, r::B), u32> = HashMap::new();
                for (key, l) in &table {
                    for (x, y) in l {
                        let (Some(x), Some(y)) = (r::vec_to_b(x), r::vec_to_b(y)) else { continue };
                        *have.entry((x, y)).or_insert(0) += 1;
                        k.count("transitions", 1);
                        let pafs: Vec<isize> = (1..=n / 2).map(|t| (r::paf(x, n, t) + r::paf(y, n, t)) as isize).collect();
                        let cr: Vec<isize> = (1..=n / 2).map(|t| (-sign * r::asym(x, y, n, t)) as isize).collect();
                        k.check(*key == MatchData::new(pafs, cr), &format!("table-key {nm}"), || format!("the key of {x:b} {y:b} is not its correlations"));
                    }
                }
                k.check(have.values().all(|&c| c == 1), &format!("table-twice {nm}"), || "a pair is stored twice".into());
                // every pair whose power spectra do not exceed 4n has to be there
                let xs: HashSet<r::B> = a.iter().filter_map(|v| r::vec_to_b(v)).collect();
                let ys: HashSet<r::B> = b.iter().filter_map(|v| r::vec_to_b(v)).collect();
                let psd = |s: r::B, w: usize| -> f64 { (0..n).map(|t| r::paf(s, n, t) as f64 * (std::f64::consts::TAU * (w * t) as f64 / n as f64).cos()).sum() };
                for &x in &xs { for &y in &ys {
                    k.count("states", 1);
                    if (0..n).all(|w| psd(x, w) + psd(y, w) <= 4.0 * n as f64 + 1e-9) && !have.contains_key(&(x, y)) {
                        k.violation(&format!("table-missing {nm}"), &format!("{} {} is not in the table", r::b_to_str(x, n), r::b_to_str(y, n)));
                    }
                } }
            }
        }
    }
    given(&k); //opt
    k.done();
}

//[opt
// The pair files of given lists of sequences: long ones and long lists
type Lines = HashMap<(usize, usize), String>;
fn written(k: &Kit, nm: &str, t: r::T, n: usize, l: [&Vec<Vec<i8>>; 2], o: [usize; 2], rs: [isize; 4], dir: &String, left: bool, psd: bool) -> Option<Lines> {
    use crate::find::find_write::{write_seq_pairs, EquationSide, MatchOption};
    let (a, b) = (tag(o[0]), tag(o[1]));
    k.guard(&format!("given-panic {nm}"), || nm.to_string(), || { write_seq_pairs((l[0], l[1]), (&a, &b), st(t), (rs[0], rs[1], rs[2], rs[3]), n, dir, if left { EquationSide::LEFT } else { EquationSide::RIGHT }, if psd { MatchOption::PSD } else { MatchOption::CORRELATION }); })?;
    let f = std::fs::read_to_string(format!("{dir}/pair_{}{}.pair", ["W", "X", "Y", "Z"][o[0]], ["W", "X", "Y", "Z"][o[1]])).unwrap_or_default();
    let mut out = Lines::new();
    for x in f.lines() {
        let p = x.rsplit_once(":_").and_then(|(key, ix)| { let (i, j) = ix.split_once('_')?; Some((key.to_string(), i.parse::<usize>().ok()?, j.parse::<usize>().ok()?)) });
        let ok = match p { Some((key, i, j)) if i < l[0].len() && j < l[1].len() => out.insert((i, j), key).is_none(), _ => false };
        if !k.check(ok, &format!("given-line {nm}"), || format!("{nm}: the line {x} is malformed, out of range or repeated")) { return None; }
        k.count("transitions", 1);
    }
    Some(out)
}

/// All lists hold variations of one quadruple; `valid` names the combinations that are valid
fn lists(k: &Kit, nm: &str, t: r::T, n: usize, l: &[Vec<Vec<i8>>; 4], valid: &[[usize; 4]], dir: &String, corr: bool) {
    let rs = [0, 1, 2, 3].map(|s: usize| l[s][0].iter().map(|&x| x as isize).sum::<isize>());
    for o in [[0usize, 1, 2, 3], [0, 2, 1, 3], [0, 3, 1, 2]] { for psd in [true, false] {
        if !psd && !corr { continue; }
        let nm = format!("{nm} order={o:?} psd={psd}");
        k.count("traces", 1);
        let (Some(a), Some(b)) = (written(k, &nm, t, n, [&l[o[0]], &l[o[1]]], [o[0], o[1]], rs, dir, true, psd), written(k, &nm, t, n, [&l[o[2]], &l[o[3]]], [o[2], o[3]], rs, dir, false, psd)) else { continue };
        for v in valid {
            let (x, y) = (a.get(&(v[o[0]], v[o[1]])), b.get(&(v[o[2]], v[o[3]])));
            k.count("states", 1);
            k.check(x.is_some() && x == y, &format!("given-key {nm}"), || format!("{nm}: the lines of the valid combination {v:?} of the lists are {x:?} and {y:?}"));
        }
    } }
}

fn given(k: &Kit) {
    let dir = std::env::current_dir().unwrap().display().to_string() + "/given";
    let vary = |v: &Vec<i8>, t: usize, a: usize| -> Vec<i8> { let n = v.len(); (0..n).map(|i| v[(i * a + t) % n]).collect() };
    // a valid quadruple, its sequences rotated and taken at multiples independently of each other
    let mut quads: Vec<(r::T, [Vec<i8>; 4])> = vec![];
    for v in long() { if v[0].len() > if k.thorough { 126 } else { 75 } { continue; } for t in r::TYPES { quads.push((t, v.clone())); } }
    for t in [r::T::Qts, r::T::Wts] { for n in 7..=21 { for q in published(t, n) { quads.push((t, q.map(|s| r::b_to_vec(s, n)))); } } }
    par(quads.len(), |x| {
        let (t, v) = &quads[quads.len() - 1 - x];
        let n = v[0].len();
        let d = format!("{dir}/{x}");
        std::fs::create_dir_all(&d).unwrap();
        let units: Vec<usize> = r::units(n).into_iter().filter(|&u| 2 * u < n || n < 3).collect();
        let us: Vec<usize> = units.iter().cloned().take(4).collect();
        let ts: Vec<usize> = if *t == r::T::Ws { vec![0] } else { vec![0, 1, n / 2, n - 1] };
        let l = [0, 1, 2, 3].map(|s: usize| us.iter().flat_map(|&u| ts.iter().map(move |&h| (u, h))).map(|(u, h)| vary(&v[s], h, u)).collect::<Vec<_>>());
        let m = l[0].len();
        let valid: Vec<[usize; 4]> = (0..m).map(|i| [i; 4]).collect();
        lists(k, &format!("{} n={n} {x}", r::tname(*t)), *t, n, &l, &valid, &d, n < 64 || k.thorough);
        let _ = std::fs::remove_dir_all(&d);
    });
    // long lists: many sequences before the one that matters
    par(12, |x| {
        let d = format!("{dir}/many{x}");
        std::fs::create_dir_all(&d).unwrap();
        let base: [Vec<i8>; 4] = [vec![-1, 1, 1, 1], vec![1, 1, -1, 1], vec![1, -1, -1, -1], vec![-1, -1, 1, -1]];
        let (s, t) = (x % 4, r::TYPES[x / 4]);
        let many = [257usize, 1001, 32769, 66000];
        let mut l = base.clone().map(|v| vec![v]);
        l[s] = (0..many[3]).map(|i| if many.contains(&(i + 1)) { base[s].clone() } else if t == r::T::Ws { vary(&base[s], 2, 1) } else { vary(&base[s], i % 4, 1) }).collect();
        let valid: Vec<[usize; 4]> = many.iter().map(|&i| { let mut v = [0; 4]; v[s] = i - 1; v }).collect();
        lists(k, &format!("{} many {s}", r::tname(t)), t, 4, &l, &valid, &d, true);
        let _ = std::fs::remove_dir_all(&d);
    });
}
//]
