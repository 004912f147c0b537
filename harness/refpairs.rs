// pairs TYPE N PAIRING DIR: checks the pair files (sorted or not) of every rowsum directory of DIR.
// Prints "BAD key: message" lines and at the end "pairs P lines L quads Q extendable E dirs D".
fn parse_pm(s: &str, n: usize) -> Option<B> {
    if s.len() != n { return None; }
    let mut r = 0;
    for (i, c) in s.chars().enumerate() { match c { '+' => {} '-' => r |= 1 << i, _ => return None } }
    Some(r)
}

fn pairs_main(a: &[String]) {
    let (t, n, pairing, dir) = (tparse(&a[0]), a[1].parse::<usize>().unwrap(), a[2].as_str(), &a[3]);
    let half = n / 2;
    let (l, r): ([usize; 2], [usize; 2]) = match pairing { "WX" => ([0, 1], [2, 3]), "WY" => ([0, 2], [1, 3]), _ => ([0, 3], [1, 2]) };
    let names = ["W", "X", "Y", "Z"];
    let (mut np, mut nl, mut nq, mut ne, mut nd, mut nm) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut dirs: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap()).filter(|e| e.file_type().unwrap().is_dir()).map(|e| e.file_name().into_string().unwrap()).collect();
    dirs.sort();
    let mut done: HashSet<Vec<i64>> = HashSet::new();
    for d in dirs {
        let rs: Vec<i64> = match d.strip_prefix("rowsum_").map(|x| x.split('_').map(|y| y.parse::<i64>()).collect::<Result<Vec<_>, _>>()) { Some(Ok(v)) if v.len() == 4 => v, _ => continue };
        nd += 1;
        done.insert(rs.clone());
        let read = |f: &str| -> Option<Vec<String>> { std::fs::read_to_string(format!("{dir}/{d}/{f}")).ok().map(|s| s.lines().map(|x| x.to_string()).collect()) };
        // the sequences are those of the directory: what the indices refer to
        let mut seqs: Vec<Vec<B>> = vec![];
        let mut bad = false;
        for x in names {
            match read(&format!("seq_{x}.seq")).map(|v| v.iter().map(|s| parse_pm(s, n)).collect::<Option<Vec<B>>>()) {
                Some(Some(v)) => seqs.push(v),
                _ => { println!("BAD seq {d}: seq_{x}.seq is missing or unreadable"); bad = true; seqs.push(vec![]); }
            }
        }
        if bad { continue; }
        // the exact vector of a pair: what has to be equal on both sides (the right side negated)
        let vec_of = |i: usize, j: usize, x: B, y: B, right: bool| -> Vec<i32> {
            let s = if right { -1 } else { 1 };
            let mut v: Vec<i32> = (1..=half).map(|k| s * (paf(x, n, k) + paf(y, n, k))).collect();
            if t == T::Qts {
                // the condition of the pairing, with Z as the real part: for WX asym(w,x) + asym(z,y) = 0, for WY
                // asym(y,w) + asym(z,x) = 0, for WZ asym(z,w) + asym(x,y) = 0
                let flip = if j == 3 || (i, j) == (0, 2) { -1 } else { 1 };
                v.extend((1..=half).map(|k| s * flip * asym(x, y, n, k)));
            }
            v
        };
        // all pairs that are part of a valid quadruple of sequences with these rowsums
        let all: Vec<Vec<B>> = rs.iter().map(|&s| (0..(1u64 << n)).filter(|&x| rowsum(x, n) as i64 == s && (t != T::Ws || symmetric(x, n))).collect()).collect();
        let mut left: HashMap<Vec<i32>, Vec<(B, B)>> = HashMap::new();
        for &x in &all[l[0]] { for &y in &all[l[1]] {
            np += 1;
            if t == T::Wts && !amicable2(x, y, n) { continue; }
            left.entry(vec_of(l[0], l[1], x, y, false)).or_default().push((x, y));
        } }
        let mut need: [HashSet<(B, B)>; 2] = [HashSet::new(), HashSet::new()];
        for &x in &all[r[0]] { for &y in &all[r[1]] {
            np += 1;
            if t == T::Wts && !amicable2(x, y, n) { continue; }
            if let Some(ps) = left.get(&vec_of(r[0], r[1], x, y, true)) {
                for &(a, b) in ps {
                    let mut q = [0; 4];
                    q[l[0]] = a; q[l[1]] = b; q[r[0]] = x; q[r[1]] = y;
                    if valid(t, &q, n) { nq += 1; need[0].insert((a, b)); need[1].insert((x, y)); }
                }
            }
        } }
        ne += (need[0].len() + need[1].len()) as u64;
        // per file: the keys of each vector, and the vectors of each key
        let mut text_of: [BTreeMap<Vec<i32>, BTreeSet<String>>; 2] = Default::default();
        let mut vec_of_text: [BTreeMap<String, BTreeSet<Vec<i32>>>; 2] = Default::default();
        for (side, ij) in [l, r].iter().enumerate() {
            let f = format!("pair_{}{}.pair", names[ij[0]], names[ij[1]]);
            let Some(lines) = read(&format!("{f}.sorted")).or_else(|| read(&f)) else { println!("BAD file {d}: {f} is missing"); continue };
            let mut seen: HashSet<(usize, usize)> = HashSet::new();
            let mut have: HashSet<(B, B)> = HashSet::new();
            for line in &lines {
                nl += 1;
                let Some((key, idx)) = line.rsplit_once(":_") else { println!("BAD line {d}: {line:?} in {f}"); continue };
                let ix: Vec<usize> = idx.split('_').filter_map(|x| x.parse().ok()).collect();
                if ix.len() != 2 || ix[0] >= seqs[ij[0]].len() || ix[1] >= seqs[ij[1]].len() { println!("BAD index {d}: {line:?} in {f}"); continue; }
                if !seen.insert((ix[0], ix[1])) { println!("BAD twice {d}: the pair {ix:?} is listed twice in {f}"); }
                let (x, y) = (seqs[ij[0]][ix[0]], seqs[ij[1]][ix[1]]);
                have.insert((x, y));
                if t == T::Wts && !amicable2(x, y, n) { println!("BAD amicable {d}: {line:?} in {f} is not an amicable pair"); }
                let v = vec_of(ij[0], ij[1], x, y, side == 1);
                text_of[side].entry(v.clone()).or_default().insert(key.to_string());
                vec_of_text[side].entry(key.to_string()).or_default().insert(v);
            }
            for p in &need[side] { if !have.contains(p) { println!("BAD missing {d}: the pair {} {} is not in {f}, but part of a valid quadruple", b_to_str(p.0, n), b_to_str(p.1, n)); break; } }
        }
        // a line of each file: equal keys just when the correlations cancel
        for (v, k) in &text_of[0] {
            let Some(m) = text_of[1].get(v) else { continue };
            nm += 1;
            if k.len() > 1 || m != k { println!("BAD split {d}: {k:?} and {m:?} should be one key, as the correlations of all are {v:?} (negated in the second file)"); }
        }
        for (k, v) in &vec_of_text[0] {
            let Some(w) = vec_of_text[1].get(k) else { continue };
            if v.len() > 1 || w != v { println!("BAD merge {d}: the key {k:?} stands for the correlations {v:?} and, negated, {w:?}"); }
        }
    }
    // rowsums of valid quadruples without a directory are the business of another check
    println!("pairs {np} lines {nl} quads {nq} extendable {ne} dirs {nd} decompositions {} matching {nm}", done.len());
}
