// Equivalence of Hadamard matrices (rows and columns permuted and negated), decided by exhaustive
// backtracking over the images of the rows; rows are bit masks, bit set = -1.
pub mod hadamard {
    use std::collections::{BTreeMap, HashSet};
    pub type H = Vec<u128>;

    pub fn ones(n: usize) -> u128 { if n == 128 { !0 } else { (1u128 << n) - 1 } }
    pub fn is_hadamard(h: &H) -> bool { let n = h.len(); (0..n).all(|i| (0..i).all(|j| 2 * (h[i] ^ h[j]).count_ones() as usize == n)) }
    pub fn transpose(h: &H) -> H { let n = h.len(); (0..n).map(|j| (0..n).map(|i| (h[i] >> j & 1) << i).sum()).collect() }
    pub fn from_rows(m: &[Vec<i8>]) -> Option<H> {
        let n = m.len();
        if n == 0 || n > 128 || m.iter().any(|r| r.len() != n || r.iter().any(|x| x.abs() != 1)) { return None; }
        Some(m.iter().map(|r| r.iter().enumerate().map(|(j, &x)| ((x < 0) as u128) << j).sum()).collect())
    }
    pub fn to_rows(h: &H) -> Vec<Vec<i8>> { let n = h.len(); h.iter().map(|r| (0..n).map(|j| if r >> j & 1 == 1 { -1 } else { 1 }).collect()).collect() }
    /// the block-circulant matrix of a quadruple
    pub fn of_quad(q: &[u64; 4], n: usize) -> H {
        const B: [[(usize, u8); 4]; 4] = [[(0, 0), (1, 0), (2, 0), (3, 0)], [(1, 0), (0, 1), (3, 1), (2, 0)], [(2, 0), (3, 0), (0, 1), (1, 1)], [(3, 0), (2, 1), (1, 0), (0, 1)]];
        (0..4 * n).map(|i| (0..4 * n).map(|j| { let (s, m) = B[i / n][j / n]; ((q[s] >> ((j % n + n - i % n) % n) & 1) as u128 ^ m as u128) << j }).sum()).collect()
    }

    pub type Profile = Vec<Vec<(u32, u32)>>;
    fn rowprofiles(h: &H) -> Profile {
        let n = h.len();
        let mut c = vec![vec![0u32; n + 1]; n];
        for a in 0..n { for b in a + 1..n { let x = h[a] ^ h[b]; for d in b + 1..n { let y = x ^ h[d]; for e in d + 1..n {
            let p = (2 * (y ^ h[e]).count_ones() as i32 - n as i32).unsigned_abs() as usize;
            c[a][p] += 1; c[b][p] += 1; c[d][p] += 1; c[e][p] += 1;
        } } } }
        c.into_iter().map(|v| v.into_iter().enumerate().filter(|x| x.1 > 0).map(|(i, x)| (i as u32, x)).collect()).collect()
    }
    /// the same for equivalent matrices (a necessary condition only)
    pub fn invariant(h: &H) -> (usize, Profile, Profile) {
        let (mut a, mut b) = (rowprofiles(h), rowprofiles(&transpose(h)));
        a.sort(); b.sort();
        (h.len(), a, b)
    }

    pub struct Stats { pub nodes: u64 }
    /// Exhaustive: every image of a first row, then of further rows (with both signs) until the columns are told
    /// apart; rows and columns are told apart by counts that equivalent matrices share
    pub fn equivalent(a: &H, b: &H, st: &mut Stats) -> bool {
        let n = a.len();
        if b.len() != n { return false; }
        if n <= 2 { return true; }
        let Some((pa, pb)) = same(&rowprofiles(a), &rowprofiles(b)) else { return false };
        // start with a row of the rarest kind, made all ones
        let a0 = rarest(&pa, |_| true);
        let na: H = a.iter().map(|r| r ^ a[a0]).collect();
        let ca = colours(&pairprofiles(&na), &pa);
        for b0 in 0..n {
            if pb[b0] != pa[a0] { continue; }
            let nb: H = b.iter().map(|r| r ^ b[b0]).collect();
            let Some((ka, kb)) = same(&ca, &colours(&pairprofiles(&nb), &pb)) else { continue };
            let mut s = Search { n, na: &na, nb: &nb, fixed: vec![(a0, b0, false)] };
            if s.go(&ka, &kb, &vec![0; n], &vec![0; n], st) { return true; }
        }
        false
    }
    fn rarest(k: &[usize], ok: impl Fn(usize) -> bool) -> usize { (0..k.len()).filter(|&i| ok(i)).min_by_key(|&i| (k.iter().filter(|&&x| x == k[i]).count(), i)).unwrap() }
    /// h with one row made all ones: per row, how the products with two others are distributed
    fn pairprofiles(h: &H) -> Vec<Vec<u32>> {
        let n = h.len();
        (0..n).map(|i| { let mut v = vec![0; n + 1]; for c in 0..n { for d in 0..c { let y = (h[i] ^ h[c] ^ h[d]).count_ones() as usize; v[y.min(n - y)] += 1; } } v }).collect()
    }
    fn colours<C: Clone, D: Clone>(p: &[C], k: &[D]) -> Vec<(C, D)> { p.iter().cloned().zip(k.iter().cloned()).collect() }
    /// numbers the colours; None if they do not occur equally often
    fn same<C: Ord>(a: &[C], b: &[C]) -> Option<(Vec<usize>, Vec<usize>)> {
        let mut m: BTreeMap<&C, (usize, usize)> = BTreeMap::new();
        for x in a { m.entry(x).or_default().0 += 1; }
        for x in b { m.entry(x).or_default().1 += 1; }
        if m.values().any(|x| x.0 != x.1) { return None; }
        let id: BTreeMap<&C, usize> = m.keys().enumerate().map(|(i, x)| (*x, i)).collect();
        Some((a.iter().map(|x| id[x]).collect(), b.iter().map(|x| id[x]).collect()))
    }
    struct Search<'a> { n: usize, na: &'a H, nb: &'a H, fixed: Vec<(usize, usize, bool)> }
    type RowKey = (usize, usize, Vec<u32>, bool);
    impl Search<'_> {
        /// per row: its colour, with the counts of -1 per column cell up to the sign of the row; and the sign, where the counts decide it
        fn rows(&self, side: usize, rowcol: &[usize], cells: &[usize]) -> (Vec<RowKey>, Vec<Option<bool>>) {
            let h = if side == 0 { self.na } else { self.nb };
            let m = cells.iter().max().unwrap() + 1;
            let mut masks = vec![0u128; m];
            for (j, &c) in cells.iter().enumerate() { masks[c] |= 1 << j; }
            (0..self.n).map(|i| {
                let f = self.fixed.iter().position(|x| if side == 0 { x.0 == i } else { x.1 == i });
                let v: Vec<u32> = masks.iter().map(|x| (h[i] & x).count_ones()).collect();
                let w: Vec<u32> = masks.iter().zip(&v).map(|(x, y)| x.count_ones() - y).collect();
                let sign = match f { Some(x) => Some(side == 1 && self.fixed[x].2), None => match v.cmp(&w) { std::cmp::Ordering::Less => Some(false), std::cmp::Ordering::Greater => Some(true), _ => None } };
                ((rowcol[i], f.map_or(usize::MAX, |x| x), if sign == Some(true) { w } else { v }, sign.is_some()), sign)
            }).unzip()
        }
        fn columns(&self, side: usize, rowcol: &[usize], sign: &[Option<bool>], cells: &[usize]) -> Vec<(usize, Vec<u32>)> {
            let h = if side == 0 { self.na } else { self.nb };
            let m = rowcol.iter().max().unwrap() + 1;
            (0..self.n).map(|j| { let mut v = vec![0; m]; for i in 0..self.n { if let Some(s) = sign[i] { v[rowcol[i]] += (h[i] >> j & 1 == 1) as u32 ^ s as u32; } } (cells[j], v) }).collect()
        }
        fn go(&mut self, ka: &[usize], kb: &[usize], ca: &[usize], cb: &[usize], st: &mut Stats) -> bool {
            st.nodes += 1;
            let (mut ka, mut kb, mut ca, mut cb) = (ka.to_vec(), kb.to_vec(), ca.to_vec(), cb.to_vec());
            let (mut sa, mut sb);
            loop {
                let count = |x: &[usize]| x.iter().max().unwrap() + 1;
                let before = (count(&ka), count(&ca));
                let (ra, rb);
                (ra, sa) = self.rows(0, &ka, &ca);
                (rb, sb) = self.rows(1, &kb, &cb);
                let Some(x) = same(&ra, &rb) else { return false };
                (ka, kb) = x;
                let Some(x) = same(&self.columns(0, &ka, &sa, &ca), &self.columns(1, &kb, &sb, &cb)) else { return false };
                (ca, cb) = x;
                if before == (count(&ka), count(&ca)) { break; }
            }
            if *ca.iter().max().unwrap() + 1 == self.n { return self.verify(&ca, &cb); }
            let isfixed = |i: usize, f: &Vec<(usize, usize, bool)>| f.iter().any(|x| x.0 == i);
            let open: Vec<usize> = (0..self.n).filter(|&i| !isfixed(i, &self.fixed)).collect();
            if open.is_empty() { return false; } // the columns of a Hadamard matrix differ
            let i = rarest(&ka, |i| open.contains(&i));
            for j in 0..self.n {
                if kb[j] != ka[i] || self.fixed.iter().any(|x| x.1 == j) { continue; }
                for flip in [false, true] {
                    // row i keeps its sign; where counts decide the signs, they must agree
                    if let (Some(x), Some(y)) = (sa[i], sb[j]) { if flip != (x != y) { continue; } }
                    self.fixed.push((i, j, flip));
                    let ok = self.go(&ka, &kb, &ca, &cb, st);
                    self.fixed.pop();
                    if ok { return true; }
                }
            }
            false
        }
        /// all rows correspond under the correspondence of the columns
        fn verify(&self, ca: &[usize], cb: &[usize]) -> bool {
            let mut at = vec![0; self.n];
            for (j, &c) in cb.iter().enumerate() { at[c] = j; }
            let full = ones(self.n);
            let rows: HashSet<u128> = self.nb.iter().map(|&r| r.min(!r & full)).collect();
            let images: HashSet<u128> = self.na.iter().map(|r| { let x: u128 = (0..self.n).map(|j| (r >> j & 1) << at[ca[j]]).sum(); x.min(!x & full) }).collect();
            images.len() == self.n && images == rows
        }
    }

    /// Splits matrices into classes: the class number of each, and one representative of each class
    #[derive(Default)]
    pub struct Classes { pub reps: Vec<H>, by: BTreeMap<(usize, Profile, Profile), Vec<usize>>, pub nodes: u64 }
    impl Classes {
        pub fn find(&mut self, h: &H) -> Option<usize> {
            let k = invariant(h);
            let mut st = Stats { nodes: 0 };
            let r = self.by.get(&k).and_then(|v| v.iter().cloned().find(|&i| equivalent(&self.reps[i], h, &mut st)));
            self.nodes += st.nodes;
            r
        }
        pub fn add(&mut self, h: &H) -> usize {
            if let Some(i) = self.find(h) { return i; }
            self.by.entry(invariant(h)).or_default().push(self.reps.len());
            self.reps.push(h.clone());
            self.reps.len() - 1
        }
    }

    /// Matrices obtained by negating, for four rows whose product is constant, the columns where three agree in sign
    pub fn switched(h: &H) -> Vec<H> {
        let n = h.len();
        let mut v = vec![];
        for a in 0..n { for b in a + 1..n { for c in b + 1..n { for d in c + 1..n {
            let p = h[a] ^ h[b] ^ h[c] ^ h[d];
            if p != 0 && p != ones(n) { continue; }
            // columns of the four rows fall, up to sign, into four kinds; negate one kind within the four rows
            let mut kinds: BTreeMap<u32, u128> = BTreeMap::new();
            for j in 0..n { let k = [a, b, c, d].iter().enumerate().map(|(x, &r)| ((h[r] >> j & 1) as u32) << x).sum::<u32>(); let k = k.min(k ^ 15); *kinds.entry(k).or_default() |= 1 << j; }
            for m in kinds.values() { let mut x = h.clone(); for r in [a, b, c, d] { x[r] ^= m; } if is_hadamard(&x) { v.push(x); } }
        } } } }
        v
    }
}
