// Reading operators of the program, and complex matrices of the reference
use crate::sequences::mum::*;
pub type C = (f64, f64);
pub type Mx = Vec<Vec<C>>;
/// the entries of an operator, read from its text
pub fn entries(o: &Operator) -> Option<Mx> {
    let n = o.size();
    let m: Mx = o.to_string().lines().map(|l| l.split_whitespace().filter(|x| *x != "|").map(|x| {
        let x = x.strip_suffix('i')?;
        (1..x.len()).find_map(|p| if "+-".contains(&x[p..p + 1]) { Some((x[..p].parse().ok()?, x[p..].trim_start_matches('+').parse().ok()?)) } else { None })
    }).collect::<Option<Vec<C>>>()).collect::<Option<Mx>>()?;
    if m.len() == n && m.iter().all(|r| r.len() == n) { Some(m) } else { None }
}
pub fn cadd(a: C, b: C) -> C { (a.0 + b.0, a.1 + b.1) }
pub fn cmul(a: C, b: C) -> C { (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0) }
pub fn madd(a: &Mx, b: &Mx) -> Mx { a.iter().zip(b).map(|(x, y)| x.iter().zip(y).map(|(p, q)| cadd(*p, *q)).collect()).collect() }
pub fn mscale(a: &Mx, s: C) -> Mx { a.iter().map(|r| r.iter().map(|x| cmul(*x, s)).collect()).collect() }
pub fn mmul(a: &Mx, b: &Mx) -> Mx { let n = a.len(); (0..n).map(|i| (0..n).map(|j| (0..n).fold((0., 0.), |s, k| cadd(s, cmul(a[i][k], b[k][j])))).collect()).collect() }
pub fn mdag(a: &Mx) -> Mx { let n = a.len(); (0..n).map(|i| (0..n).map(|j| (a[j][i].0, -a[j][i].1)).collect()).collect() }
pub fn mtensor(a: &Mx, b: &Mx) -> Mx { let (n, m) = (a.len(), b.len()); (0..n * m).map(|i| (0..n * m).map(|j| cmul(a[i / m][j / m], b[i % m][j % m])).collect()).collect() }
pub fn mid(n: usize, s: f64) -> Mx { (0..n).map(|i| (0..n).map(|j| if i == j { (s, 0.) } else { (0., 0.) }).collect()).collect() }
/// an operator of the program with the given entries
pub fn operator(m: &Mx) -> Operator {
    let n = m.len();
    let mut o = Operator::empty(n);
    for i in 0..n { for j in 0..n { if m[i][j] != (0., 0.) { o = o + &(computational_basis(n, i, j) * num_complex::Complex::new(m[i][j].0 as f32, m[i][j].1 as f32)); } } }
    o
}
