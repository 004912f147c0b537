// C21: quaternion operators, measurement operators and unitaries.
use super::{kit::*, reference as r};
use crate::sequences::{matrices::QHM, sequence::QS};
use cgmath::Quaternion;
include!("ops.rs");

fn quat(q: &[f32; 4]) -> Quaternion<f32> { Quaternion::new(q[0], q[1], q[2], q[3]) }
fn mulq(a: &[f32; 4], b: &[f32; 4]) -> [f32; 4] {
    [a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3], a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2], a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1], a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]]
}
fn op(k: &Kit, q: &[f32; 4]) -> Option<Mx> {
    let o = k.guard("panic-operator", || format!("{q:?}"), || quaternion_to_operator(&quat(q)))?;
    let m = entries(&o);
    k.check(o.size() == 2 && m.is_some(), "operator-size", || format!("the operator of {q:?} has size {} and text {:?}", o.size(), o.to_string()));
    m
}
fn eq(k: &Kit, key: &str, got: Option<Mx>, want: &Mx, what: impl FnOnce() -> String) { k.count("transitions", 1); k.check(got.as_ref() == Some(want), key, || format!("{}: {got:?}, expected {want:?}", what())); }

fn quaternions(k: &Kit) {
    // the integer quaternions with entries up to two and the 24 units, with all sums and products
    let mut qs: Vec<[f32; 4]> = vec![];
    let top: i32 = if k.thorough { 2 } else { 1 };
    let w = (2 * top + 1) as i32;
    for x in 0..w.pow(4) { qs.push([(x % w - top) as f32, (x / w % w - top) as f32, (x / w / w % w - top) as f32, (x / w / w / w - top) as f32]); }
    for c in r::ALPHABET24.chars() { let d = r::decode(c).unwrap(); let q = [d[0] as f32 / 2., d[1] as f32 / 2., d[2] as f32 / 2., d[3] as f32 / 2.]; if !qs.contains(&q) { qs.push(q); } }
    for q in [[0.5, 0., 0., 0.], [0., 0.25, 3., -2.], [7., -5., 3., 0.5], [2., 0., 0., 0.], [0., 0., 4., 0.]] { if !qs.contains(&q) { qs.push(q); } }
    let ops: Vec<Option<Mx>> = qs.iter().map(|q| op(k, q)).collect();
    let Some(ops) = ops.into_iter().collect::<Option<Vec<Mx>>>() else { return };
    let find: std::collections::HashMap<[i32; 4], usize> = qs.iter().enumerate().map(|(i, q)| (q.map(|x| (x * 8.) as i32), i)).collect();
    let of = |q: &[f32; 4]| match find.get(&q.map(|x| (x * 8.) as i32)) { Some(&i) => Some(ops[i].clone()), None => op(k, q) };
    k.check(of(&[1., 0., 0., 0.]) == Some(mid(2, 1.)), "operator-one", || format!("the operator of 1 is {:?}", of(&[1., 0., 0., 0.])));
    k.check(of(&[0.; 4]) == Some(mid(2, 0.)), "operator-zero", || format!("the operator of 0 is {:?}", of(&[0.; 4])));
    par(qs.len(), |i| {
        let a = &qs[i];
        eq(k, "operator-conjugate", op(k, &[a[0], -a[1], -a[2], -a[3]]), &mdag(&ops[i]), || format!("the operator of the conjugate of {a:?}"));
        let t = Kit::quiet(|| quaternion_to_operator(&quat(a)).conjugate_transpose());
        eq(k, "operator-conjugate", t.ok().and_then(|t| entries(&t)), &mdag(&ops[i]), || format!("the conjugate transpose of the operator of {a:?}"));
        let norm = a.iter().map(|x| (x * x) as f64).sum::<f64>();
        eq(k, "operator-norm", Some(mmul(&ops[i], &mdag(&ops[i]))), &mid(2, norm), || format!("the operator of {a:?} times its conjugate transpose"));
        for (j, b) in qs.iter().enumerate() {
            let s = [a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]];
            eq(k, "operator-sum", of(&s), &madd(&ops[i], &ops[j]), || format!("the operator of {a:?} + {b:?}"));
            eq(k, "operator-product", of(&mulq(a, b)), &mmul(&ops[i], &ops[j]), || format!("the operator of {a:?} times {b:?}"));
            if i != j { k.check(ops[i] != ops[j], "operator-injective", || format!("{a:?} and {b:?} have the same operator")); }
        }
        for s in [-2.0f32, 0.5, 3.] { eq(k, "operator-scaled", of(&a.map(|x| x * s)), &mscale(&ops[i], (s as f64, 0.)), || format!("the operator of {s} times {a:?}")); }
    });
    k.count("states", (qs.len() * qs.len()) as u64);
}

fn laws(k: &Kit) {
    let vals: [C; 4] = [(0., 0.), (1., 0.), (0., 1.), (-1., 2.)];
    // all operators of dimension 1 and 2 over four values; some of dimension 3 and 4; basis operators
    let mut ms: Vec<Mx> = vals.iter().map(|&v| vec![vec![v]]).collect();
    for x in 0..256usize { ms.push((0..2).map(|i| (0..2).map(|j| vals[x >> (2 * (2 * i + j)) & 3]).collect()).collect()); }
    for n in 3..=4usize { for a in 0..6 { ms.push((0..n).map(|i| (0..n).map(|j| vals[(i * a + j * j + i * j * a + a) % 4]).collect()).collect()); } }
    let ops: Vec<Operator> = ms.iter().map(operator).collect();
    for (m, o) in ms.iter().zip(&ops) { eq(k, "entries", entries(o), m, || "an operator built from its entries".into()); }
    for n in 1..=5usize {
        k.check(entries(&Operator::empty(n)) == Some(mid(n, 0.)) && Operator::empty(n).size() == n, "empty", || format!("dimension {n}"));
        for i in 0..n { for j in 0..n {
            let mut w = mid(n, 0.); w[i][j] = (1., 0.);
            //[opt
            eq(k, "basis", entries(&computational_basis(n, i, j)), &w, || format!("basis operator {i}, {j} of dimension {n}"));
            //]
        } }
    }
    for x in 0..256usize {
        let v = |i: usize| { let c = vals[x >> (2 * i) & 3]; (c.0 as f32, c.1 as f32) };
        eq(k, "make", entries(&make_operator(v(0), v(1), v(2), v(3))), &vec![vec![vals[x & 3], vals[x >> 2 & 3]], vec![vals[x >> 4 & 3], vals[x >> 6 & 3]]], || format!("make_operator {x}")); //opt
    }
    let h = |m: &Mx| format!("{m:?}");
    par(ms.len(), |i| {
        let (a, oa) = (&ms[i], &ops[i]);
        eq(k, "transpose", Kit::quiet(|| oa.conjugate_transpose()).ok().and_then(|x| entries(&x)), &mdag(a), || format!("the conjugate transpose of {}", h(a)));
        for s in vals { eq(k, "scaled", Kit::quiet(|| oa.clone() * num_complex::Complex::new(s.0 as f32, s.1 as f32)).ok().and_then(|x| entries(&x)), &mscale(a, s), || format!("{} times {s:?}", h(a))); }
        for j in 0..ms.len() {
            let (b, ob) = (&ms[j], &ops[j]);
            if a.len() == b.len() { eq(k, "sum", Kit::quiet(|| oa.clone() + ob).ok().and_then(|x| entries(&x)), &madd(a, b), || format!("{} + {}", h(a), h(b))); }
            if i > 40 && j > 40 && (i * 7 + j) % 5 != 0 && !k.thorough { continue; }
            let t = Kit::quiet(|| oa.tensor(ob)).ok();
            k.check(t.as_ref().map(|t| t.size()) == Some(a.len() * b.len()), "tensor-size", || format!("the tensor product of dimensions {} and {}", a.len(), b.len()));
            eq(k, "tensor", t.as_ref().and_then(entries), &mtensor(a, b), || format!("the tensor product of {} and {}", h(a), h(b)));
            // the laws themselves, with the program's operations only
            let Some(t) = t else { continue };
            k.check(Kit::quiet(|| t.conjugate_transpose() == oa.conjugate_transpose().tensor(&ob.conjugate_transpose())) == Ok(true), "tensor-transpose", || format!("{} and {}", h(a), h(b)));
            let (c, oc) = (&ms[(i + 3 * j) % ms.len()], &ops[(i + 3 * j) % ms.len()]);
            if a.len() * b.len() * c.len() <= 32 { k.check(Kit::quiet(|| t.tensor(oc) == oa.tensor(&ob.tensor(oc))) == Ok(true), "tensor-associative", || format!("{}, {} and {}", h(a), h(b), h(c))); }
            if b.len() == c.len() { k.check(Kit::quiet(|| oa.tensor(&(ob.clone() + oc)) == t + &oa.tensor(oc)) == Ok(true), "tensor-distributive", || format!("{}, {} and {}", h(a), h(b), h(c))); }
            k.count("transitions", 3);
        }
    });
    k.count("states", (ms.len() * ms.len()) as u64);
}

fn qmatrix(k: &Kit, name: &str, m: &QHM, hadamard: bool) -> Option<(Operator, usize)> {
    let n = m.size();
    let key = |s: &str| format!("{s} n={n}");
    let o = |x: Quaternion<f32>| entries(&quaternion_to_operator(&x)).unwrap();
    k.count("states", 1);
    // The program conjugates the entries without transposing the matrix, so what it builds is unitary (the measurement complete)
    // only if the rows are orthogonal with the conjugate on the left as well; otherwise: known findings
    let both = (0..n).all(|i| (0..n).all(|j| { let s = (0..n).fold([0.0; 4], |s, c| { let f = |x: Quaternion<f32>| [x.s, x.v.x, x.v.y, x.v.z]; let a = f(m.get(i, c).conjugate()); let p = mulq(&a, &f(m.get(j, c))); [s[0] + p[0], s[1] + p[1], s[2] + p[2], s[3] + p[3]] }); s == [if i == j { n as f32 } else { 0. }, 0., 0., 0.] }));
    let columns = (0..n).all(|i| (0..n).all(|j| { let s = (0..n).fold([0.0; 4], |s, c| { let f = |x: Quaternion<f32>| [x.s, x.v.x, x.v.y, x.v.z]; let a = f(m.get(c, i)); let p = mulq(&a, &f(m.get(c, j).conjugate())); [s[0] + p[0], s[1] + p[1], s[2] + p[2], s[3] + p[3]] }); s == [if i == j { n as f32 } else { 0. }, 0., 0., 0.] }));
    // the measurement operators
    if let Some(mum) = k.guard(&key("panic-mum"), || name.to_string(), || MUM::from_qhm(m)) {
        k.check(mum.length() == n && mum.matrix_size() == 2 * n, &key("mum-size"), || format!("{name}: {} operators of dimension {}", mum.length(), mum.matrix_size()));
        let mut sum = mid(2 * n, 0.);
        for (b, x) in mum.values().iter().enumerate() {
            // the definition: the sum of the operators of h(b,j) times the conjugate of h(b,k), tensor |j><k|
            let bl: Vec<Vec<Mx>> = (0..n).map(|j| (0..n).map(|l| o(m.get(b, j) * m.get(b, l).conjugate())).collect()).collect();
            let want: Mx = (0..2 * n).map(|i| (0..2 * n).map(|j| bl[i % n][j % n][i / n][j / n]).collect()).collect();
            let got = entries(x);
            eq(k, &key("mum"), got.clone(), &want, || format!("measurement operator {b} of {name}"));
            let Some(got) = got else { return None };
            k.check(got == mdag(&got) && mmul(&got, &got) == mscale(&got, (n as f64, 0.)), &key("mum-projector"), || format!("measurement operator {b} of {name} is not {n} times a projector"));
            sum = madd(&sum, &got);
        }
        if hadamard { k.check(sum == mid(2 * n, n as f64), &(if columns { key("mum-complete") } else { "mum-not-complete".to_string() }), || format!("the measurement operators of {name} do not add up to {n} times the identity")); }
    }
    // the unitary
    let u = k.guard(&key("panic-unitary"), || name.to_string(), || HMUO::from_qhm(m))?;
    k.check(u.matrix_size() == 2 * n && u.value().size() == 2 * n, &key("unitary-size"), || format!("{name}: dimension {}", u.matrix_size()));
    let bl: Vec<Vec<Mx>> = (0..n).map(|j| (0..n).map(|l| o(m.get(j, l).conjugate())).collect()).collect();
    let want: Mx = (0..2 * n).map(|i| (0..2 * n).map(|j| bl[i / 2][j / 2][i % 2][j % 2]).collect()).collect();
    eq(k, &key("unitary"), entries(&u.value()), &want, || format!("the unitary of {name}"));
    if hadamard { let got = entries(&u.value()).unwrap_or(want.clone()); k.check(mmul(&got, &mdag(&got)) == mid(2 * n, n as f64), &(if both || got != want { key("unitary-norm") } else { "hmuo-not-unitary".to_string() }), || format!("the operator of {name} is not a multiple of a unitary")); }
    Some((u.value(), 2 * n))
}

pub fn main() {
    let k = Kit::new();
    let th = k.thorough;
    quaternions(&k);
    laws(&k);
    let a24: Vec<r::Q> = r::ALPHABET24.chars().map(|c| r::decode(c).unwrap()).collect();
    let words = |n: usize, al: usize| -> Vec<Vec<r::Q>> { (0..al.pow(n as u32)).map(|mut x| (0..n).map(|_| { let q = a24[x % al]; x /= al; q }).collect()).collect() };
    // circulant matrices of all short sequences, of the representatives of longer ones; plain and normalized
    let mut seqs: Vec<Vec<r::Q>> = vec![];
    for (n, al) in [(1usize, 24usize), (2, 24), (3, if th { 24 } else { 16 })] { seqs.extend(words(n, al)); }
    for n in 4..=(if th { 13 } else { 10 }) { for t in [r::T::Wts, r::T::Ws] { for c in r::classes(t, n).0.keys() { let mut q = c.0; if c.1 { q[3] = r::neg(q[3], n); } let s = r::to_qs(&q, n); seqs.push(s.iter().map(|&x| r::qmul(a24[17], x)).collect()); seqs.push(s); } } }
    par(seqs.len(), |i| {
        let v = &seqs[i];
        let t = r::qs_to_str(v);
        let perfect = r::perfect(v);
        qmatrix(&k, &t, &QHM::from_pqs(QS::from_str(&t)), perfect);
        if perfect { qmatrix(&k, &format!("{t} (normalized)"), &QHM::from_pqs(QS::from_str(&t)).dephased(), true); }
    });
    k.sample("matrices", &format!("circulant matrices of {} sequences", seqs.len()));
    // tensor products of unitaries
    let some: Vec<&Vec<r::Q>> = seqs.iter().filter(|s| r::perfect(s)).enumerate().filter(|(i, s)| s.len() >= 3 || i % 40 == 0).map(|x| x.1).filter(|s| s.len() <= 4).step_by(if th { 3 } else { 40 }).collect();
    let mut list: Vec<(String, HMUO)> = some.iter().map(|v| { let t = r::qs_to_str(v); let u = HMUO::from_qhm(&QHM::from_pqs(QS::from_str(&t))); (t, u) }).collect();
    for n in 1..=3usize { list.push((format!("a distinguishable matrix of dimension {n}"), HMUO::new(n, operator(&(0..n).map(|i| (0..n).map(|j| ((i * n + j + 1) as f64, i as f64 - 2.0 * j as f64)).collect()).collect())))); }
    k.count("unitaries_multiplied", list.len() as u64);
    for (a, u) in &list { for (b, v) in &list {
        k.count("states", 1);
        let Some(w) = k.guard("panic-unitary-tensor", || format!("{a} and {b}"), || u.tensor(v)) else { continue };
        let n = u.matrix_size() * v.matrix_size();
        k.check(w.matrix_size() == n && w.value().size() == n, "unitary-tensor-size", || format!("the product of {a} (dimension {}) and {b} ({}) has dimension {}, its operator {}", u.matrix_size(), v.matrix_size(), w.matrix_size(), w.value().size()));
        eq(&k, "unitary-tensor", entries(&w.value()), &mtensor(&entries(&u.value()).unwrap(), &entries(&v.value()).unwrap()), || format!("the tensor product of {a} and {b}"));
    } }
    k.done();
}
