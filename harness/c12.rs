use super::{kit::*, reference as r};
use crate::sequences::{sequence::*, williamson::*};

/// Doubled coordinates of a quaternion of the program, exactly
fn q_of(q: &cgmath::Quaternion<f32>) -> Option<r::Q> {
    let mut o = [0i64; 4];
    for (i, x) in [q.s, q.v.x, q.v.y, q.v.z].into_iter().enumerate() {
        let d = x * 2.0;
        if d.fract() != 0.0 || d.abs() > 1e6 { return None; }
        o[i] = d as i64;
    }
    Some(o)
}
fn values(s: &QS) -> Option<Vec<r::Q>> { s.values().iter().map(q_of).collect() }

fn string(k: &Kit, key: &str, s: &str) {
    k.count("transitions", 1);
    let Some(q) = k.guard(&format!("{key} panic"), || s.to_string(), || QS::from_str(&s.to_string())) else { return };
    k.check(q.size() == s.len() && values(&q) == r::qs_from_str(s), key, || format!("{s} decodes to {:?}", q.values()));
    let t = Kit::quiet(|| (q.to_string_raw(), q.to_string()));
    k.check(t == Ok((s.to_string(), format!("[{s}]"))), key, || format!("{s} is written back as {:?}", t));
}

fn quad(k: &Kit, key: &str, q: &r::Quad, n: usize) {
    k.count("transitions", 1);
    let name = || r::quad_to_str(q, n);
    let x = quadseq(q, n);
    let Some(s) = k.guard(&format!("{key} panic"), name, || x.to_qs()) else { return };
    let want = r::to_qs(q, n);
    k.check(s.size() == n && values(&s).as_ref() == Some(&want), key, || format!("{} becomes {:?}", name(), s.values()));
    let back = Kit::quiet(|| QuadSeq::from_pqs(&s));
    k.check(back.as_ref().ok().and_then(unquad) == Some(*q) && back.as_ref().map_or(false, |b| b.size() == n), key, || format!("{} becomes {} and comes back as something else", name(), r::qs_to_str(&want)));
    let text = Kit::quiet(|| s.to_string_raw());
    k.check(text.as_deref() == Ok(&r::qs_to_str(&want)), key, || format!("{} is written {:?}", name(), text));
    let back = Kit::quiet(|| QuadSeq::from_pqs(&QS::from_str(&r::qs_to_str(&want))));
    k.check(back.as_ref().ok().and_then(unquad) == Some(*q), key, || format!("{} does not survive its textual form {}", name(), r::qs_to_str(&want)));
    // the textual form of the four sequences
    let t = Kit::quiet(|| x.to_string());
    let w = format!("[\n{}]", q.iter().map(|&s| format!("  [{}]\n", r::b_to_str(s, n))).collect::<String>());
    k.check(t.as_deref() == Ok(&w), key, || format!("{} is written {t:?}", name()));
    // access by position and by name
    let ok = Kit::quiet(|| {
        let s = x.sequences();
        let tags = [SequenceTag::W, SequenceTag::X, SequenceTag::Y, SequenceTag::Z];
        let v = [s.0, s.1, s.2, s.3];
        (0..4).all(|i| v[i] == r::b_to_vec(q[i], n) && x.sequence(tags[i]) == v[i]) && (0..n).all(|i| x.values(i) == (v[0][i], v[1][i], v[2][i], v[3][i]))
            && x.clone().into_iter().collect::<Vec<i8>>() == v.concat()
    });
    k.check(ok == Ok(true), key, || format!("{}: access to the entries by name or position", name()));
}

/// perfect exactly when the quadruple satisfies the QT conditions
fn bridge(k: &Kit, q: &r::Quad, n: usize) {
    k.count("transitions", 1);
    let qt = r::complementary(q, n) && r::qt_cross(q, n);
    let p = r::perfect(&r::to_qs(q, n));
    if p != qt { k.violation(&format!("reference n={n}"), &format!("the correspondence fails for {}", r::quad_to_str(q, n))); }
    let x = quadseq(q, n);
    let got = Kit::quiet(|| (x.to_qs().is_perfect(), x.verify_qts())); //opt: let got = Kit::quiet(|| { let p = x.to_qs().is_perfect(); (p, p) });
    k.check(got == Ok((qt, qt)), &format!("perfect-vs-qts n={n}"), || format!("{}: perfect and valid are {got:?}, expected {qt}", r::quad_to_str(q, n)));
}

pub fn main() {
    let k = Kit::new();
    let th = k.thorough;
    // the tables
    let a16: Vec<char> = r::ALPHABET16.chars().collect();
    let a24: Vec<char> = r::ALPHABET24.chars().collect();
    let quads: std::collections::BTreeSet<_> = QUADRUPLETS.iter().cloned().collect();
    k.check(quads.len() == 16 && QUADRUPLETS.iter().all(|q| [q.0, q.1, q.2, q.3].iter().all(|x| x.abs() == 1)), "quadruplets", || format!("{QUADRUPLETS:?}"));
    for (i, c) in a24.iter().enumerate() {
        let q = r::decode(*c).unwrap();
        let f = cgmath::Quaternion::new(q[0] as f32 / 2.0, q[1] as f32 / 2.0, q[2] as f32 / 2.0, q[3] as f32 / 2.0);
        //[opt
        let s = Kit::quiet(|| quaternion_to_string(&f));
        k.check(s.as_deref() == Ok(&c.to_string()), "symbol", || format!("{f:?} is written {s:?}, not {c}"));
        //]
        // negative zeros are the same quaternion
        let z = |x: f32| if x == 0.0 { -0.0 } else { x };
        let f = cgmath::Quaternion::new(z(f.s), z(f.v.x), z(f.v.y), z(f.v.z));
        //[opt
        let s = Kit::quiet(|| quaternion_to_string(&f));
        k.check(s.as_deref() == Ok(&c.to_string()), "symbol", || format!("{f:?} is written {s:?}, not {c}"));
        //]
        //[opt
        if i < 16 {
            let v = Kit::quiet(|| quaternion_to_quad(&f));
            let w = r::q_to_quad(q).unwrap();
            k.check(v == Ok((w[0] as i8, w[1] as i8, w[2] as i8, w[3] as i8)), "symbol", || format!("{c} is the quadruple {v:?}, not {w:?}"));
        }
        //]
    }
    // all short strings
    let short = if th { 4 } else { 3 };
    for n in 1..=short {
        let total = 24usize.pow(n as u32);
        par(total.div_ceil(1000), |b| for i in b * 1000..total.min(b * 1000 + 1000) {
            let mut x = i;
            let s: String = (0..n).map(|_| { let c = a24[x % 24]; x /= 24; c }).collect();
            string(&k, &format!("string n={n}"), &s);
        });
        k.count("states", total as u64);
    }
    let total = 16usize.pow(4);
    par(256, |b| for i in b * (total / 256)..(b + 1) * (total / 256) {
        let mut x = i;
        let s: String = (0..4).map(|_| { let c = a16[x % 16]; x /= 16; c }).collect();
        string(&k, "string n=4", &s);
    });
    k.count("states", total as u64);
    // every symbol at every position, and every pair of symbols at neighbouring positions, of longer strings
    let lens: Vec<usize> = (4..=if th { 300 } else { 130 }).collect();
    par(lens.len(), |i| {
        let n = lens[lens.len() - 1 - i];
        for base in ["+", "iJ", "qzK", "uSjVw"] {
            for p in 0..n { for c in &a24 {
                let s: String = base.chars().cycle().take(n).enumerate().map(|(j, b)| if j == p { *c } else { b }).collect();
                string(&k, &format!("string n={n}"), &s);
            } }
            k.count("states", (24 * n) as u64);
        }
    });
    // much longer strings
    let lens = [255usize, 256, 257, 1000, 1024, 4097, 65535, 65536, 65537, 70001];
    par(lens.len() * 4, |i| {
        let n = lens[lens.len() - 1 - i / 4];
        let base = ["+", "iJ", "qzK", "uSjVw"][i % 4];
        for (p, c) in [(0, &a24[3]), (n / 2, &a24[11]), (n - 1, &a24[20])] {
            let s: String = base.chars().cycle().take(n).enumerate().map(|(j, b)| if j == p { *c } else { b }).collect();
            string(&k, &format!("string n={n}"), &s);
        }
        k.count("states", 3);
    });
    // all quadruples of short lengths
    for n in 1..=(if th { 5 } else { 4 }) {
        par(1 << n, |b| for x in 0..1u64 << (3 * n) {
            let m = r::mask(n);
            let q = [b as u64, x & m, x >> n & m, x >> (2 * n) & m];
            if n < 4 || th || x % 4 == b as u64 % 4 { quad(&k, &format!("quadruple n={n}"), &q, n); }
            bridge(&k, &q, n);
        });
        k.count("states", 1 << (4 * n));
    }
    // every quadruple of entries at every position of longer ones
    par(if th { 63 } else { 48 }, |i| {
        let n = i + 1;
        for base in [0u64, 0x5A5A_3C69_F00F_9696, 0x0123_4567_89AB_CDEF, !0] { for p in 0..n { for e in 0..16u64 {
            let mut q = [base, base.rotate_left(7), !base, base.rotate_left(31)].map(|s| s & r::mask(n));
            for s in 0..4 { q[s] = q[s] & !(1 << p) | (e >> s & 1) << p; }
            quad(&k, &format!("quadruple n={n}"), &q, n);
        } } k.count("states", 16 * n as u64); }
    });
    // setting entries one by one, by position and by name, in every order of the names
    //[opt
    for n in 1..=12usize { for (perm, _) in r::permutations4() {
        let q: r::Quad = [0x5, 0x3A1, 0xC0F, 0x9B6].map(|s: u64| (s ^ n as u64) & r::mask(n));
        let tags = [SequenceTag::W, SequenceTag::X, SequenceTag::Y, SequenceTag::Z];
        let v: Vec<Vec<i8>> = q.iter().map(|&s| r::b_to_vec(s, n)).collect();
        let got = Kit::quiet(|| {
            let mut a = QuadSeq::new(n);
            let mut b = QuadSeq::new(n);
            let mut c = QuadSeq::new(n);
            for &p in &perm { a.set_sequence(&v[p], &tags[p]); for i in 0..n { b.set_single_value(v[p][i], &tags[p], i); } }
            for i in (0..n).rev() { c.set_sequence_value(&(v[0][i], v[1][i], v[2][i], v[3][i]), i); }
            (unquad(&a), unquad(&b), unquad(&c), a == b && b == c)
        });
        k.check(got == Ok((Some(q), Some(q), Some(q), true)), &format!("setters n={n}"), || format!("{:?} instead of {}", got, r::quad_to_str(&q, n)));
        k.count("transitions", 1);
    } }
    //]
    // valid quadruples of longer lengths and all their neighbours on the correspondence
    for (t, top) in [(r::T::Qts, if th { 11 } else { 9 }), (r::T::Ws, if th { 17 } else { 14 })] { for n in 5..=top {
        let cl: Vec<r::Quad> = r::classes(t, n).0.into_keys().map(|c| { let mut q = c.0; if c.1 { q[3] = r::neg(q[3], n); } q }).collect();
        par(cl.len(), |i| {
            for p in 0..=4 * n { for p2 in p..=4 * n {
                let mut q = cl[i];
                if p < 4 * n { q[p / n] ^= 1 << (p % n); }
                if p2 < 4 * n && p2 != p { q[p2 / n] ^= 1 << (p2 % n); }
                bridge(&k, &q, n);
            } }
        });
        k.count("states", cl.len() as u64);
    } }
    // long quadruples (up to length 126), valid or with one entry changed
    let l = long();
    par(l.len(), |i| {
        let v = &l[l.len() - 1 - i];
        let n = v[0].len();
        for f in long_forms(v) { for p in (0..=4 * n).filter(|p| p % 37 == 0 || *p == 4 * n) {
            let mut w = f.clone();
            if p < 4 * n { w[p / n][p % n] = -w[p / n][p % n]; }
            let want = quaternions(&w);
            let name = || format!("{w:?}");
            k.count("transitions", 1);
            let Some((s, t, back, again, perfect)) = k.guard(&format!("long panic n={n}"), name, || {
                let x = quadseq_of(&w);
                let s = x.to_qs();
                (values(&s), s.to_string_raw(), QuadSeq::from_pqs(&s) == x, QuadSeq::from_pqs(&QS::from_str(&r::qs_to_str(&want))) == x, s.is_perfect())
            }) else { continue };
            let key = format!("long n={n}");
            k.check(s.as_ref() == Some(&want) && t == r::qs_to_str(&want), &key, || format!("{} becomes {t}", name()));
            k.check(back && again, &key, || format!("{} becomes {t} and comes back as something else", name()));
            k.check(perfect == r::perfect(&want) && (p < 4 * n || perfect), &key, || format!("{}: perfect is {perfect}", name()));
        } }
        k.count("states", 1);
    });
    k.sample("string", "uSjVw");
    k.done();
}
