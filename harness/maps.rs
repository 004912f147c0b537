// The documented operations as signed permutations of the 4n positions; included by c09.rs and c11.rs.
/// A map of the 4n positions: entry p of the image is sign * entry src of the argument
type Map = Vec<(usize, i8)>;
type Op = fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq>;

fn id(n: usize) -> Map { (0..4 * n).map(|p| (p, 1)).collect() }
fn negate(n: usize, s: usize) -> Map { (0..4 * n).map(|p| (p, if p / n == s { -1 } else { 1 })).collect() }
fn swap(n: usize, a: usize, b: usize) -> Map { (0..4 * n).map(|p| { let s = p / n; ((if s == a { b } else if s == b { a } else { s }) * n + p % n, 1) }).collect() }
fn rotate(n: usize, k: usize, which: &[usize]) -> Map { (0..4 * n).map(|p| (if which.contains(&(p / n)) { p / n * n + (p % n + k) % n } else { p }, 1)).collect() }
fn auto(n: usize, k: usize) -> Map { (0..4 * n).map(|p| (p / n * n + p % n * k % n, 1)).collect() }
fn alternate(n: usize) -> Map { (0..4 * n).map(|p| (p, if p % n % 2 == 1 { -1 } else { 1 })).collect() }
fn reverse(n: usize) -> Map { (0..4 * n).map(|p| (p / n * n + n - 1 - p % n, 1)).collect() }
/// first f, then g
fn then(f: &Map, g: &Map) -> Map { g.iter().map(|&(p, s)| (f[p].0, f[p].1 * s)).collect() }

const ALL: [usize; 4] = [0, 1, 2, 3];
fn couples() -> Vec<(usize, usize)> { (0..4).flat_map(|i| (i + 1..4).map(move |j| (i, j))).collect() }

/// The documented images, besides the argument itself
fn images(name: &str, n: usize) -> Vec<Map> {
    let even = n % 2 == 0;
    let cs = couples();
    match name {
        "negate" => ALL.iter().map(|&s| negate(n, s)).collect(),
        "double_negate" => cs.iter().map(|&(a, b)| then(&negate(n, a), &negate(n, b))).collect(),
        "uniform_shift" => (1..n).map(|k| rotate(n, k, &ALL)).collect(),
        "reorder" => cs.iter().map(|&(a, b)| swap(n, a, b)).collect(),
        "double_reorder" => cs.iter().flat_map(|&(a, b)| cs.iter().map(move |&(c, d)| then(&swap(n, a, b), &swap(n, c, d)))).collect(),
        "disjoint_swaps" => [((0, 1), (2, 3)), ((0, 2), (1, 3)), ((0, 3), (1, 2))].iter().map(|&((a, b), (c, d))| then(&swap(n, a, b), &swap(n, c, d))).collect(),
        "negate_swap" => cs.iter().flat_map(|&(a, b)| ALL.iter().map(move |&s| then(&negate(n, s), &swap(n, a, b)))).collect(),
        "even_alternated_negation" => if even { vec![alternate(n)] } else { vec![] },
        "alternated_negation" => vec![alternate(n)],
        "automorphism" => r::units(n).iter().map(|&k| auto(n, k)).collect(),
        "single_half_shift" | "uniform_half_shift" => if even { ALL.iter().map(|&s| rotate(n, n / 2, &[s])).collect() } else { vec![] },
        "dual_half_shift" => if even { cs.iter().map(|&(a, b)| rotate(n, n / 2, &[a, b])).chain([rotate(n, n / 2, &ALL)]).collect() } else { vec![] },
        "reverse" => vec![reverse(n)],
        _ => panic!(),
    }
}
