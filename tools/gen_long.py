"""Williamson sequences of long lengths for data/long.txt: Turyn's family (length (q+1)/2 for a prime power q = 1 mod 4)
and its doubling (length q+1). Each line: length and the four sequences; the harnesses check them when reading."""
import itertools
import os


def factor(n):
    f = []
    p = 2
    while n > 1:
        while n % p == 0:
            f.append(p)
            n //= p
        p += 1
    return f


def field(p, m):
    """powers of a primitive element of GF(p^m) as tuples"""
    size = p ** m
    for tail in itertools.product(range(p), repeat=m):     # x^m = tail[0] + tail[1] x + ...
        if tail[0] == 0:
            continue

        def times_x(v):
            c = v[-1]
            return tuple(((v[i - 1] if i else 0) + c * tail[i]) % p for i in range(m))
        v = (1,) + (0,) * (m - 1)
        powers, seen = [], set()
        while v not in seen:
            seen.add(v)
            powers.append(v)
            v = times_x(v)
        if len(powers) == size - 1:
            return powers
    raise ValueError


def turyn(q):
    f = factor(q)
    p, m = f[0], 2 * len(f)
    assert len(set(f)) == 1 and q % 4 == 1
    g = field(p, m)
    log = {v: i for i, v in enumerate(g)}
    N, n = q * q - 1, (q + 1) // 2
    # d with d^q = -d
    d = next(i for i in range(N) if all((a + b) % p == 0 for a, b in zip(g[i], g[i * q % N])))

    def chi(t):
        x = tuple((a - b) % p for a, b in zip(g[t * q % N], g[t % N]))
        if not any(x):
            return 0
        e = (log[x] - d) % N
        assert e % (q + 1) == 0       # in the field of q elements
        return 1 if e // (q + 1) % 2 == 0 else -1
    a = [chi(4 * t) for t in range(n)]
    b = [chi(4 * t + n) for t in range(n)]
    assert a[0] == 0
    return [[1] + a[1:], [1] + [-x for x in a[1:]], b, b]


def double(s):
    a, b, c, d = s
    n = len(a)
    half = (n + 1) // 2

    def mix(x, y):
        return [z for i in range(n) for z in (x[i], y[(i + half) % n])]
    m = lambda x: [-v for v in x]
    return [mix(a, b), mix(m(a), b), mix(c, d), mix(m(c), d)]


def valid(s):
    n = len(s[0])
    return all(abs(x) == 1 for v in s for x in v) and all(v[i] == v[-i % n] for v in s for i in range(n)) and all(sum(v[i] * v[(i + t) % n] for v in s for i in range(n)) == 0 for t in range(1, n))


def is_power(q):
    return len(set(factor(q))) == 1


out = []
for n in range(3, 129):
    q = 2 * n - 1
    if q % 4 == 1 and is_power(q):
        out.append(turyn(q))
for s in list(out):
    if 2 * len(s[0]) <= 128:
        out.append(double(s))
out.sort(key=lambda s: len(s[0]))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "data", "long.txt"), "w") as f:
    for s in out:
        assert valid(s), len(s[0])
        if len(s[0]) > 12:
            f.write("%d %s\n" % (len(s[0]), ",".join("".join("+" if x == 1 else "-" for x in v) for v in s)))
