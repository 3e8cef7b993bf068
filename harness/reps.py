"""Products of SU(2) and SU(3) representations, independently of the package."""
from functools import lru_cache


def su3_dim(p, q):
    return (p + 1) * (q + 1) * (p + q + 2) // 2


@lru_cache(None)
def su3_weights(p, q):
    """Dynkin weights with multiplicity, from Gelfand-Tsetlin patterns."""
    out = {}
    a, b, c = p + q, q, 0
    for x in range(b, a + 1):
        for y in range(c, b + 1):
            for z in range(y, x + 1):
                n1, n2, n3 = z, x + y - z, a + b + c - x - y
                w = (n1 - n2, n2 - n3)
                out[w] = out.get(w, 0) + 1
    return out


def _reflect(w):
    """To the dominant chamber of the shifted weight; sign, or None on a wall."""
    p, q = w[0] + 1, w[1] + 1
    s = 1
    while True:
        if p == 0 or q == 0:
            return None
        if p < 0:
            p, q, s = -p, p + q, -s
        elif q < 0:
            p, q, s = p + q, -q, -s
        else:
            return (p - 1, q - 1), s


@lru_cache(None)
def su3_product(r1, r2):
    out = {}
    for w, m in su3_weights(*r1).items():
        r = _reflect((r2[0] + w[0], r2[1] + w[1]))
        if r is None:
            continue
        v, s = r
        out[v] = out.get(v, 0) + s * m
    return {k: v for k, v in out.items() if v}


def su2_product(a, b):
    return {k: 1 for k in range(abs(a - b), a + b + 1, 2)}


def dim(d):
    u, v, p, q, i = d
    return (u + 1) * (v + 1) * (i + 1) * su3_dim(p, q)


def product(d1, d2):
    """{digits: multiplicity} of the product of two representations."""
    out = {}
    for u in su2_product(d1[0], d2[0]):
        for v in su2_product(d1[1], d2[1]):
            for (p, q), m in su3_product(d1[2:4], d2[2:4]).items():
                for i in su2_product(d1[4], d2[4]):
                    k = (u, v, p, q, i)
                    out[k] = out.get(k, 0) + m
    return out


def product_many(ds):
    out = {ds[0]: 1}
    for d in ds[1:]:
        new = {}
        for k, m in out.items():
            for k2, m2 in product(k, d).items():
                new[k2] = new.get(k2, 0) + m * m2
        out = new
    return out
