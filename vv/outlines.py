"""Random simple outlines on integer grids."""


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def on(a, b, c):
    return cross(a, b, c) == 0 and (a[0] - c[0]) * (b[0] - c[0]) + (a[1] - c[1]) * (b[1] - c[1]) <= 0


def touch(a, b, c, d):
    s = lambda v: (v > 0) - (v < 0)
    w, x, y, z = s(cross(a, b, c)), s(cross(a, b, d)), s(cross(c, d, a)), s(cross(c, d, b))
    if w and x and y and z and w != x and y != z:
        return True
    return on(a, b, c) or on(a, b, d) or on(c, d, a) or on(c, d, b)


def area2(p):
    return -sum(p[k][0] * p[(k + 1) % len(p)][1] - p[k][1] * p[(k + 1) % len(p)][0] for k in range(len(p)))


def simple(p):
    n = len(p)
    if len(set(p)) != n:
        return False
    for k in range(n):
        for l in range(k + 1, n):
            if l == (k + 1) % n or k == (l + 1) % n:
                continue
            if touch(p[k], p[(k + 1) % n], p[l], p[(l + 1) % n]):
                return False
        a, b, c = p[k], p[(k + 1) % n], p[(k + 2) % n]
        if cross(a, b, c) == 0 and (b[0] - a[0]) * (c[0] - b[0]) + (b[1] - a[1]) * (c[1] - b[1]) < 0:
            return False
    return area2(p) != 0


def outline(rng, n, g, solid=True):
    """n corners on a grid of g by g steps, listed clockwise if solid"""
    while True:
        p = tuple((rng.randint(0, g), rng.randint(0, g)) for _ in range(n))
        for _ in range(60):
            bad = None
            for k in range(n):
                for l in range(k + 2, n):
                    if (l + 1) % n != k and touch(p[k], p[k + 1], p[l], p[(l + 1) % n]):
                        bad = (k, l)
                        break
                if bad:
                    break
            if not bad:
                break
            k, l = bad
            p = p[:k + 1] + tuple(reversed(p[k + 1:l + 1])) + p[l + 1:]
        if simple(p):
            return p if (area2(p) > 0) == solid else tuple(reversed(p))
