from dv.harness import contract

P = 'C03'


def build(E, n, uniform, mode, none_y=False):
    pts = E.pts('p', n, uniform=uniform, none_y=none_y)
    c = E.ok('construct', E.cp.Points, pts, interpolation=mode, uniform=uniform)
    return pts, c


def spec_y(E, pts, mode, x):
    n = len(pts)
    if n == 0:
        return None
    if E.decide(x < pts[0][0]) or E.decide(x > pts[-1][0]):
        return None
    for i in range(n):
        if E.decide(x == pts[i][0]):
            return pts[i][1]
        if i + 1 < n and E.decide(x < pts[i + 1][0]):
            (x0, y0), (x1, y1) = pts[i], pts[i + 1]
            if mode == -1:
                return y0
            if mode == 1:
                return y1
            if y0 is None or y1 is None:
                return None
            return y0 + (y1 - y0) * ((x - x0) / (x1 - x0))
    return None


@contract(P, 'points.y', bound='n<=4', functions=['Points.y', 'Points.x_index', 'Points.set'],
          splits=[(n, u, m) for n in range(0, 5) for u in (True, False) for m in (-1, 0, 1)])
def _(E):
    n, u, m = E.param
    pts, c = build(E, n, u, m, none_y=False)
    x = E.real('x')
    y = E.ok('y', c.y, x)
    E.check('y(x) is the interpolated value', E.same(y, spec_y(E, pts, m, x)))
