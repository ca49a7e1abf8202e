seed('c12-zero', 'C12', 'ema.py',
     "        if ema is None:\n            if self.init_func",
     "        if not ema:\n            if self.init_func",
     'an average that is exactly zero at some sample (a series starting at zero)',
     'the average starts anew at the sample after it was zero',
     """
from curvepy import Points
p = Points([(0, 0), (1, 8), (2, 8)])
e = p.ema(0.5, is_period=False)
assert [e.y(x) for x in (0, 1, 2)] == [0, 4, 6], [e.y(x) for x in (0, 1, 2)]
""")
seed('c17-reverse', 'C17', 'curve.py',
     "            limit = -limit\n            backward = not backward\n",
     "            limit = -limit\n            backward = True\n",
     'a negative limit together with backward=True', 'the points are taken in the wrong direction',
     """
from curvepy import Points
p = Points([(0, 0), (1, 1), (2, 2), (3, 3)])
assert [q[0] for q in p.sample_points_from_x(1, -3, backward=True)] == [1, 2, 3]
""")
seed('c17-range', 'C17', 'curve.py',
     "            if high is None or p[1] > high:\n                high = p[1]\n        if low is None",
     "            elif high is None or p[1] > high:\n                high = p[1]\n        if low is None",
     'a range whose highest value is its first, or a falling curve',
     'the range is empty or too low when the first sample is the highest',
     """
from curvepy import Points
r = Points([(0, 5), (1, 3), (2, 4)]).get_range()
assert (r.start, r.end) == (3, 5), r
""")
seed('c04-alias', 'C04', 'points.py',
     "        self._points = list(points)\n",
     "        self._points = points if isinstance(points, list) else list(points)\n",
     'two series made from one list, one of which is edited later', 'the series shares the list of its caller: editing one changes the other',
     """
from curvepy import Points
l = [(0, 0), (1, 1)]
a, b = Points(l), Points(l)
a.append((2, 2))
assert b.sample_points() == [(0, 0), (1, 1)], b.sample_points()
""")
