seed('c03-snap', 'C03', 'points.py', "        if u == 0:\n            return self._points[i][1]\n        if self.interp",
     "        if u < 1e-3:\n            # On a point\n            return self._points[i][1]\n        if self.interp",
     'an x just above a stored point (within a thousandth of the gap) with linear or next interpolation',
     'values just above a stored point snap to it instead of being interpolated',
     """
from curvepy import Points
p = Points([(0, 0), (1000, 1000000)])
assert abs(p.y(0.5) - 500) < 1e-6, p.y(0.5)
q = Points([(0, 0), (1000, 1)], interpolation=1)
assert q.y(0.5) == 1
""")
seed('c06-pending', 'C06', 'curve.py', "        self._begin_update_interval = Interval.union([self._begin_update_interval, domain])\n        for",
     "        self._begin_update_interval = Interval.parse(domain)\n        for",
     'two overlapping but not nested updates begun before either ends',
     'the pending interval forgets the first update, so observers get their end callback too early',
     """
from curvepy import Curve
from intervalpy import Interval
c = Curve()
log = []
c.add_observer(begin=lambda d: log.append('b'), end=lambda d: log.append(d))
c.begin_update(Interval(0, 2))
c.begin_update(Interval(5, 6))
c.end_update(Interval(5, 6))
assert c.is_updating and log == ['b', 'b'], log
c.end_update(Interval(0, 2))
assert not c.is_updating and log[2:] == [Interval(0, 6)], log
""")
seed('c01-zero', 'C01', 'curve.py', "                    result = math.inf if result >= 0 else -math.inf",
     "                    result = math.inf if result > 0 else -math.inf",
     'a division 0/0 at some x', 'the quotient is minus instead of plus infinity where both operands vanish',
     """
import math
from curvepy import Points
p = Points([(0, 0), (1, 1)])
assert (p / Points([(0, 0), (1, 2)])).y(0) == math.inf
""")
seed('c22-step', 'C22', 'map.py', "        if bool(func.min_step) and func.min_step > min_step:\n            min_step = func.min_step\n",
     "        if min_step is None:\n            min_step = func.min_step\n",
     'a map over a curve that has a larger minimum step than the default', 'step points of the map are closer than those of the source',
     """
from curvepy import Generic
g = Generic(lambda x: x, min_step=1.0)
m = g.map(lambda y: y)
assert m.min_step == 1.0, m.min_step
assert m.x_next(0) == 1.0
""")
seed('c09-open', 'C09', 'offset.py', "            return Interval(start, end, start_open=domain.start_open, end_open=domain.end_open)",
     "            return Interval(start, end, start_open=domain.start_open, end_open=domain.start_open and domain.end_open)",
     'the offset of a curve whose domain is closed at the start and open at the end', 'the moved end is closed',
     """
from curvepy import Generic
from intervalpy import Interval
c = Generic(lambda x: x, domain=Interval(0, 1, end_open=True)).offset(2)
assert c.domain == Interval(2, 3, end_open=True), c.domain
""")
seed('c08-ref', 'C08', 'line.py', "        if ref_point[0] == self.ref_point[0] and ref_point[1] == self.ref_point[1] and slope == self.slope:",
     "        if ref_point[1] == self.ref_point[1] and slope == self.slope:",
     'a line set again through a point of the same y at another x, with the same slope', 'the change is ignored',
     """
from curvepy import Line
l = Line(p1=(0, 1), slope=2)
l.set(p1=(5, 1), slope=2)
assert l.y(5) == 1, l.y(5)
""")
seed('c02-cover', 'C02', 'aggregate.py', "        if self.is_union:\n            return Interval.union(domains)",
     "        if self.is_union and not any(d.is_empty for d in domains):\n            return Interval.union(domains)",
     'a union aggregate of which one operand has an empty domain', 'the aggregate loses its whole domain',
     """
from curvepy import Curve, Points, Constant
c = Curve.first([Points([]), Points([(0, 1), (1, 2)])])
assert c.y(1) == 2, c.y(1)
""")
seed('c05-bounds', 'C05', 'points.py', "        if domain is None or domain.is_superset_of(self.domain):\n            # Sample all",
     "        if domain is None or (domain.start <= self.domain.start and domain.end >= self.domain.end):\n            # Sample all",
     'sampling a domain with the bounds of the series but open at one end', 'the excluded boundary point is returned',
     """
from curvepy import Points
from intervalpy import Interval
p = Points([(0, 0), (1, 1), (2, 4)])
assert p.sample_points(Interval(0, 2, start_open=True)) == [(1, 1), (2, 4)]
assert p.sample_points(Interval(0, 2, end_open=True)) == [(0, 0), (1, 1)]
""")
seed('c16-blend', 'C16', 'curve.py', "        domains = self.domain.partition([x_blend_start, x_blend_stop])",
     "        domains = Interval.union([self.domain, func.domain]).partition([x_blend_start, x_blend_stop])",
     'a blend of a curve into one with a larger domain', 'the blend has values beyond the domain of the first curve',
     """
from curvepy import Generic
from intervalpy import Interval
a = Generic(lambda x: 1, domain=Interval(0, 10))
b = Generic(lambda x: 2, domain=Interval(0, 20))
c = a.blend(b, 3, 5)
assert c.domain == Interval(0, 10), c.domain
""")
