From cd45e1022f7c61185638970e4b0aa314cd3f59b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:39 +0000
Subject: [PATCH 01/43] fix: check the spacing of every point of a uniform
 series

---
 curvepy/points.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index f51ad21..11d4f9b 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -221,8 +221,14 @@ class Points(Curve):
         else:
             interval = new_points[1][0] - new_points[0][0]
 
-        expected_last_x = start + interval * steps
-        return new_points[-1][0] == expected_last_x
+        if old_points_len != 0 and not self._is_equally_spaced:
+            return False
+
+        first_i = new_points_len - steps
+        for i in range(steps):
+            if new_points[first_i + i][0] != start + interval * (i + 1):
+                return False
+        return True
 
     def y(self, x):
         if not self.domain.contains(x):
-- 
2.43.0


From f87fc37d601f9835e49cfd404a6f814e0de4edd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 02/43] fix: keep the index of the last point of a uniform
 series in range

---
 curvepy/points.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index 11d4f9b..3f86cfc 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -291,7 +291,8 @@ class Points(Curve):
         if self.is_uniform:
             if self.interval is None:
                 return 0
-            return (x - self._points[0][0]) / self.interval
+            # Rounding must not push the index past the last point
+            return min((x - self._points[0][0]) / self.interval, len(self._points) - 1)
         else:
             i1 = _bisect_points(self._points, x)
             i0 = i1 - 1
-- 
2.43.0


From 4fa21e74098605f07b5e77b4109a3a7705647df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 03/43] fix: validate points before beginning an update

---
 curvepy/points.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index 3f86cfc..2196c4c 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -76,10 +76,11 @@ class Points(Curve):
             domain = Interval.closed(points[0][0], points[-1][0])
         else:
             domain = Interval(self.domain.end, points[-1][0], start_open=True, end_open=False)
-        self.begin_update(domain)
-        self._is_equally_spaced = self._points_equally_spaced(self._points, points)
-        if self._force_equally_spaced and not self._is_equally_spaced:
+        is_equally_spaced = self._points_equally_spaced(self._points, points)
+        if self._force_equally_spaced and not is_equally_spaced:
             raise Exception('Attempting to append points at non-regular intervals: {}{} + {}{}'.format('...' if len(self._points) > 2 else '', self._points[len(self._points) - 2:], points[:2], '...' if len(points) > 2 else ''))
+        self.begin_update(domain)
+        self._is_equally_spaced = is_equally_spaced
         self._points += points
         self._did_change_points()
         self.end_update(domain)
@@ -91,17 +92,18 @@ class Points(Curve):
             else:
                 raise Exception('Attempting to replace point outside of bounds')
 
+        nearest_i = int(math.ceil(self.x_index(point[0])))
+        nearest_p = self._points[nearest_i]
+        is_new = point[0] != nearest_p[0]
+        if is_new and self._force_equally_spaced:
+            raise Exception('Attempting to replace point {} between existing points. The nearest is {}.'.format(point, nearest_p))
+
         update_domain = Interval.point(point[0])
         self.begin_update(update_domain)
 
-        nearest_i = int(math.ceil(self.x_index(point[0])))
-        nearest_p = self._points[nearest_i]
-        if point[0] != nearest_p[0]:
-            if self._force_equally_spaced:
-                raise Exception('Attempting to replace point {} between existing points. The nearest is {}.'.format(point, nearest_p))
-            else:
-                self._points.insert(nearest_i, point)
-                self._is_equally_spaced = False
+        if is_new:
+            self._points.insert(nearest_i, point)
+            self._is_equally_spaced = False
         else:
             self._points[nearest_i] = point
 
@@ -166,10 +168,11 @@ class Points(Curve):
                 update_domain = self.domain
             else:
                 update_domain = Interval.union([self.domain, Interval.closed(points[0][0], points[-1][0])])
-        self.begin_update(update_domain)
-        self._is_equally_spaced = self._points_equally_spaced([], points)
-        if self._force_equally_spaced and not self._is_equally_spaced:
+        is_equally_spaced = self._points_equally_spaced([], points)
+        if self._force_equally_spaced and not is_equally_spaced:
             raise Exception('Attempting to set points at non-regular intervals')
+        self.begin_update(update_domain)
+        self._is_equally_spaced = is_equally_spaced
         self._points = list(points)
         self._did_change_points()
         self.end_update(update_domain)
-- 
2.43.0


From 375fdf33c4f7a60f121ffa73ffc679c3c23ea36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 04/43] fix: include the angular frequency in the slope of a
 sine

---
 curvepy/sin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/sin.py b/curvepy/sin.py
index 9af1e9a..0045b71 100644
--- a/curvepy/sin.py
+++ b/curvepy/sin.py
@@ -40,5 +40,5 @@ class Sin(Curve):
         return self.amplitude * math.sin(self.x_coef * x + self.phase)
 
     def d_y(self, x, forward=False, min_step=MIN_STEP, limit=None):
-        return self.amplitude * math.cos(self.x_coef * x + self.phase)
+        return self.amplitude * self.x_coef * math.cos(self.x_coef * x + self.phase)
         
\ No newline at end of file
-- 
2.43.0


From c8b50925312c8c1269c9562c6a8a295fcc831a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 05/43] fix: validate a sine description before beginning an
 update

---
 curvepy/sin.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/curvepy/sin.py b/curvepy/sin.py
index 0045b71..af1248a 100644
--- a/curvepy/sin.py
+++ b/curvepy/sin.py
@@ -20,20 +20,21 @@ class Sin(Curve):
         self.set(amplitude=amplitude, frequency=frequency, period=period, phase=phase, phase_x=phase_x)
     
     def set(self, amplitude=None, frequency=None, period=None, phase=0, phase_x=None):
-        self.begin_update(self.domain)
-        self.amplitude = amplitude
-        self.phase = phase
-
-        self.x_coef = None
+        x_coef = None
         if period is not None:
             frequency = 1.0 / period
         if frequency is not None:
-            self.x_coef = frequency * math.pi * 2.0
-        if phase_x is not None:
-            self.phase = phase_x * self.x_coef
+            x_coef = frequency * math.pi * 2.0
+        if phase_x is not None and x_coef is not None:
+            phase = phase_x * x_coef
 
-        if self.amplitude is None or self.x_coef is None or self.phase is None:
+        if amplitude is None or x_coef is None or phase is None:
             raise Exception("Invalid sin function description")
+
+        self.begin_update(self.domain)
+        self.amplitude = amplitude
+        self.phase = phase
+        self.x_coef = x_coef
         self.end_update(self.domain)
 
     def y(self, x):
-- 
2.43.0


From fcc42b1695621abb2cb1db90f060f2b39d8c8618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 06/43] fix: Curve.zero needs no value

---
 curvepy/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 3bc1a4a..e70a708 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -839,7 +839,7 @@ class Curve:
         return Aggregate(funcs, tfm=log_f, name='log')
 
     @classmethod
-    def zero(cls, value):
+    def zero(cls):
         from .constant import Constant
         return Constant.zero()
 
-- 
2.43.0


From bda746c14caf9823d7c9deda7036a5dfd34a715e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 07/43] fix: sample only the requested domain and accept every
 advancing step

---
 curvepy/curve.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index e70a708..13197a6 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -176,33 +176,31 @@ class Curve:
         elif not domain.is_finite:
             raise Exception("Cannot sample points on an infinite domain {}. Specify a finite domain.".format(domain))
         x_start, x_end = domain
-        x_end_bin = round(x_end / min_step) if min_step is not None else x_end
         if domain.start_open:
             points = []
         else:
             points = [(x_start, self.y(x_start))]
         if step is not None:
             x = x_start + step
-            while x <= x_end:
+            while x < x_end or (x == x_end and not domain.end_open):
                 y = self.y(x)
                 points.append((x, y))
                 x += step
         elif min_step is not None and min_step > 0:
-            x = self.x_next(x_start, min_step=min_step, limit=x_end)
-            while x is not None and x <= x_end:
+            x = None
+            if x_start < x_end:
+                x = self.x_next(x_start, min_step=min_step, limit=x_end)
+            while x is not None and (x < x_end or (x == x_end and not domain.end_open)):
                 y = self.y(x)
                 points.append((x, y))
-                x_bin = round(x / min_step) if min_step is not None else x
-                if x_bin == x_end_bin:
+                if x == x_end:
                     break
                 x1 = self.x_next(x, min_step=min_step, limit=x_end)
-                if x1 is not None:
-                    x1_bin = round(x1 / min_step) if min_step is not None else x1
-                    if x1_bin <= x_bin:
-                        raise Exception('Next x value {} should be greater than the previous x value {} by at least the minimum step of {}'.format(x1, x, min_step))
+                if x1 is not None and x1 <= x:
+                    raise Exception('Next x value {} should be greater than the previous x value {} by at least the minimum step of {}'.format(x1, x, min_step))
                 x = x1
 
-            if not domain.end_open and points[-1][0] != x_end:
+            if not domain.end_open and (len(points) == 0 or points[-1][0] != x_end):
                 points.append((x_end, self.y(x_end)))
         else:
             raise Exception("Bad functions sample parameters.")
-- 
2.43.0


From 1c47a45f46ae59f5d54c4ae1ae066891a5f4f119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 08/43] fix: include the starting point in samples taken from a
 point

---
 curvepy/curve.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 13197a6..851b658 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -207,7 +207,7 @@ class Curve:
 
         return points
 
-    def sample_points_from_x(self, x, limit, backward=False, open=False, min_step=None):
+    def sample_points_from_x(self, x, limit, backward=False, open=False, min_step=MIN_STEP):
         assert limit is not None
         if limit < 0:
             limit = -limit
@@ -218,11 +218,12 @@ class Curve:
         i = 0
 
         if not open:
-            if x is None:
+            if x is None or limit == 0:
                 return points
             y = self.y(x)
             if y is None:
                 return points
+            points.append((x, y))
             i += 1
 
         while limit is None or i < limit:
-- 
2.43.0


From cba6e333f25b614930ead3fe42888cfe407b0bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 09/43] fix: ignore missing values in the range of a curve

---
 curvepy/curve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 851b658..27ef4bb 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -246,6 +246,8 @@ class Curve:
         low = None
         high = None
         for p in points:
+            if p[1] is None:
+                continue
             if low is None or p[1] < low:
                 low = p[1]
             if high is None or p[1] > high:
-- 
2.43.0


From 4795a411f3dd4a6287e7773b7660ab47315a2def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 10/43] fix: parse the source of a map before reading its step

---
 curvepy/map.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curvepy/map.py b/curvepy/map.py
index cda4fbd..b40c679 100644
--- a/curvepy/map.py
+++ b/curvepy/map.py
@@ -7,10 +7,11 @@ class Map(Curve):
         return self.curve.domain
 
     def __init__(self, func, tfm, skip_none=False, min_step=MIN_STEP, name=None):
+        func = Curve.parse(func)
         if bool(func.min_step) and func.min_step > min_step:
             min_step = func.min_step
         super().__init__(min_step=min_step)
-        self.curve = Curve.parse(func)
+        self.curve = func
         self.skip_none = skip_none
         self.name = name
 
-- 
2.43.0


From 6c8a21c5fa7d4a42e1fc8c9eaf1c3c2086ded346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 11/43] fix: sample an irregular series at the requested step

---
 curvepy/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index 2196c4c..df3da56 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -183,7 +183,7 @@ class Points(Curve):
         if self.domain.is_empty:
             return []
 
-        if self.interval is not None and ((min_step is not None and min_step > self.interval) or (step is not None and step != self.interval)):
+        if self.interval is not None and ((min_step is not None and min_step > self.interval) or (step is not None and (step != self.interval or not self.is_uniform))):
             # Irregular sampling
             return super().sample_points(domain=domain, min_step=min_step, step=step)
 
-- 
2.43.0


From 85b4226c51a9e0f63e553fc12180475aa9584280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:41 +0000
Subject: [PATCH 12/43] fix: allow observers to be removed during a
 notification

---
 curvepy/curve.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 27ef4bb..ba1cabf 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -435,7 +435,10 @@ class Curve:
         if domain.is_empty or self._begin_update_interval.is_superset_of(domain):
             return
         self._begin_update_interval = Interval.union([self._begin_update_interval, domain])
-        for token in self._ordered_observer_tokens:
+        for token in list(self._ordered_observer_tokens):
+            if token not in self._observer_data:
+                # Removed by another observer
+                continue
             _, callback_interval, callback, _, callback_with_interval, _ = self._observer_data[token]
             if callback_interval is None or domain.intersects(callback_interval):
                 if callback is not None:
@@ -458,6 +461,9 @@ class Curve:
         self._end_update_interval = Interval.empty()
         self.set_needs_interval_update()
         for token in list(self._ordered_observer_tokens):
+            if token not in self._observer_data:
+                # Removed by another observer
+                continue
             _, callback_interval, _, callback, _, callback_with_interval = self._observer_data[token]
             if callback_interval is None or update_interval.intersects(callback_interval):
                 if callback is not None:
-- 
2.43.0


From 0ba6c55ed1d4eb773394fb2498219f3da15d9a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:22 +0000
Subject: [PATCH 13/43] fix: move the limit with the x of an offset curve

---
 curvepy/offset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curvepy/offset.py b/curvepy/offset.py
index b800bbf..01edc60 100644
--- a/curvepy/offset.py
+++ b/curvepy/offset.py
@@ -38,6 +38,8 @@ class Offset(Curve):
         return self._interpolated_func(self.curve.y, x)
 
     def d_y(self, x, **kwargs):
+        if kwargs.get('limit') is not None:
+            kwargs['limit'] = self._unoffset_x(kwargs['limit'], floor=kwargs.get('forward', False))
         return self._interpolated_func(self.curve.d_y, x, **kwargs)
 
     def _interpolated_func(self, f, x, **kwargs):
@@ -66,6 +68,7 @@ class Offset(Curve):
         if self.duration:
             x1 = self.duration.previous(x)
         else:
+            limit = self._unoffset_x(limit, floor=False)
             x1 = self.curve.x_previous(x, min_step=min_step, limit=limit)
         if x1 is None or not self.curve.domain.contains(x1):
             return None
@@ -78,6 +81,7 @@ class Offset(Curve):
         if self.duration:
             x1 = self.duration.next(x)
         else:
+            limit = self._unoffset_x(limit, floor=True)
             x1 = self.curve.x_next(x, min_step=min_step, limit=limit)
         if x1 is None or not self.curve.domain.contains(x1):
             return None
-- 
2.43.0


From 25eafa1d29fa6b0c3e4e9a2541f3b66a82e941d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 14/43] fix: return the steps of a piecewise curve

---
 curvepy/piecewise.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/curvepy/piecewise.py b/curvepy/piecewise.py
index e43c5e9..f126cca 100644
--- a/curvepy/piecewise.py
+++ b/curvepy/piecewise.py
@@ -40,25 +40,20 @@ class Piecewise(Curve):
             return None
         x_map = map(lambda f: f.x_previous(x, min_step=min_step, limit=limit), self.funcs)
         x_map_d = zip(x_map, self.domains)
-        def x_previous_f(z):
-            x, d = z
-            return d.contains(x)
-        z = max(filter(x_previous_f, x_map_d), default=None)
-        x1 = z[0] if z is not None else None
+        x1 = max((x1 for x1, d in x_map_d if d.contains(x1)), default=None)
         if x1 is None and self.domains[0].contains(x):
             return self.domains[0].start
+        return x1
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
         # FIXME: infinite funcs don't work (unit tests disabled)
         min_step = self.resolve_min_step(min_step)
-        if not self.domain.contains(x + min_step, enforce_end=False):
+        if not self.domain.contains(x + min_step, enforce_start=False):
             return None
         x_map = map(lambda f: f.x_next(x, min_step=min_step, limit=limit), self.funcs)
         x_map_d = zip(x_map, self.domains)
-        def x_next_f(z):
-            x, d = z
-            return d.contains(x)
-        z = min(filter(x_next_f, x_map_d), default=None)
-        x1 = z[0] if z is not None else None
+        x1 = min((x1 for x1, d in x_map_d if d.contains(x1)), default=None)
         if x1 is None and self.domains[-1].contains(x):
             return self.domains[-1].end
+        return x1
+
-- 
2.43.0


From 12c99c48025e6da24c1f46031c041412d795c07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 15/43] fix: a blend has no value where a blended curve has
 none

---
 curvepy/curve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index ba1cabf..a3c1cc6 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -540,6 +540,8 @@ class Curve:
         
         x_blend_period = x_blend_stop - x_blend_start
         def blend_f(x, ys):
+            if ys[0] is None or ys[1] is None:
+                return None
             u = (x - x_blend_start) / x_blend_period
             return (1.0 - u) * ys[0] + u * ys[1]
         c = Aggregate([self, func], tfm=blend_f, name='blend')
-- 
2.43.0


From 80d3c2f79e7f8051d0a1edcfbc1858c218842e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:50 +0000
Subject: [PATCH 16/43] fix: keep the domain of a generic curve across updates

---
 curvepy/generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/generic.py b/curvepy/generic.py
index 6d85f5f..f491718 100644
--- a/curvepy/generic.py
+++ b/curvepy/generic.py
@@ -4,12 +4,12 @@ from intervalpy import Interval
 class Generic(Curve):
 
     def get_domain(self):
-        return self._domain
+        return self._generic_domain
 
     def __init__(self, y_func, domain=None, min_step=MIN_STEP):
         super().__init__(min_step=min_step)
         self.y_func = y_func
-        self._domain = Interval.parse(domain) if domain is not None else Interval.infinite()
+        self._generic_domain = Interval.parse(domain) if domain is not None else Interval.infinite()
 
     def y(self, x):
         if not self.domain.contains(x):
-- 
2.43.0


From 338dccc4b3a8a0d4ef44605fd20d68608e8da87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:13 +0000
Subject: [PATCH 17/43] fix: accept a step to zero of an accumulator

---
 curvepy/accumulator.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/curvepy/accumulator.py b/curvepy/accumulator.py
index 8b711e6..e76eb7e 100644
--- a/curvepy/accumulator.py
+++ b/curvepy/accumulator.py
@@ -27,11 +27,17 @@ class Accumulator(Scan):
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
         min_step = self.resolve_min_step(min_step)
-        return self.accumulated_points.x_previous(x, min_step=min_step, limit=limit) or self.curve.x_previous(x, min_step=min_step, limit=limit)
+        x1 = self.accumulated_points.x_previous(x, min_step=min_step, limit=limit)
+        if x1 is None:
+            x1 = self.curve.x_previous(x, min_step=min_step, limit=limit)
+        return x1
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
         min_step = self.resolve_min_step(min_step)
-        return self.accumulated_points.x_next(x, min_step=min_step, limit=limit) or self.curve.x_next(x, min_step=min_step, limit=limit)
+        x1 = self.accumulated_points.x_next(x, min_step=min_step, limit=limit)
+        if x1 is None:
+            x1 = self.curve.x_next(x, min_step=min_step, limit=limit)
+        return x1
 
     def begin_update(self, domain):
         self.accumulated_points.reset(domain)
-- 
2.43.0


From e603414384446b8b9aeb00655c6dccb336284492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:30 +0000
Subject: [PATCH 18/43] fix: drop values scanned during an update when it ends

---
 curvepy/scan.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/curvepy/scan.py b/curvepy/scan.py
index 32b0b7c..a22e3cb 100644
--- a/curvepy/scan.py
+++ b/curvepy/scan.py
@@ -97,6 +97,16 @@ class Scan(Curve):
 
     def begin_scan_update(self, domain):
         domain = self._update_interval(domain)
+        self._reset_stale_scan(domain)
+        self.begin_update(domain)
+
+    def end_scan_update(self, domain):
+        domain = self._update_interval(domain)
+        # Stale values may have been scanned while the update was pending
+        self._reset_stale_scan(domain)
+        self.end_update(domain)
+
+    def _reset_stale_scan(self, domain):
         if self.current is not None:
             if domain.start < self.current or (domain.start == self.current and not domain.start_open):
                 self.reset_scan()
@@ -104,11 +114,5 @@ class Scan(Curve):
         if self.current is not None and self.scan_start is not None and self.current < self.scan_start:
             self.reset_scan()
 
-        self.begin_update(domain)
-
-    def end_scan_update(self, domain):
-        domain = self._update_interval(domain)
-        self.end_update(domain)
-
     def _update_interval(self, domain):
         return Interval(domain.start, math.inf, start_open=domain.start_open, end_open=True)
-- 
2.43.0


From 7cde907416773409907a49db2f5b947c06d11898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:22 +0000
Subject: [PATCH 19/43] fix: weigh the neighbours of an x between samples of an
 SMA

---
 curvepy/sma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index 5f81533..c7bbaf1 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -107,7 +107,7 @@ class SMA(Integral):
             if sma01 is None:
                 return None
             u = (x - x01) / (x1 - x01)
-            sma = u * sma01 + (1 - u) * sma1
+            sma = (1 - u) * sma01 + u * sma1
             return sma
         return sma
 
-- 
2.43.0


From 3e11904220d791be4102c12f38b5f1222fbb654c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 20/43] fix: do not extend an empty curve

---
 curvepy/extension/constant.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/curvepy/extension/constant.py b/curvepy/extension/constant.py
index 73dbf24..ae98a00 100644
--- a/curvepy/extension/constant.py
+++ b/curvepy/extension/constant.py
@@ -12,18 +12,20 @@ class ConstantExtension(Extension):
 
     def update_extension(self):
         if self.curve.domain.is_empty:
-            self.start_func.value = None
-            self.end_func.value = None
+            self.start_valid = False
+            self.end_valid = False
             return
 
         if self.start:
             x = self.curve.domain.start
             y = self.curve.y(x)
+            self.start_valid = y is not None
             self.start_func.value = y
 
         if self.end:
             x = self.curve.domain.end
             y = self.curve.y(x)
+            self.end_valid = y is not None
             self.end_func.value = y
 
     def create_extension_func(self, start=False):
-- 
2.43.0


From aac7253a13ad237c0a7cf84c2a0a2d78ae700921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 21/43] fix: extend an empty or short curve by its tangent
 without failing

---
 curvepy/extension/tangent.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/curvepy/extension/tangent.py b/curvepy/extension/tangent.py
index 2aa6eb4..081650a 100644
--- a/curvepy/extension/tangent.py
+++ b/curvepy/extension/tangent.py
@@ -23,6 +23,11 @@ class TangentExtension(Extension):
         super().__init__(func, **kwargs)
 
     def update_extension(self):
+        if self.curve.domain.is_empty:
+            self.start_valid = False
+            self.end_valid = False
+            return
+
         if self.start:
             x = self.curve.domain.start
             if x is not None and self.curve.domain.start_open and self.curve.domain.contains(x + self.min_step):
@@ -32,7 +37,10 @@ class TangentExtension(Extension):
             if self.regression_degree is not None:
                 x1 = x
                 for i in range(self.regression_degree):
-                    x1 = self.curve.x_next(x1, min_step=self.min_step)
+                    x2 = self.curve.x_next(x1, min_step=self.min_step)
+                    if x2 is None:
+                        break
+                    x1 = x2
                 domain = Interval(x, x1)
                 tangent = self.curve.regression(domain, min_step=self.min_step)
                 if tangent is not None:
@@ -61,7 +69,10 @@ class TangentExtension(Extension):
             if self.regression_degree is not None:
                 x0 = x
                 for i in range(self.regression_degree):
-                    x0 = self.curve.x_previous(x0, min_step=self.min_step)
+                    x2 = self.curve.x_previous(x0, min_step=self.min_step)
+                    if x2 is None:
+                        break
+                    x0 = x2
                 domain = Interval(x0, x)
                 tangent = self.curve.regression(domain, min_step=self.min_step)
                 if tangent is not None:
-- 
2.43.0


From 551499726c173a8bc8fb00da8e6710301314d574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:33 +0000
Subject: [PATCH 22/43] fix: refresh the extension of a curve after any change
 of the curve

---
 curvepy/extension/extension.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index 739f9df..dc43b11 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -112,24 +112,22 @@ class Extension(Curve):
             x1 = x + step
         return x1
 
-    def is_in_extension(self, x):
-        domain = Interval.parse(x)
-        return (self.start and domain <= self.extension_interval) or \
-            (self.end and domain >= self.extension_interval)
-
     def begin_extension_update(self, domain):
-        if self.is_in_extension(domain):
-            self.begin_update(self.extension_interval)
-        else:
-            self.begin_update(domain)
+        self.begin_update(self._extended_interval(domain))
 
     def end_extension_update(self, domain):
-        if self.is_in_extension(domain):
-            self._extension_stale = True
-            self._update_extension_interval()
-            self.end_update(self.extension_interval)
-        else:
-            self.end_update(domain)
+        self._extension_stale = True
+        self._extension_interval_stale = True
+        self.end_update(self._extended_interval(domain))
+
+    def _extended_interval(self, domain):
+        # Any change of the curve may change its extensions
+        domains = [domain]
+        if self.start:
+            domains.append(domain.get_lt())
+        if self.end:
+            domains.append(domain.get_gt())
+        return Interval.union(domains)
 
     def _update_extension_interval(self):
         if not self._extension_interval_stale:
-- 
2.43.0


From 554d560dbf2f43424c7ce89ec3ee3b252d33fe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:36 +0000
Subject: [PATCH 23/43] fix: check that a curve can be extended after its
 extension is updated

---
 curvepy/extension/extension.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index dc43b11..621e51d 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -156,7 +156,4 @@ class Extension(Curve):
         self._extension_interval_stale = True
 
         self.update_extension()
-        if (self.start and not self.extension_interval.is_negative_infinite) or (self.end and not self.extension_interval.is_positive_infinite):
-            if self.raise_on_empty:
-                raise Exception('Unable to extend func')
         self._update_extension_interval()
-- 
2.43.0


From 6a2311d7a22430bd04faa4b1e208c0d48c9dd68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:40 +0000
Subject: [PATCH 24/43] fix: do not notify of a change when an extension is
 read

---
 curvepy/extension/extension.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index 621e51d..a9976e8 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -31,15 +31,16 @@ class Extension(Curve):
         self.extension_interval = Interval.empty()
         self._extension_stale = True
         self._extension_interval_stale = True
+        self._is_updating_extension = False
         self.curve.add_observer(begin=self.begin_extension_update, end=self.end_extension_update, prioritize=True)
         self.start_func = None
         self.end_func = None
         if self.start:
             self.start_func = self.create_extension_func(start=True)
-            self.start_func.add_observer(self, begin=self.begin_update, end=self.end_update)
+            self.start_func.add_observer(self, begin=self.begin_extension_func_update, end=self.end_extension_func_update)
         if self.end:
             self.end_func = self.create_extension_func(start=False)
-            self.end_func.add_observer(self, begin=self.begin_update, end=self.end_update)
+            self.end_func.add_observer(self, begin=self.begin_extension_func_update, end=self.end_extension_func_update)
 
     def __del__(self):
         self.curve.remove_observer(self)
@@ -120,6 +121,14 @@ class Extension(Curve):
         self._extension_interval_stale = True
         self.end_update(self._extended_interval(domain))
 
+    def begin_extension_func_update(self, domain):
+        if not self._is_updating_extension:
+            self.begin_update(domain)
+
+    def end_extension_func_update(self, domain):
+        if not self._is_updating_extension:
+            self.end_update(domain)
+
     def _extended_interval(self, domain):
         # Any change of the curve may change its extensions
         domains = [domain]
@@ -155,5 +164,10 @@ class Extension(Curve):
         self._extension_stale = False
         self._extension_interval_stale = True
 
-        self.update_extension()
+        # The extensions follow a change already reported by the curve
+        self._is_updating_extension = True
+        try:
+            self.update_extension()
+        finally:
+            self._is_updating_extension = False
         self._update_extension_interval()
-- 
2.43.0


From 2000c0b894f6532e0dd503fa8ac73b53bbc582b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:20 +0000
Subject: [PATCH 25/43] fix: take the amplitude of a sine extension from value
 and slope

---
 curvepy/extension/sin.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/curvepy/extension/sin.py b/curvepy/extension/sin.py
index fb3264c..c814b3f 100644
--- a/curvepy/extension/sin.py
+++ b/curvepy/extension/sin.py
@@ -29,9 +29,6 @@ class SinExtension(TangentExtension):
         phase = math.atan2(num, den)
 
         # amplitude
-        if (angle + phase) % math.pi != 0:
-            amplitude = y / math.sin(angle + phase)
-        else:
-            amplitude = dy / (x_coef * math.cos(angle + phase))
+        amplitude = math.hypot(num, den) / x_coef
 
         sin.set(amplitude=amplitude, period=self.period, phase=phase)
-- 
2.43.0


From 4876ef822ed7eeb4ab7af97e783c0e83363d1b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:20 +0000
Subject: [PATCH 26/43] fix: end minimise and maximise where the curve has no
 further step

---
 curvepy/curve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index a3c1cc6..8c53f2f 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -305,6 +305,8 @@ class Curve:
                     x_min -= step
                 else:
                     x_min = self.x_previous(x_min, min_step=min_step)
+            if x_min is None:
+                return x_min_previous
         return x_min
 
     def maximise(self, x, min_step=MIN_STEP, step=None, max_iterations=1000):
@@ -356,6 +358,8 @@ class Curve:
                     x_max -= step
                 else:
                     x_max = self.x_previous(x_max, min_step=min_step)
+            if x_max is None:
+                return x_max_previous
         return x_max
 
     def regression(self, domain=None, min_step=MIN_STEP, step=None):
-- 
2.43.0


From 764c7ff727b7ca79e9396c2d0348e501e04a180f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 27/43] fix: stop minimise and maximise on level ground

---
 curvepy/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 8c53f2f..a3967d4 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -283,7 +283,7 @@ class Curve:
                     # Sloping into null value
                     return None
             else:
-                if dy0 * dy1 < 0 and dy0 <= 0 and dy1 >= 0:
+                if dy0 <= 0 and dy1 >= 0:
                     # Found minimum
                     return x_min
 
@@ -336,7 +336,7 @@ class Curve:
                     # Sloping into null value
                     return None
             else:
-                if dy0 * dy1 < 0 and dy0 >= 0 and dy1 <= 0:
+                if dy0 >= 0 and dy1 <= 0:
                     # Found maximum
                     return x_max
 
-- 
2.43.0


From 7395e7e00a6af3c1ebef296cd5b47d275b60647c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 28/43] fix: encode an appended quote once

---
 curvepy/quotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/quotes.py b/curvepy/quotes.py
index 77bf383..2dc5fb3 100644
--- a/curvepy/quotes.py
+++ b/curvepy/quotes.py
@@ -183,7 +183,7 @@ class Quotes(Curve):
         or in a suitable form for `encoder`, in strict ascending order with no gaps
         and with the same duration as the receiver.
         """
-        self.append_list([self.encode_one(quote_point)])
+        self.append_list([quote_point])
 
     def append_list(self, quote_points):
         """
-- 
2.43.0


From fe27dc8a34e66c18fcf1bc02e6c76388efcca767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 29/43] fix: take the minimum of the lows as trailing low

---
 curvepy/quotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/quotes.py b/curvepy/quotes.py
index 2dc5fb3..432d62d 100644
--- a/curvepy/quotes.py
+++ b/curvepy/quotes.py
@@ -175,7 +175,7 @@ class Quotes(Curve):
         return self.high.trailing_max(degree, is_period=is_period, interpolation=-1, uniform=self.duration.is_uniform)
 
     def trailing_low(self, degree, is_period=False):
-        return self.low.trailing_max(degree, is_period=is_period, interpolation=-1, uniform=self.duration.is_uniform)
+        return self.low.trailing_min(degree, is_period=is_period, interpolation=-1, uniform=self.duration.is_uniform)
 
     def append(self, quote_point):
         """
-- 
2.43.0


From 767f2135c76052e4ecccd4cc77d95440061bf813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 30/43] fix: read the range of quotes from their low and high

---
 curvepy/quotes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/curvepy/quotes.py b/curvepy/quotes.py
index 432d62d..1649901 100644
--- a/curvepy/quotes.py
+++ b/curvepy/quotes.py
@@ -139,10 +139,10 @@ class Quotes(Curve):
         low = None
         high = None
         for q in quotes:
-            if low is None or q.low < low:
-                low = q.low
-            if high is None or q.high > high:
-                high = q.high
+            if low is None or q[LOW] < low:
+                low = q[LOW]
+            if high is None or q[HIGH] > high:
+                high = q[HIGH]
         if low is None or high is None:
             return Interval.empty()
         return Interval(low, high)
-- 
2.43.0


From 8762d7afa713995bdf8cee8efa82e6ada2c8efe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 31/43] fix: pass the positional base of a described logarithm

---
 curvepy/curve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index a3967d4..63ea3aa 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -984,7 +984,9 @@ class Curve:
                         base_str = fname[3:]
                         base = int(base_str) if bool(base_str) else math.e
                         def _dot_log(*args, **kwargs):
-                            return current_func.log(**util.extend({ "base": base }, kwargs))
+                            if not args:
+                                kwargs = util.extend({ "base": base }, kwargs)
+                            return current_func.log(*args, **kwargs)
                         fconstructor = _dot_log
                         fconstructor_from_instance = True
                     else:
-- 
2.43.0


From d3c4767628d3fffb53ab9805381f9c0531387efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 32/43] fix: parse the arguments of a description once

---
 curvepy/curve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 63ea3aa..f877d6c 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -966,6 +966,9 @@ class Curve:
                         if len(d) != 1:
                             raise ValueError(f'A decorator (@...) can only have siblings in a fragment')
                         return v
+                    if current_func is None:
+                        fragment_vals[k] = v
+                        continue
 
                 elif k.startswith('$'):
                     # This is function descriptor
-- 
2.43.0


From b6efac0e6db66de4e01b22e6835df93a8a725020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 33/43] fix: convert only strings to timestamps in @date

---
 curvepy/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index f877d6c..06608c4 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -1054,7 +1054,7 @@ class Curve:
                     fragment=True,
                     decorators=decorators
                 ) for v in d]
-            elif 'date' in decorators:
+            elif 'date' in decorators and isinstance(d, str):
                 return arrow.get(d).timestamp
             elif isinstance(d, Number):
                 if 'log' in decorators:
-- 
2.43.0


From e140a4118283e411648358decfaf3c2cb6bf2bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 34/43] fix: enter nested log spaces of a description like they
 are left

---
 curvepy/curve.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 06608c4..30dc441 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -1056,15 +1056,16 @@ class Curve:
                 ) for v in d]
             elif 'date' in decorators and isinstance(d, str):
                 return arrow.get(d).timestamp
-            elif isinstance(d, Number):
-                if 'log' in decorators:
-                    return math.log(d)
-                elif 'log2' in decorators:
-                    return math.log(d, 2)
-                elif 'log10' in decorators:
-                    return math.log(d, 10)
-                else:
-                    return d
+            elif isinstance(d, Number) and not isinstance(d, bool):
+                # Enter log spaces in the order in which they will end
+                for oname in decorators:
+                    if oname == 'log':
+                        d = math.log(d)
+                    elif oname == 'log2':
+                        d = math.log(d, 2)
+                    elif oname == 'log10':
+                        d = math.log(d, 10)
+                return d
             else:
                 return d
         else:
-- 
2.43.0


From 25cc3ed5a95ceb67e39daef0a64b1ae40a7f32f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 35/43] fix: reject keys before a described function

---
 curvepy/curve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 30dc441..21704f7 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -1042,6 +1042,8 @@ class Curve:
                 else:
                     fragment_vals[k] = v
             
+            if current_func is not None and fragment_vals:
+                raise Exception(f'Unexpected keys beside a function: {list(fragment_vals)}')
             return current_func or fragment_vals
         elif fragment:
             if isinstance(d, Mapping):
-- 
2.43.0


From 246a209ff90d6c0cd4df2dc99acdba02f6670a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 36/43] fix: find extremas about a reference of zero

---
 curvepy/extremas.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/curvepy/extremas.py b/curvepy/extremas.py
index 7a4fd89..4043316 100644
--- a/curvepy/extremas.py
+++ b/curvepy/extremas.py
@@ -93,8 +93,7 @@ class Extremas(Scan):
         y0 = self.ref_func(x)
         if y0 is None:
             return
-        div = y / y0 - 1
-        if abs(div) <= self.min_deviation:
+        if abs(y - y0) <= self.min_deviation * abs(y0):
             # function is too close to reference function
             return
         phase = y - y0
-- 
2.43.0


From de90038620486e12678dfe963e61aa459bce75f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 37/43] fix: find extremas again after the reference changes
 before them

---
 curvepy/extremas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/extremas.py b/curvepy/extremas.py
index 4043316..c19e1ca 100644
--- a/curvepy/extremas.py
+++ b/curvepy/extremas.py
@@ -17,7 +17,7 @@ class Extremas(Scan):
         self.possible_extrema_phase = None
         self._did_update_extremas()
         super().__init__(func, self._extrema_scan, min_step=min_step)
-        self._ref_observer_token = self.ref_func.add_observer(begin=self.begin_update, end=self.end_update)
+        self._ref_observer_token = self.ref_func.add_observer(begin=self.begin_scan_update, end=self.end_scan_update)
 
     def __del__(self):
         self.ref_func.remove_observer(self._ref_observer_token)
-- 
2.43.0


From 35eb7a050c9aaa8163cae015acb6abc2370da181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:11 +0000
Subject: [PATCH 38/43] fix: confirm an extrema once after the curve changes

---
 curvepy/extremas.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/curvepy/extremas.py b/curvepy/extremas.py
index c19e1ca..cbe5b02 100644
--- a/curvepy/extremas.py
+++ b/curvepy/extremas.py
@@ -62,8 +62,15 @@ class Extremas(Scan):
             return x1
         return self.curve.x_next(x, min_step=min_step, limit=limit)
 
-    def begin_update(self, domain):
-        super().begin_update(domain)
+    def reset_scan(self):
+        super().reset_scan()
+        self.extremas = []
+        self.extrema_xs = []
+        self._did_update_extremas()
+
+    def _reset_stale_scan(self, domain):
+        if self.current is None or not (domain.start < self.current or (domain.start == self.current and not domain.start_open)):
+            return
         # remove stale points
         for i in reversed(range(len(self.extremas))):
             x = self.extrema_xs[i]
@@ -75,10 +82,12 @@ class Extremas(Scan):
         # scan from last extrema
         extrema_count = len(self.extremas)
         if extrema_count == 0:
-            self.current = None
+            self.reset_scan()
         else:
+            # the last extrema is not confirmed until it is found again
             last_extrema = self.extremas[-1]
             x = last_extrema[0]
+            self._remove_extrema_index(extrema_count - 1)
             self.current = x
             self.possible_extrema = last_extrema
             self.possible_extrema_phase = last_extrema[1] - self.ref_func(x)
-- 
2.43.0


From 1aa36737e8a4c477a2b32566d601d7ce848a7581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:37 +0000
Subject: [PATCH 39/43] fix: pass the minimum point distance of a trend to its
 lines

---
 curvepy/trend.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 3128a5b..479a52b 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -222,6 +222,7 @@ class Trend(Scan):
         return TrendLine(self.min_width,
             is_upper_trend=is_upper_trend,
             min_points=self.min_points, 
+            min_point_distance=self.min_point_distance, 
             search_length_rel=self.search_length_rel, 
             search_length_int_rel=self.search_length_int_rel, 
             x_tol_rel=self.x_tol_rel, 
-- 
2.43.0


From e6f5773123848f131c17f8a61446e5c2d481c947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:37 +0000
Subject: [PATCH 40/43] fix: accept values within the tolerance of a trend
 line, not those beyond

---
 curvepy/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 479a52b..63061d3 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -836,7 +836,7 @@ class TrendLine(Sequence):
     def _is_value_within_tolerance(self, y, ref_y):
         if y is None or ref_y is None:
             return False
-        return y < self._value_tolerance_min(ref_y) or y > self._value_tolerance_max(ref_y)
+        return y >= self._value_tolerance_min(ref_y) and y <= self._value_tolerance_max(ref_y)
 
     def _value_tolerance_min(self, y):
         y_min = None
-- 
2.43.0


From b138e3c21a3be4ddd33b1f11baa74df89abf326a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:37 +0000
Subject: [PATCH 41/43] fix: order the relative tolerance of a trend line about
 negative values

---
 curvepy/trend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 63061d3..c744142 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -843,7 +843,7 @@ class TrendLine(Sequence):
         if self.y_tol_abs is not None:
             y_min = y - self.y_tol_abs
         if self.y_tol_rel is not None and abs(y) > EPSILON_ZERO:
-            y_min_rel = y * (1 - self.y_tol_rel)
+            y_min_rel = y - abs(y) * self.y_tol_rel
             if y_min is None:
                 y_min = y_min_rel
             else:
@@ -857,7 +857,7 @@ class TrendLine(Sequence):
         if self.y_tol_abs is not None:
             y_max = y + self.y_tol_abs
         if self.y_tol_rel is not None and abs(y) > EPSILON_ZERO:
-            y_max_rel = y * (1 + self.y_tol_rel)
+            y_max_rel = y + abs(y) * self.y_tol_rel
             if y_max is None:
                 y_max = y_max_rel
             else:
-- 
2.43.0


From e92aa296c0a1bd561c30d8944d444f5a46a6741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:37 +0000
Subject: [PATCH 42/43] fix: keep the points of a trend line sorted when adding
 coincident ones

---
 curvepy/trend.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index c744142..f9882e9 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -448,12 +448,10 @@ class TrendLine(Sequence):
                 return line
             elif line_len > 2:
                 raise Exception("Expected line")
-            resulting_points = []
+            resulting_points = list(line)
             for p in coincident_points:
                 if _is_point_on_line(line, p, y_tol_rel=self.y_tol_rel, y_tol_abs=self.y_tol_abs):
-                    resulting_points.append(p)
-            resulting_points.insert(0, line[0])
-            resulting_points.append(line[1])
+                    _insort_point_left(resulting_points, p, no_repeat=True)
             return resulting_points
 
         final_points = add_coincident_points(final_line, coincident_points)
-- 
2.43.0


From 2e1470bb3453953a9729791c5ae293925646badb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:37 +0000
Subject: [PATCH 43/43] fix: find trends again after the source changes,
 instead of tracking points twice

---
 curvepy/trend.py | 33 +++++----------------------------
 1 file changed, 5 insertions(+), 28 deletions(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index f9882e9..b5771b8 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -90,34 +90,11 @@ class Trend(Scan):
 
         return is_empty
 
-    def begin_update(self, domain):
-        super().begin_update(domain)
-
-        # remove stale points
-        for i in reversed(range(len(self.points))):
-            p = self.points[i]
-            if domain.contains(p[0]):
-                del self.points[i]
-            elif p[0] < domain.start:
-                break
-
-        def update_nested_line_array(nested_lines):
-            for i in reversed(range(len(nested_lines))):
-                lines = nested_lines[i]
-                update_line_array(lines)
-                if i != 0 and len(lines) == 0:
-                    del nested_lines[i]
-
-        def update_line_array(lines):
-            for i in reversed(range(len(lines))):
-                line = lines[i]
-                line.begin_update(domain, self.points)
-                if line.is_empty:
-                    del lines[i]
-
-        # update_line_array(self.lines)
-        update_nested_line_array(self.nested_upper_lines)
-        update_nested_line_array(self.nested_lower_lines)
+    def reset_scan(self):
+        super().reset_scan()
+        self.points = []
+        self.nested_upper_lines = [[]]
+        self.nested_lower_lines = [[]]
 
     def _scanned_upper(self, x):
         filtered_lines = []
-- 
2.43.0

