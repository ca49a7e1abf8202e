"""Writes /verif/properties.jsonl from one table (kept readable here)."""
import json, os
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': quant}, 'why_tests_cant': why,
              'anchors': {'files': files,
                          'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': list(observe), 'hook_needed': None}})


prop('C01', 'Curve arithmetic is pointwise',
     'A curve built from curves, numbers or callables with + - * / **, unary minus, abs, log or the n-ary '
     'add/subtract/multiply/divide/pow/log constructors has, at every x, exactly the value of that operation applied left '
     'to right to the operands\' values at x. It has no value (None) where any operand has none or x is outside the '
     'intersection of the operands\' domains, and that intersection is its domain. Division by a zero value yields plus or '
     'minus infinity by the sign of the dividend (plus infinity for 0/0) instead of failing. A map of a single operand '
     '(unary minus, abs, log) has a value exactly where the operand has one.',
     ['inputs'], 'all operand curves (any domain, any values including None), all x, both operand orders',
     'Tests evaluate a few constants and lines at two or three x; the claim is about every operand function, domain '
     'shape and missing value.',
     ['curvepy/curve.py', 'curvepy/aggregate.py', 'curvepy/map.py'],
     [('operator overloads and *_many', 'Curve.__add__ .. Curve.log_many'), ('Aggregate.y / get_domain', 'aggregate.py')],
     ['value and domain of the combined curve'])
prop('C02', 'min, max and first select the right value',
     'Curve.min and Curve.max yield at every x of the intersection of the domains the least / greatest of the operands\' '
     'existing values, and with ignore_empty they do so over the smallest interval covering all domains; Curve.first yields '
     'over that covering interval the value of the first operand, in order, that has one at x. They yield None where no '
     'operand has a value and outside the domain.',
     ['inputs'], 'any number of operands, all values and None patterns, all domains, all x',
     'Tests use two curves and a handful of x values; ties, None in every position and mixed open/closed domains are not '
     'reached.',
     ['curvepy/curve.py', 'curvepy/aggregate.py'],
     [('min_vals/max_vals/first_val', 'Curve.min, Curve.max, Curve.first')], ['value and domain of the selection'])
prop('C03', 'Points evaluate to the stored or interpolated value',
     'A point series over strictly ascending x has the closed domain from first to last x, returns each stored y at its x '
     'and, between two neighbours, the linear interpolation, the previous or the next y according to its interpolation mode, '
     'with no value outside the domain (and none when linear interpolation meets a missing neighbour). This holds equally '
     'for regularly and irregularly spaced series; a series declared uniform rejects irregular spacing.',
     ['inputs'], 'all series lengths, coordinates, modes, spacing kinds and x',
     'Tests interpolate on 3-point integer grids; spacing detection, boundaries of each segment and irregular spacing are '
     'unbounded families of inputs.',
     ['curvepy/points.py'], [('Points.y, x_index, _points_equally_spaced, _bisect_points', 'points.py')],
     ['y, y_start, y_end, first_point, last_point, domain'])
prop('C04', 'Editing points behaves like editing an ordered table',
     'After append, append_list, replace (with or without or_append), reset or set, a point series holds exactly the points '
     'the operation describes, in order, and evaluates and navigates exactly like a series freshly built from them. An edit '
     'that is rejected (out of order, irregular on a uniform series, replacing outside the bounds) leaves points, domain and '
     'update state as they were. Observers receive one begin and one end notification per accepted edit, whose interval '
     'contains the x of every point added, removed or changed.',
     ['inputs', 'histories'], 'all series, all edit operations and arguments, all sequences of edits',
     'Tests run single edits on 3 points; histories (edit after rejected edit, edit after reset) are not sampled.',
     ['curvepy/points.py', 'curvepy/curve.py'],
     [('Points.append_list/replace/reset/set', 'points.py'), ('begin_update/end_update', 'curve.py')],
     ['sample_points, y, domain, is_updating, observer calls'])
prop('C05', 'Navigation and sampling of points hit exactly stored points',
     'On a point series, x_next(x) is the least stored x not less than x + min_step and x_previous(x) the greatest stored x '
     'not greater than x - min_step, or None when there is none; sampling a domain without a coarser step returns exactly '
     'the stored points whose x lies in that domain, in order, respecting open and closed ends; sampling with a step (other '
     'than the spacing) returns the values at start, start+step, ... up to the end.',
     ['inputs'], 'all series, spacing kinds, x, min_step, domains of any shape',
     'Tests use one 3- or 4-point grid; off-grid and open/closed boundaries at every position are unbounded.',
     ['curvepy/points.py', 'curvepy/curve.py'],
     [('Points.x_next, x_previous, sample_points, _domain_indexes', 'points.py')], ['x_next, x_previous, sample_points'])
prop('C06', 'Observers see every overlapping update, once, until removed',
     'For every begin/end update sequence, an observer\'s begin callback runs for each begun interval that overlaps its '
     'domain and is not already covered by the pending update, and its end callback runs exactly once, after the ended '
     'intervals cover the begun ones, with an interval covering both, and only if that overlaps its domain (a single point touching an open end is left open); the curve reports '
     'is_updating exactly in between. Callbacks run in registration order with prioritised observers first, receive the '
     'interval only if they take a positional argument, and are never called after removal, whether by token, by object, '
     'automatically on the object\'s death, or during a notification.',
     ['histories', 'inputs'], 'all sequences of add/remove/begin/end with arbitrary intervals and observer domains',
     'Tests fire a couple of fixed updates; overlap rules and nesting depend on arbitrary interval shapes and orders.',
     ['curvepy/curve.py', 'curvepy/util.py'],
     [('add_observer, remove_observer, begin_update, end_update', 'curve.py')], ['callback invocations and arguments'])
prop('C07', 'Derived curves never go stale',
     'After any sequence of edits to a source curve, every curve derived from it (map, arithmetic, offset, piecewise, '
     'extension, running accumulation, integral, EMA, SMA, trailing window) has the domain and the values that a newly '
     'derived curve would have, whatever was evaluated before or during the edits. Observers of the derived curve hear a begin '
     'notification first and an end notification last, and no derived curve is left in the updating state.',
     ['histories'], 'all derivations, all interleavings of queries and edits',
     'Staleness depends on the order of queries and edits; tests try one or two orders.',
     ['curvepy/curve.py', 'curvepy/scan.py', 'curvepy/accumulator.py', 'curvepy/aggregate.py', 'curvepy/map.py',
      'curvepy/offset.py', 'curvepy/piecewise.py', 'curvepy/extension/extension.py'],
     [('domain cache invalidation and scan resets on update', 'Curve.end_update, Scan.begin_scan_update, '
       'Accumulator.begin_update, Extension.end_extension_update')], ['y, domain, is_updating, observer calls'])
prop('C08', 'Lines, constants and sines follow their formulas',
     'A line through two points, or given by point and slope or by constant and slope, satisfies its defining data, inverts '
     'y to x, reports its slope as derivative and its intercept as const, and its partial integration equals the exact '
     'area; a constant has its value and zero derivative everywhere; a sine has the stated amplitude, frequency, period and '
     'phase and its derivative is the derivative of its value. Setting a line, constant or sine takes effect at once and notifies '
     'observers (of a line or constant only when it changes); an invalid description changes nothing. A horizontal line has '
     'no inverse and a vertical one is not a curve.',
     ['inputs'], 'all parameters and x',
     'Tests check a few integers; the formulas must hold for all reals.',
     ['curvepy/line.py', 'curvepy/constant.py', 'curvepy/sin.py'],
     [('Line.set, Line.partial_integration, Sin.set, Constant.value', 'line.py, sin.py, constant.py')],
     ['y, x, d_y, partial_integration, observer calls'])
prop('C09', 'Offset translates a curve',
     'The offset of a curve by h has at every x the value and slope the curve has at x - h, its domain and its step points '
     'are those of the curve moved by h with the same open and closed ends, and changes of the curve are notified on the '
     'moved interval. With a duration, whole periods are added instead, values between period starts being interpolated '
     'linearly (for domains that end on period starts), and a zero offset is the identity.',
     ['inputs'], 'all curves, offsets, x and domains, including infinite ones',
     'Tests offset one small series; infinite ends, missing values and stepping are not covered.',
     ['curvepy/offset.py'], [('Offset.y, x_next, x_previous, _offset_interval', 'offset.py')],
     ['y, d_y, domain, x_next, x_previous, notifications'])
prop('C10', 'Accumulation is the left fold of its source',
     'An accumulator has at each sample point of its source the left fold of its function over all samples up to that point, '
     'starting from None, with interpolation between them. The result does not depend on the order, number or position of '
     'earlier queries, every sample is folded exactly once and in ascending order, and after the source changes the values '
     'are those of a new accumulator.',
     ['inputs', 'histories'], 'all source series, fold functions, query orders and edits',
     'A lazily resumed scan has unboundedly many query orders and edit points; tests use one ascending query order.',
     ['curvepy/scan.py', 'curvepy/accumulator.py'], [('Scan.scan, Accumulator._accumulate', 'scan.py, accumulator.py')],
     ['y, sample_points, calls of the fold function'])
prop('C11', 'The integral is the exact cumulative area',
     'The integral of a point series at a sample point equals its constant plus the sum of segment areas from the first '
     'sample: trapezoids for linear, left rectangles for previous and right rectangles for next interpolation. It is the '
     'constant at the first sample and additive, and independent of query order; segments without both ends add nothing.',
     ['inputs', 'histories'], 'all series, constants, interpolation modes, query orders',
     'Tests integrate two tiny series; additivity and all modes over arbitrary data are not reached.',
     ['curvepy/integral.py', 'curvepy/line.py', 'curvepy/accumulator.py'],
     [('Integral._integral_scan', 'integral.py')], ['y, sample_points'])
prop('C12', 'EMA follows its recurrence',
     'An EMA starts at the first existing sample with that sample (or the init function\'s value there) and at each later '
     'sample moves from its previous value towards the sample by the factor alpha, or by the elapsed x divided by the period; '
     'missing samples leave it unchanged, the elapsed x counting from the previous sample point. It never depends on query order and stays within the range of the samples seen '
     'when alpha is between 0 and 1.',
     ['inputs', 'histories'], 'all series (with missing values), alphas, periods, init functions, query orders',
     'Tests check a short series; the recurrence must hold at every sample for every input.',
     ['curvepy/ema.py', 'curvepy/accumulator.py'], [('EMA._ema_scan', 'ema.py')], ['y at sample points'])
prop('C13', 'SMA is the mean of the trailing window',
     'At a sample point with enough history, the simple moving average of a point series equals the area of the linearly '
     'interpolated series over the trailing window (degree - 1 steps, or the period) divided by the window\'s length, and '
     'the sample itself for a window of one point. Its domain starts where the first full window ends, and values are '
     'independent of query order. Between sample points it is interpolated linearly.',
     ['inputs', 'histories'], 'all series, degrees, periods, query orders',
     'Tests check one linear ramp and a few values.',
     ['curvepy/sma.py', 'curvepy/integral.py'], [('SMA.y, _sma_start, _sma_end, get_domain', 'sma.py')], ['y, domain'])
prop('C14', 'Trailing windows see exactly the last samples',
     'A trailing window of degree n over a point series passes to its function exactly the last n samples up to and including x, newest first '
     '(fewer at the start); a window of period p passes exactly the samples in [x - p, x]. trailing_min and trailing_max '
     'therefore yield the minimum and maximum over that window at every sample.',
     ['inputs', 'histories'], 'all series, degrees, periods, functions, query orders',
     'Tests look at one short series and one degree.',
     ['curvepy/accumulator_map.py', 'curvepy/curve.py'], [('AccumulatorMap._accumulator_map_scan', 'accumulator_map.py')],
     ['y, arguments of the window function'])
prop('C15', 'Extensions keep the curve and continue it',
     'An extended curve equals the original on its domain and has the union of that domain and the requested infinite ends '
     'as domain: beyond an end it keeps the end value (constant), follows the line through the end point with the end slope '
     '(tangent), or a sine of the given period matching value and slope there (sin). An end that was not requested stays '
     'outside the domain, an already infinite end is left alone, an end without value or slope and an empty curve are not '
     'extended.',
     ['inputs', 'histories'], 'all curves, requested ends, x, edits',
     'Tests extend one two-point series; open ends, empty curves and edits after extension are not covered.',
     ['curvepy/extension/extension.py', 'curvepy/extension/constant.py', 'curvepy/extension/tangent.py',
      'curvepy/extension/sin.py'], [('Extension.y, update_extension', 'extension/')], ['y, domain'])
prop('C16', 'Piecewise and blend pick and mix the right parts',
     'A piecewise curve has at x the value of the part whose sub-domain contains x, respecting open and closed ends, None '
     'elsewhere, and the covering interval of its sub-domains as domain. A blend (start and stop inside the domain of the first curve, '
     'which is its domain) equals the first curve before the blend start, the second after the blend stop, and in between the '
     'linear mix of both whose weight grows from 0 to 1.',
     ['inputs'], 'all parts, sub-domain partitions, blend intervals and x',
     'Tests use one partition; boundaries with each open/closed combination and gaps are not covered.',
     ['curvepy/piecewise.py', 'curvepy/curve.py'], [('Piecewise.y, Curve.blend', 'piecewise.py, curve.py')], ['y, domain, x_next, x_previous'])
prop('C17', 'Stepping, sampling and range of a general curve are sound',
     'For any curve, x_next and x_previous from an x inside the domain advance by the larger of the requested and own '
     'minimum step, never beyond the limit, and give None where that leaves the domain; the derivative is the difference quotient to that neighbour; sampling a '
     'finite domain returns strictly ascending points of the curve inside the domain, including its closed ends, at multiples '
     'of an explicit step; sampling from a point returns the requested number of consecutive neighbours; the range is the '
     'interval of the least and greatest sampled values.',
     ['inputs'], 'all curves, domains, steps, limits',
     'Tests sample one function with one step; termination and end handling depend on domain, step and limit.',
     ['curvepy/curve.py', 'curvepy/generic.py'], [('Curve.x_next .. Curve.get_range', 'curve.py')],
     ['x_next, x_previous, d_y, sample_points, sample_points_from_x, get_range'])
prop('C18', 'JSON descriptors build the curve they describe',
     'Parsing a descriptor yields the same curve as calling the named constructor or method with the described arguments: '
     'functions nest and chain, the running curve is passed as first argument, positional numbers inside @log, @log2 or @log10 are taken '
     'to that logarithm and the result is raised back by that base, @date strings with a UTC offset become timestamps, @args supply positional '
     'arguments, and unknown functions or misplaced keys are rejected. Parsing other objects keeps curves, wraps numbers, '
     'callables and point lists, and never changes its input.',
     ['programs', 'inputs'], 'all nestings of the descriptor grammar, all literals',
     'Tests parse about ten fixed descriptors; nesting and decorator scope are recursive.',
     ['curvepy/curve.py'], [('Curve.parse, Curve.parse_descriptor', 'curve.py')], ['value and domain of the parsed curve'])
prop('C19', 'Trend lines use sound geometry and report only qualifying lines',
     'The line through two points passes through both, its value and its inverse at any coordinate lie on it, and the '
     'intersection of two lines lies on both; tolerance tests accept exactly values within the absolute and relative '
     'tolerance. Points inserted into the sorted lists keep them sorted. A trend reports at x only lines of the asked side '
     'that are valid, at least min_width wide, with at least min_points trend points that keep the minimum distance, and whose search '
     'interval contains x; their trend points are samples of the series, in order. After edits of the series a trend read to '
     'its end reports the lines a new trend would.',
     ['inputs', 'histories'], 'all point pairs, lines, tolerances, source series',
     'No trend test is active in the suite; only these checks exercise the code.',
     ['curvepy/trend.py'], [('_line_y, _line_x, _line_intersection, _is_value_within_tolerance, _insort_point_left, '
                             'Trend._line_filter, TrendLine.is_valid, Trend.reset_scan', 'trend.py')], ['helpers, upper, lower, lines'])
prop('C20', 'Extremas alternate and are the true extremes of each phase',
     'The confirmed extremas of a series against a reference are in strictly ascending x, alternate between above and below '
     'the reference, and each is the first most extreme sample of its phase, where samples that deviate from the reference by no '
     'more than the minimum (a fraction of the reference) or lack a value belong to no phase, and the last phase is unconfirmed; '
     'between them the curve interpolates linearly. This is independent of query order and of appending samples one by one '
     'or at once, and after an edit of the series or of the reference they are those of the edited curves.',
     ['inputs', 'histories'], 'all series, reference values, deviations, query and append orders',
     'Tests scan one hand-written wave.',
     ['curvepy/extremas.py'], [('Extremas._extrema_scan, scanned_y', 'extremas.py')], ['extremas, y'])
prop('C21', 'Quotes expose the stored quotes through every view',
     'After any sequence of set, append and append_list, the quote curve holds each given quote exactly once, encoded exactly '
     'once by the encoder; at any time in the domain the open, high, low, close, hl2 and volume views give that component of '
     'the last quote at or before it, first and last quote are the boundary ones, sampling returns exactly the quotes whose '
     'period meets the domain, the range spans the lowest low to the highest high, and trailing high and low are the maximum '
     'high and minimum low of the trailing window.',
     ['inputs', 'histories'], 'all quote series, encoders, edit histories, query times',
     'Tests use a fixed list of quotes and no encoder on append.',
     ['curvepy/quotes.py', 'curvepy/points.py'], [('Quotes.set/append/append_list/sample_points', 'quotes.py')],
     ['views, sample, get_range, trailing_high, trailing_low'])
prop('C22', 'Maps, subsets and differentials act pointwise',
     'A mapped curve has at x the function applied to x and the source value (or only the value, or None for a missing value '
     'when skipping), with the source\'s domain and its step points at the larger minimum step; a subset equals the source '
     'inside the given domain and has no value outside; the differential equals the source\'s backward (or forward) '
     'derivative at every x.',
     ['inputs'], 'all sources, functions, domains and x',
     'Tests map one function over a few values.',
     ['curvepy/map.py', 'curvepy/generic.py', 'curvepy/curve.py'], [('Map.y, Generic.y, Curve.differential', 'map.py, generic.py')],
     ['y, domain, x_next, x_previous'])
prop('C23', 'Minimise and maximise walk to the optimum',
     'Minimise (maximise) started at x walks by the given step, or the curve\'s own steps of at least min_step, each time to '
     'the side on which the curve\'s slope leads down (up) - at a summit (bottom) to either side - and returns the first point '
     'from which neither side leads down (up), x itself included. It returns the point before if the next has no value or '
     'there is none, None where the only existing slope leads away from the side without one, and takes at most '
     'max_iterations steps. Hence from any sample of a unimodal series it finds the optimum.',
     ['inputs'], 'all curves, starts, steps, iteration limits',
     'Tests minimise one parabola.',
     ['curvepy/curve.py'], [('Curve.minimise, Curve.maximise', 'curve.py')], ['return value, evaluation count'])
prop('C24', 'Regression is the least-squares line',
     'The regression of a curve over a domain is the line through both samples when there are two, the least-squares line '
     'through all samples when there are more, and None when there are fewer than two samples or one has no value.',
     ['inputs'], 'all sample sets',
     'Tests fit one exact line.',
     ['curvepy/curve.py'], [('Curve.regression', 'curve.py')], ['const and slope of the returned line'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
