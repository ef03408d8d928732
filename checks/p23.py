"""P23: area, length and contact angles of interface outlines."""

import itertools
import math
import os
import warnings

import numpy as np

from checks.common import Quiet, close, snapshot

PROPERTY = 'P23'
LEVEL = 'model_checking'
TECHNIQUE = ('enumeration of all outlines over an alphabet of edges and up to '
             'four layers, with all shifts and mirror images, against the '
             'shoelace formula and plane trigonometry; all short series of '
             'outline files x measuring heights x options through the file tools')
NOTE = ('all outlines of up to 3 (quick) or 4 (thorough) layers with edges from '
        '5 positions per side; series of up to 5 files; selected outlines of up '
        'to 130 (700) layers and series of up to 25 (130) files')
RULE = ('a case is one layer set with a block of outlines, or one block of series '
        'settings')
ASSUMPTIONS = ['the left edge is not to the right of the right edge', 'the '
               'measuring height is nearest to a single layer, which is not the '
               'base', 'for angles the outline has at least two layers, and '
               'for the circle it starts at height zero']
CHUNK = 1

LEFT = [-3., -2.25, -1., 0., 0.5]
RIGHT = [0.5, 1., 2.25, 4., 5.5]
SHIFTS = [0., 10.5, -100.25]
BASES = [0., 2.5, -1.75, 40.]
HEIGHTS = [(0.,), (0., 1.), (0., 0.25, 0.5), (0., 0.5, 2.), (0., 1., 2., 3.),
           (0., 0.125)]


def cases(tier):
    quick = tier == 'quick'
    for hs in HEIGHTS:
        if quick and len(hs) > 3:
            continue
        for l in itertools.product(range(5), repeat=min(len(hs), 2)):
            yield {'kind': 'shapes', 'heights': list(hs), 'left': list(l),
                   'full': not quick}
    n = 288 if quick else 1728
    for lo in range(0, n, 16):
        yield {'kind': 'series', 'lo': lo, 'hi': lo + 16}
    for layers in (12, 40, 130) if quick else (12, 40, 130, 700):
        yield {'kind': 'tall', 'layers': layers}
    for n in (12, 25) if quick else (12, 25, 104, 130):
        for lo in range(0, 24 if quick else 72, 4):
            yield {'kind': 'long', 'files': n, 'lo': lo, 'hi': lo + 4}


def outlines(case):
    """Outlines [(height, left, right)] with the given first left edges."""
    hs = case['heights']
    rest = len(hs) - len(case['left'])
    k = 0
    for more in itertools.product(range(5), repeat=rest):
        ls = [LEFT[i] for i in list(case['left']) + list(more)]
        for rs in itertools.product(RIGHT, repeat=len(hs)):
            k += 1
            if len(hs) == 4 and k % 7:
                continue
            yield list(zip(hs, ls, rs))


def coords(o):
    xs = [l for _, l, _ in o] + [r for _, _, r in o[::-1]]
    ys = [h for h, _, _ in o] + [h for h, _, _ in o[::-1]]
    return np.array(xs), np.array(ys)


def area(o):
    xs, ys = coords(o)
    n = len(xs)
    twice = sum(xs[i] * ys[(i + 1) % n] - xs[(i + 1) % n] * ys[i]
                for i in range(n))
    return -0.5 * twice             # clockwise


def length(o):
    xs, ys = coords(o)
    return sum(math.hypot(xs[i + 1] - xs[i], ys[i + 1] - ys[i])
               for i in range(len(xs) - 1))


def angles(o, height):
    """(left, right), or None where the nearest layer is no other or not one."""
    gaps = sorted((abs(h - o[0][0] - height), k) for k, (h, _, _) in enumerate(o))
    if gaps[0][1] == 0 or (len(gaps) > 1 and gaps[1][0] - gaps[0][0] < 1e-6):
        return None
    h, l, r = o[gaps[0][1]]
    up = h - o[0][0]
    return (math.degrees(math.atan2(up, l - o[0][1])),
            math.degrees(math.atan2(up, o[0][2] - r)))


def segment(o):
    """Angle of the circle segment through both base edges and the top."""
    chord, top = o[0][2] - o[0][1], o[-1][0]
    if chord <= 0 or top <= 0:
        return None
    radius = (chord ** 2 / 4. + top ** 2) / (2. * top)
    half = math.degrees(math.asin(min(1., chord / (2. * radius))))
    return half if top <= radius else 180. - half


def moved(o, shift, up):
    return [(h + up, l + shift, r + shift) for h, l, r in o]


def mirrored(o):
    return [(h, -r, -l) for h, l, r in o]


def run(ctx, case):
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    import matplotlib.pyplot as plt
    plt.tight_layout = lambda *a, **k: None
    {'shapes': run_shapes, 'series': run_series, 'tall': run_tall,
     'long': run_long}[case['kind']](ctx, case)


def slanted(n, left, right, wiggle, dy=0.25):
    """Outline of many layers whose sides lean and wiggle."""
    return [(j * dy, -5. + 0.25 * ((left * j) // 4) + 0.25 * (j * wiggle % 5),
             80. + 0.25 * ((right * j) // 4) - 0.25 * (j * wiggle % 7))
            for j in range(n)]


def run_tall(ctx, case):
    n = case['layers']
    some = [slanted(n, left, right, wiggle)
            for left in (-2, 0, 1) for right in (-1, 0, 2) for wiggle in (0, 1, 3)]
    compare_shapes(ctx, case, some)
    ctx.sample(layers=n)


def run_long(ctx, case):
    for v in range(case['lo'], case['hi']):
        one_series(ctx, v, case['files'], (None, 30, 9)[v % 3])
    ctx.sample(block=[case['lo'], case['hi']], files=case['files'])


def run_shapes(ctx, case):
    compare_shapes(ctx, case, outlines(case))


def compare_shapes(ctx, case, some):
    from strata.interface.sample import calc_length, get_area_of_interface
    for k, o in enumerate(some):
        a, c = area(o), length(o)
        todo = [o, mirrored(o), moved(o, SHIFTS[1 + k % 2], 0.),
                moved(o, 0., 3.5)]
        for m, other in enumerate(todo):
            xs, ys = coords(other)
            saved = xs.copy(), ys.copy()
            with Quiet():
                got_a = get_area_of_interface(xs, ys)
                got_c = calc_length(xs, ys)
                short = calc_length(xs[:-1], ys[:-1]), calc_length(xs[1:], ys[1:])
            ctx.step(4)
            ctx.state('shape', tuple(o), m)
            ok = ctx.check(close(got_a, a, 1e-9, 1e-9), lambda:
                           'area of %s is %s, not %s' % (other, got_a, a))
            ok &= ctx.check(close(got_c, c, 1e-9, 1e-9), lambda:
                            'length of %s is %s, not %s' % (other, got_c, c))
            ends = [math.hypot(xs[k + 1] - xs[k], ys[k + 1] - ys[k])
                    for k in (-2, 0)]
            ok &= ctx.check(close(short, [c - e for e in ends], 1e-9, 1e-9),
                            lambda: 'length of %s without its last or first point '
                            'is %s, not %s' % (other, short, [c - e for e in ends]))
            ok &= ctx.check(np.array_equal(saved[0], xs)
                            and np.array_equal(saved[1], ys),
                            'the coordinates changed')
            if ok:
                ctx.trace()
    ctx.sample(last=o[:5], area=a, length=c)


def text_of(o, v):
    xs, ys = coords(o)
    return ['# an outline\n# x (nm) y (nm)\n', '', '# x y\n'][v % 3] + ''.join(
        '%.3f %.3f\n' % r for r in zip(xs, ys))


def rows_of(path):
    with open(path) as fp:
        return [[float(c) for c in line.split()] for line in fp
                if line.strip() and not line.startswith('#')]


def run_series(ctx, case):
    for v in range(case['lo'], case['hi']):
        one_series(ctx, v)
    ctx.sample(block=[case['lo'], case['hi']])


def one_series(ctx, v, n=None, layers=None):
    from strata.interface.angle import interface_contact_angle
    from strata.interface.sample import sample_interfaces
    root = ctx.tmpdir()
    n = n or 1 + v % 5
    begin = (1, 1, 3)[v // 5 % 3]
    ext = ('.xvg', '.out')[v // 2 % 2]
    series = []
    for i in range(n):
        hs = HEIGHTS[1 + (v + 2 * i) % 5]
        ls = [LEFT[(3 * i + 2 * j + v) % 4] for j in range(len(hs))]
        rs = [RIGHT[(2 * i + 3 * j + v // 3) % 4 + 1] for j in range(len(hs))]
        # height zero for a circle, which is cut off by the substrate
        up = BASES[(v // 3 + i * (v // 12 % 2)) % 4] if v % 3 else 0.
        o = list(zip(hs, ls, rs))
        if layers:
            o = slanted(layers + i % 3, i % 5 - 2, i % 4 - 1, v % 4)
        series.append(moved(o, 0., up))
    if v % 6 == 1:
        # a single layer has no area and no angle, but a length
        series[-1] = [(0., -1., 2.5)]
    # a file whose sides do not match has no area, and those behind it keep
    # their times; it still has a length
    bad = (n - 2 if n > 1 and v % 4 == 2 and v % 3 else None)
    # the right side of which is as high as the left, but stands higher
    slid = (0., 0.5, 2.)[v // 4 % 3] if bad is not None else 0.
    for i, o in enumerate(series):
        with open('%s/i%05d%s' % (root, begin + i, ext), 'w') as fp:
            text = text_of(o, v + i)
            if i == bad and slid:
                text = '\n'.join('%s %s' % (x, h) for h, x, _ in o) + '\n'
                text += '\n'.join('%s %s' % (x, h + slid)
                                  for h, _, x in o[::-1]) + '\n'
            elif i == bad:
                text += '%s 9.5\n%s 9.25\n' % (o[0][2] + 1., o[0][2] + 1.)
            fp.write(text)
    with open('%s/i%05d%s' % (root, begin + n + 1, ext), 'w') as fp:
        fp.write(text_of(series[0], v))
    before = snapshot(root)
    base = {}
    if begin != 1:
        base['begin'] = begin
    if v % 4 == 3:
        base['end'] = begin + n - 1
    if ext != '.xvg':
        base['ext'] = ext
    if v % 3:
        base['quiet'] = bool(v % 3 == 1)
    dt = (1., 2.5, 0.5)[v % 3]
    if dt != 1. or v % 2:
        base['delta_t'] = dt
    times = [i * dt for i in range(n)]
    ctx.state('series', v)

    for variable, func in (('area', area), ('length', length)):
        kw = dict(base)
        out = None
        if v % 5:
            kw['save_xvg'] = out = '%s/out/%s.xvg' % (root, variable)
        if v % 2:
            kw['show'] = False
        with Quiet() as q:
            got = sample_interfaces(root + '/i', variable, **kw)
        ctx.step(n)
        ref = [func(o) for o in series]
        at = list(times)
        if bad is not None and variable == 'area':
            del ref[bad], at[bad]
        elif slid:
            h, l, r = series[bad][-1]
            ref[bad] += math.hypot(r - l, slid) - (r - l)
        elif bad is not None:
            h, _, r = series[bad][0]
            ref[bad] += math.hypot(1., 9.5 - h) + 0.25
        what = lambda: '%s of %s with %s' % (variable, series, kw)
        ok = ctx.check(close(got[0], at) and close(got[1], ref, 1e-9, 1e-9),
                       lambda: '%s: %s at %s, not %s at %s; printed %s' % (
                           what(), got[1], got[0], ref, at, q.out[-200:]))
        if out:
            ok &= ctx.check(close(rows_of(out), list(zip(at, ref)), 0, 6e-4),
                            lambda: '%s: wrote %s, not %s' % (
                                what(), rows_of(out), list(zip(at, ref))))
        if ok:
            ctx.trace()

    if bad is not None:
        return
    for fit, height in itertools.product((False, True), 
            (None, 0.25, 0.7, 1.1, 9.) + ((4.3, 7.) if layers else ())):
        if not fit and height is None:
            continue
        both = [angles(o, height) if height is not None else (0, 0)
                for o in series]
        if fit and any(o[0][0] for o in series):
            continue
        circle = [segment(o) if fit else 0 for o in series]
        if None in both or None in circle:
            continue
        kw = dict(base)
        if fit or v % 2:
            kw['fit'] = fit
        if height is not None or v % 2:
            kw['height'] = height
        out = None
        if v % 5:
            kw['save_xvg'] = out = '%s/out/a_%s_%s.xvg' % (root, fit, height)
        kw['show'] = v % 7 == 0
        if v % 5 == 2 and not fit:
            # mirror images have left and right swapped
            root2 = ctx.tmpdir()
            for i, o in enumerate(series):
                with open('%s/i%05d%s' % (root2, begin + i, ext), 'w') as fp:
                    fp.write(text_of(mirrored(moved(o, 7.5, 0.)), v))
            kw2 = {k: x for k, x in kw.items() if k != 'save_xvg'}
            with Quiet():
                _, swapped = interface_contact_angle(root2 + '/i', **kw2)
            ctx.check(close(swapped['left'], [b for _, b in both], 0, 1e-6)
                      and close(swapped['right'], [a for a, _ in both], 0, 1e-6),
                      lambda: 'angles of mirrored %s: %s, not %s swapped' % (
                          series, swapped, both))
        with Quiet():
            t, got = interface_contact_angle(root + '/i', **kw)
        ctx.step(n)
        what = lambda: 'angles of %s with %s' % (series, kw)
        ok = ctx.check(close(t, times), lambda: '%s: times %s' % (what(), t))
        cols = [times]
        want = {'left': [], 'right': [], 'measured': [], 'fit': []}
        if height is not None:
            want['left'] = [a for a, _ in both]
            want['right'] = [b for _, b in both]
            want['measured'] = [0.5 * (a + b) for a, b in both]
            cols += [want['measured'], want['left'], want['right']]
        if fit:
            want['fit'] = circle
            cols.append(circle)
        for key, ref in want.items():
            ok &= ctx.check(close(got[key], ref, 1e-7, 1e-6), lambda:
                            '%s: %s %s, not %s' % (what(), key, got[key], ref))
        if out and ok:
            rows = rows_of(out)
            ok &= ctx.check(close(rows, list(zip(*cols)), 0, 6e-4), lambda:
                            '%s: wrote %s, not %s' % (what(), rows,
                                                      list(zip(*cols))))
        ctx.state('angles', v, fit, height)
        if ok:
            ctx.trace()
    after = snapshot(root)
    ctx.check(all(after.get(k) == b for k, b in before.items()),
              'an input changed')
