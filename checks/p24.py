"""P24: spreading curves scaled, synchronised, written, read and fitted."""

import itertools
import os
import warnings

import numpy as np

from checks.common import Quiet, close, snapshot

PROPERTY = 'P24'
LEVEL = 'model_checking'
TECHNIQUE = ('enumeration of all sets of up to three curves from an alphabet x '
             'scaling factors x synchronisation radii, of all write/read cycles '
             'of curve sets and file layouts, and of all power laws of a '
             'parameter alphabet x limits with disturbed points outside, against '
             'point-by-point definitions')
NOTE = ('all sets of up to 3 of the curves of the alphabet; up to 3 files and two '
        'write/read cycles; all power laws of the alphabet; selected sets of up '
        'to 12 curves of up to 130 (quick) or 1100 points')
RULE = ('a case is one first curve with every other, one block of file layouts, '
        'or one amplitude with every exponent and limits')
ASSUMPTIONS = ['no two points of a curve are equally close to the radius at which '
               'it is synchronised', 'at least two points with positive time and '
               'radius lie inside the limits of a fit', 'files keep six digits']
CHUNK = 1

# (times, radii)
CURVES = [
    ([0.], [0.5]), ([2.5], [3.]), ([0., 1.], [0., 2.]), ([1.5, 4.], [1., 1.25]),
    ([-1., 0., 1.], [0.5, 1., 3.]), ([0., 0.5, 1., 1.5], [0., 1., 1.5, 2.75]),
    ([10., 20., 40., 80., 160.], [1., 2., 4.25, 3., 2.5]),
    ([0.001, 0.002, 0.125], [0.015625, 0.25, 100.5]),
    ([100., 101., 102.], [7., 6., 5.]),
]
FACTORS = [1., 2., 0.25]
RADII = [0., 1.05, 2.1, 3.6, 50.]


def cases(tier):
    quick = tier == 'quick'
    for k in range(len(CURVES)):
        for m in range(3):
            yield {'kind': 'curves', 'first': k, 'part': m, 'full': not quick}
    for lo in range(0, 240 if quick else 1200, 12):
        yield {'kind': 'files', 'lo': lo, 'hi': lo + 12}
    for n in (12, 40, 130) if quick else (12, 40, 130, 1100):
        for count in (1, 2, 9, 12):
            yield {'kind': 'long', 'points': n, 'curves': count}
    for a in (0.5, 1., 2., 13.25):
        for which in range(len(TIMES)):
            yield {'kind': 'fit', 'a': a, 'which': which, 'full': not quick}


def make(curves):
    import pandas as pd
    return [pd.Series(np.array(r), index=np.array(t), name='c%d.1' % i)
            for i, (t, r) in enumerate(curves)]


def same(got, want, tol=1e-9):
    """List of series against list of (times, radii)."""
    if len(got) != len(want):
        return False
    for s, (t, r) in zip(got, want):
        if not (close(np.asarray(s.index, dtype=float), t, tol, tol)
                and close(s.values, r, tol, tol)):
            return False
    return True


def listing(got):
    return [(list(s.index), list(s.values)) for s in got]


def nearest(t, r, radius):
    gaps = sorted((abs(x - radius), i) for i, x in enumerate(r))
    if len(gaps) > 1 and gaps[1][0] - gaps[0][0] < 1e-9:
        return None
    return t[gaps[0][1]]


def synced(curves, radius):
    at = [nearest(t, r, radius) for t, r in curves]
    if None in at:
        return None
    first = min(at)
    return [([x - (a - first) for x in t], r) for a, (t, r) in zip(at, curves)]


def scaled(curves, taus, rs):
    return [([x / tau for x in t], [x / R for x in r])
            for (t, r), tau, R in zip(curves, taus, rs)]


def run(ctx, case):
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    import matplotlib.pyplot as plt
    plt.tight_layout = lambda *a, **k: None
    {'curves': run_curves, 'files': run_files, 'fit': run_fit,
     'long': run_long}[case['kind']](ctx, case)


def fitter(ctx):
    """Fits of curves in memory, or through files if there is no such."""
    try:
        from strata.spreading.fit import get_fitting_parameters
        return get_fitting_parameters
    except ImportError:
        from strata.spreading.fit import fit_spreading_data

        def fitted(series, lims):
            root = ctx.tmpdir()
            paths = []
            for i, s in enumerate(series):
                paths.append('%s/%d.xvg' % (root, i))
                with open(paths[-1], 'w') as fp:
                    fp.write(''.join('%r %r\n' % (float(t), float(r))
                                     for t, r in zip(s.index, s.values)))
            return fit_spreading_data(paths, lims=lims, show=False)
        return fitted


def run_long(ctx, case):
    """Many curves of many points."""
    fitted = fitter(ctx)
    from strata.spreading.view import (combine_spreading_data,
                                       read_spreading_data,
                                       write_spreading_data)
    n, count = case['points'], case['curves']
    for v in range(6):
        curves = []
        for i in range(count):
            m = n - i % 3
            dt = (1., 0.25, 2.5)[(i + v) % 3]
            curves.append((
                [dt * (k + v % 2) - 2. * dt * (v == 3) for k in range(m)],
                [0.5 * i + 0.125 * k + 0.0625 * (k * k % 3) for k in range(m)]))
        series = make(curves)
        ctx.state('long', n, count, v)
        what = '%d curves of about %d points, variant %d' % (count, n, v)
        taus = [(1., 2., 0.25)[(i + v) % 3] for i in range(count)]
        radius = (0.04, 1.05, 0.06 * n, 1e3)[v % 4]
        want = scaled(curves, taus, [2.] * count)
        moved = synced(want, radius)
        kw = {'tau': taus, 'R': 2.}
        if moved is not None:
            kw['sync_radius'] = radius
        got = combine_spreading_data(series, **kw)
        ok = ctx.check(same(got, moved or want), lambda: '%s scaled and '
                       'synchronised with %s: %s, not %s' % (
                           what, kw, listing(got), moved or want))
        path = ctx.tmpdir() + '/c.xvg'
        current = series
        for cycle in (1, 2):
            with Quiet():
                write_spreading_data(path, current)
                current = read_spreading_data(path)
            ok &= ctx.check(same(current, curves, 2e-6), lambda: '%s written and '
                            'read %d times: %s' % (what, cycle, listing(current)))
        a, k = (0.5, 2., 13.25)[v % 3], (0.5, 0.25, -0.5, 1.)[v % 4]
        laws = [(t, [a * (1 + i) * x ** k if x > 0 else 0.125 for x in t])
                for i, (t, _) in enumerate(curves)]
        for lo, hi in ((None, None), (laws[0][0][n // 3], None),
                       (None, laws[0][0][n // 2]),
                       (laws[0][0][n // 4], laws[0][0][n - 4])):
            inside = lambda x: (lo is None or x >= lo) and (hi is None or x <= hi)
            if any(sum(x > 0 and inside(x) for x in t) < 2 for t, _ in laws):
                continue
            given = [(t, [r if inside(x) else 3. * r + 7. for x, r in zip(t, rs)])
                     for t, rs in laws]
            with Quiet():
                got = fitted(make(given), (lo, hi))
            ok &= ctx.check(close(got, [(a * (1 + i), k) for i in range(count)],
                                  1e-4, 1e-5), lambda: '%s, law %g t^%g within '
                            '%s: fitted %s' % (what, a, k, (lo, hi), got))
            ctx.step()
        ok &= ctx.check(same(series, curves), '%s: the curves changed' % what)
        ctx.step(5)
        if ok:
            ctx.trace()
    ctx.sample(points=n, curves=count)


def run_curves(ctx, case):
    from strata.spreading.view import (combine_spreading_data,
                                       scale_spreading_data,
                                       sync_time_at_radius)
    first = CURVES[case['first']]
    seconds = CURVES[case['part']::3]
    groups = [[first]] + [[first, b] for b in seconds]
    groups += [[first, b, c] for b in seconds for c in CURVES]
    v = 0
    for group in groups:
        n = len(group)
        options = [f for f in FACTORS]
        options += [list(fs) for fs in itertools.product(FACTORS, repeat=n)][
            ::1 if n == 1 or case['full'] else 4]
        for tau, R in itertools.product(options, options):
            v += 1
            if n == 3 and not case['full'] and v % 9:
                continue
            taus = tau if isinstance(tau, list) else [tau] * n
            rs = R if isinstance(R, list) else [R] * n
            series = make(group)
            want = scaled(group, taus, rs)
            kw = {}
            if tau != 1. or v % 2:
                kw['tau'] = tau
            if R != 1. or v % 2:
                kw['R'] = R
            got = scale_spreading_data(series, **kw)
            ctx.step()
            ctx.state('scale', case['first'], repr(group), repr(tau), repr(R))
            ok = ctx.check(same(got, want), lambda: 'curves %s scaled by %s: %s, '
                           'not %s' % (group, kw, listing(got), want))
            ok &= ctx.check(same(series, group), lambda:
                            'scaling by %s changed the curves %s to %s' % (
                                kw, group, listing(series)))
            radius = RADII[v % len(RADII)]
            ref = synced(want, radius)
            if ref is not None:
                got = combine_spreading_data(series, sync_radius=radius, **kw)
                ctx.step()
                ok &= ctx.check(same(got, ref), lambda:
                                'curves %s scaled by %s and synchronised at %s: '
                                '%s, not %s' % (group, kw, radius, listing(got),
                                                ref))
            else:
                got = combine_spreading_data(series, **kw)
                ok &= ctx.check(same(got, want), lambda:
                                'curves %s combined with %s: %s, not %s' % (
                                    group, kw, listing(got), want))
            # changing the result does not reach the curves given
            for s in got:
                s.iloc[0] = 99.
            ok &= ctx.check(same(series, group), lambda:
                            'the curves %s changed to %s' % (group,
                                                             listing(series)))
            if ok:
                ctx.trace()
        for radius in RADII:
            ref = synced(group, radius)
            if ref is None:
                continue
            series = make(group)
            got = sync_time_at_radius(series, radius)
            ctx.step()
            ctx.state('sync', case['first'], repr(group), radius)
            ok = ctx.check(same(got, ref), lambda: 'curves %s synchronised at '
                           '%s: %s, not %s' % (group, radius, listing(got), ref))
            ok &= ctx.check(same(series, group), lambda: 'synchronising changed '
                            'the curves %s' % (group,))
            if ok:
                ctx.trace()
    if len(first[0]) > 1:
        for bad in ([1., 2.], [1., 2., 3., 4.]):
            for name in ('tau', 'R'):
                try:
                    scale_spreading_data(make([first] * 3), **{name: bad})
                    ctx.fail('%d factors for 3 curves accepted' % len(bad))
                except TypeError:
                    pass
    ctx.sample(first=first, groups=len(groups))


def plain_text(curves):
    """Columns over the shared times of the first curve."""
    times = curves[0][0]
    lines = ['# Time (ps) Radius (nm)']
    for i, t in enumerate(times):
        lines.append(' '.join('%.10g' % x for x in [t] + [
            r[i] for _, r in curves]))
    return '\n'.join(lines) + '\n'


def xvg_text(sets):
    """Grace sets; a set holds one or more curves over the same times."""
    lines = ['# a comment', '@with g0']
    for i, curves in enumerate(sets):
        lines += ['@target G0.S%d' % i, '@type xy']
        for k, t in enumerate(curves[0][0]):
            lines.append(' '.join('%.10g' % x for x in [t] + [
                r[k] for _, r in curves]))
        if i + 1 < len(sets):
            lines.append('&')
    return '\n'.join(lines) + '\n'


def layouts(v):
    """(text, curves in it) of one input file."""
    a = CURVES[v % len(CURVES)]
    b = CURVES[(v // 2 + 3) % len(CURVES)]
    twin = (a[0], [x + 0.5 for x in a[1]])
    third = (a[0], [2. * x + 0.25 for x in a[1]])
    kind = v // 3 % 7
    if kind == 0:
        return plain_text([a]), [a]
    if kind == 1:
        return plain_text([a, twin]), [a, twin]
    if kind == 2:
        return xvg_text([[a], [b]]), [a, b]
    if kind == 3:
        return xvg_text([[a, twin], [b]]), [a, twin, b]
    if kind == 5:
        return xvg_text([[a, twin, third], [b]]), [a, twin, third, b]
    if kind == 6:
        return plain_text([a, twin, third]), [a, twin, third]
    return xvg_text([[a]]), [a]


def run_files(ctx, case):
    from strata.spreading.view import (read_spreading_data, view_spreading,
                                       write_spreading_data)
    for v in range(case['lo'], case['hi']):
        root = ctx.tmpdir()
        n = 1 + v % 3
        paths, curves = [], []
        for i in range(n):
            text, held = layouts(v + 5 * i)
            paths.append('%s/s%d.xvg' % (root, i))
            with open(paths[-1], 'w') as fp:
                fp.write(text)
            curves += held
        before = snapshot(root)
        ctx.state('files', v)
        what = lambda: 'files %s' % [before['s%d.xvg' % i] for i in range(n)]
        with Quiet() as q:
            data = read_spreading_data(*paths)
        ctx.step(n)
        ok = ctx.check(same(data, curves, 1e-6), lambda:
                       '%s read as %s, not %s; printed %s' % (
                           what(), listing(data), curves, q.out[-200:]))
        if not ok:
            continue
        # two write and read cycles
        current = data
        for cycle in (0, 1):
            out = '%s/new/c%d.xvg' % (root, cycle)
            with Quiet():
                write_spreading_data(out, current)
                current = read_spreading_data(out)
            ctx.step(2)
            ok &= ctx.check(same(current, curves, 2e-6), lambda:
                            '%s written and read %d times: %s, not %s' % (
                                what(), cycle + 1, listing(current), curves))
        ok &= ctx.check(same(data, curves, 1e-6), 'writing changed the curves')
        # the same through the tool, with all it can do to them
        kw = {'save_xvg': root + '/out.xvg'}
        want = curves
        tau, R = ((1., 1.), (2., 1.), (0.5, 4.))[v % 3]
        if v % 4 == 1:
            tau = [FACTORS[(i + v) % 3] for i in range(len(curves))]
        if tau != 1.:
            kw['tau'] = tau
        if R != 1.:
            kw['R'] = R
        taus = tau if isinstance(tau, list) else [tau] * len(curves)
        want = scaled(curves, taus, [R] * len(curves))
        radius = RADII[v % len(RADII)]
        moved = synced(want, radius)
        if v % 2 and moved is not None:
            kw['sync_radius'] = radius
            want = moved
        if v % 5:
            kw['show'] = False
        with Quiet() as q:
            view_spreading(paths, **kw)
            got = read_spreading_data(root + '/out.xvg') \
                if os.path.exists(root + '/out.xvg') else []
        ctx.step()
        ok &= ctx.check(same(got, want, 2e-6), lambda:
                        '%s viewed with %s: wrote %s, not %s; printed %s' % (
                            what(), kw, listing(got), want, q.out[-200:]))
        after = snapshot(root)
        ok &= ctx.check(all(after.get(k) == b for k, b in before.items()),
                        'an input changed')
        if ok:
            ctx.trace()
    ctx.sample(block=[case['lo'], case['hi']])


TIMES = [[1., 2.], [0.5, 1., 4., 9.], [0., 1., 2., 3., 5., 8.],
         [-2., -1., 0.25, 10., 100., 1000.], [0.001, 0.002, 0.004, 0.5],
         [3., 1., 4., 0.5, 2.], [-0.5, 0., 0.25, 1., 2.]]


def run_fit(ctx, case):
    fitted = fitter(ctx)
    a = case['a']
    times = TIMES[case['which']]
    limits = [None] + sorted(set(times)) + [t + 0.125 for t in times[:-1]]
    v = 0
    for k in (0.5, 1., 0.25, -0.5, 2., 0.1, 0.):
        law = [a * t ** k if t > 0 else 0.125 for t in times]
        for lo, hi in itertools.product(limits, repeat=2):
            inside = [(lo is None or t >= lo) and (hi is None or t <= hi)
                      for t in times]
            good = [t for t, i in zip(times, inside) if i and t > 0]
            if len(good) < 2:
                continue
            v += 1
            # points outside of the limits are far off the law
            radii = [r if i else 3. * r + 7. for r, i in zip(law, inside)]
            other = ([0.5, 2., 8.], [3. * t ** 0.75 for t in (0.5, 2., 8.)])
            both = (lo is None or lo <= 0.5) and (hi is None or hi >= 8.)
            curves = [(times, radii)] + ([other] if both and v % 2 else [])
            want = [(a, k)] + ([(3., 0.75)] if len(curves) > 1 else [])
            series = make(curves)
            with Quiet():
                got = fitted(series, (lo, hi))
            ctx.step()
            ctx.state('fit', a, k, case['which'], lo, hi)
            what = lambda: 'curves %s, limits %s' % (curves, (lo, hi))
            ok = ctx.check(close(got, want, 1e-4, 1e-5), lambda:
                           '%s: fitted %s, not %s' % (what(), got, want))
            ok &= ctx.check(same(series, curves), 'the curves changed')
            if v % 4 == 0 or case['full']:
                ok &= fit_files(ctx, what, curves, want, (lo, hi), v)
            if ok:
                ctx.trace()
    ctx.sample(amplitude=a, times=times, fits=v)


def fit_files(ctx, what, curves, want, lims, v):
    """The fitting tool: parameters and the fitted curves it writes."""
    from strata.spreading.fit import fit_spreading_data
    from strata.spreading.view import read_spreading_data
    root = ctx.tmpdir()
    path = root + '/s.xvg'
    with open(path, 'w') as fp:
        fp.write(xvg_text([[c] for c in curves]))
    times = curves[0][0]
    outs = [(None, None), (min(times), max(times)), (times[1], None),
            (None, times[-2] + 0.01), (0., None), (0., max(times))][v % 6]
    kw = {'show': v % 16 == 0}
    if lims != (None, None) or v % 2:
        kw['lims'] = lims
    if outs != (None, None) or v % 3 == 0:
        kw['out_lims'] = outs
    save = v % 8 != 4
    if save:
        kw['save_xvg'] = root + '/fit.xvg'
    with Quiet() as q:
        got = fit_spreading_data([path], **kw)
    ctx.step()
    ok = ctx.check(close(got, want, 1e-3, 1e-4), lambda:
                   '%s as files with %s: fitted %s, not %s; %s' % (
                       what(), kw, got, want, q.out[-200:]))
    if save and ok:
        ref = []
        for (t, _), (a, k) in zip(curves, got):
            keep = [x for x in t if (outs[0] is None or x >= outs[0])
                    and (outs[1] is None or x <= outs[1])]
            if not keep:
                return ok
            if min(keep) < 0 or (min(keep) == 0 and k < 0):
                return ok           # the law has no value there
            ref.append((keep, [a * x ** k if x else float(k == 0) * a
                               for x in keep]))
        with Quiet() as q:
            back = read_spreading_data(root + '/fit.xvg')
        # the law is drawn where the data is; values keep six digits
        ok &= ctx.check(same(back, ref, 2e-5) or any(
            r == 0 for _, rs in ref for r in rs) and len(back) == len(ref)
            and same(back, ref, 1e-3), lambda:
            '%s with %s: wrote %s, not %s' % (what(), kw, listing(back), ref))
    return ok
