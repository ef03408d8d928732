"""P06: averages of bundles of maps."""

import itertools
import os
import warnings

import numpy as np

from checks.common import (LARGE, fillings, ALL, FIELDS, Grid, close, gmx_bytes, parse_gmx,
                           permutations_of, plain_bytes, simple_bytes, snapshot,
                           Quiet)

PROPERTY = 'P06'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit enumeration of every assignment of a bin alphabet '
             '(empty, weightless, cancelling, ordinary bins) to the bins of two '
             'to four maps, and of every series x bundle x rolling x limits '
             'through the file pipeline, against textbook weighted means')
NOTE = ('exhaustive for up to 4 maps of 1 bin, 2 (quick) or 3 (thorough) maps of '
        '2 bins, and series of up to 6 (quick) or 8 (thorough) frames; of larger maps '
        'and series some contents and bundle sizes')
RULE = ('a case is a block of bin assignments averaged in every order of the '
        'maps, or one series of files averaged with every begin, end, bundle '
        'size and rolling choice')
ASSUMPTIONS = ['mass and number densities are not negative']
CHUNK = 2

# (M, N, T, U, V): empty, weightless with values, ordinary, cancelling flow,
# mass without number, number without mass
BINS = [(0., 0., 0., 0., 0.), (0., 0., 300., 4., -2.), (1., 2., 300., 1., -1.),
        (2., 1., 150., -1., 0.5), (4., 0., 75., 8., 0.25), (0., 3., 20., 3., 3.)]
ORDER = ('M', 'N', 'T', 'U', 'V')
WEIGHT = {'U': 'M', 'V': 'M', 'T': 'N'}


def cases(tier):
    thorough = tier == 'thorough'
    for nmaps in (1, 2, 3, 4):
        for first in range(len(BINS)):
            yield {'kind': 'array', 'maps': nmaps, 'bins': 1, 'first': [first]}
    for nmaps in (1, 2) + ((3,) if thorough else ()):
        for first in itertools.product(range(len(BINS)), repeat=2):
            yield {'kind': 'array', 'maps': nmaps, 'bins': 2,
                   'first': list(first)}
    if thorough:
        for first in itertools.product(range(len(BINS)), repeat=2):
            yield {'kind': 'array', 'maps': 2, 'bins': 3, 'first': list(first)}
    yield {'kind': 'refused'}
    top = 8 if thorough else 6
    for fmt in ('gmx', 'simple', 'plain'):
        for frames in range(0, top + 1):
            for scheme in range(3):
                yield {'kind': 'files', 'fmt': fmt, 'frames': frames,
                       'scheme': scheme, 'start': 1}
        yield {'kind': 'files', 'fmt': fmt, 'frames': 4, 'scheme': 0,
               'start': 0}
        yield {'kind': 'files', 'fmt': fmt, 'frames': 4, 'scheme': 0,
               'start': 98}
    for shape in LARGE:
        yield {'kind': 'large', 'shape': list(shape)}
    for fmt in ('gmx', 'simple', 'plain'):
        for start in (1, 95):
            yield {'kind': 'long', 'fmt': fmt, 'start': start}
    # all occupancy patterns of short series
    n = 3 if thorough else 2
    for bits in range(1 << (4 * n)):
        if bits % 16 == 0:
            yield {'kind': 'occupancy', 'frames': n, 'lo': bits, 'hi': bits + 16}


def mean_of(maps):
    """Textbook average of dictionaries {label: array}."""
    out = {'M': sum(m['M'] for m in maps) / len(maps),
           'N': sum(m['N'] for m in maps) / len(maps)}
    for l, w in WEIGHT.items():
        tot = sum(m[w] for m in maps)
        num = sum(m[l] * m[w] for m in maps)
        out[l] = np.where(tot > 0, num / np.where(tot > 0, tot, 1.), 0.)
    return out


def make(bins, nx=1):
    """Grid of bins in a column or row."""
    n = len(bins)
    grid = Grid(n, 1, (-1., 2.), (0.5, 0.25))
    for i, b in enumerate(bins):
        for l, v in zip(ORDER, BINS[b]):
            grid.values[l][i, 0] = v
    return grid


def run(ctx, case):
    warnings.simplefilter('ignore')
    if case['kind'] == 'array':
        return run_array(ctx, case)
    if case['kind'] == 'large':
        return run_large(ctx, case)
    if case['kind'] == 'long':
        frames = {case['start'] + i: content(i, i % 2) for i in range(26)}
        return explore(ctx, frames, case['fmt'], case['start'], (1, 5, 10, 13, 25, 26),
                       limits=[(case['start'] + b, e) for b in (0, 1, 10) for e in
                               (None, case['start'] + 20, case['start'] + 9)])
    if case['kind'] == 'refused':
        return run_refused(ctx)
    if case['kind'] == 'occupancy':
        return run_occupancy(ctx, case)
    return run_files(ctx, case)


def run_array(ctx, case):
    from strata.dataformats.simple.average import average_data
    n, nb = case['maps'], case['bins']
    rest = itertools.product(range(len(BINS)), repeat=n * nb - len(case['first']))
    for tail in rest:
        flat = list(case['first']) + list(tail)
        if nb == 1 and n == 1 and len(flat) > 1:
            flat = flat[:1]
        contents = [flat[i * nb:(i + 1) * nb] for i in range(n)]
        grids = [make(c) for c in contents]
        want = mean_of([g.data() for g in grids])
        base = None
        orders = permutations_of(n)
        if nb > 1 and n > 2:
            orders = [orders[0], orders[-1]]
        for order in orders:
            maps = [grids[k].data() for k in order]
            saved = [{l: v.copy() for l, v in m.items()} for m in maps]
            got = average_data(*maps)
            ctx.step()
            ctx.state(n, nb, contents, order)
            what = 'maps %s in order %s' % (
                [[BINS[b] for b in c] for c in contents], list(order))
            ok = ctx.check(set(got) == set(ALL),
                           '%s: fields %s' % (what, sorted(got)))
            if not ok:
                continue
            for l in FIELDS:
                ok &= ctx.check(close(got[l], want[l]), lambda:
                                '%s: %s is %s, not %s' % (
                                    what, l, np.asarray(got[l]).tolist(),
                                    want[l].tolist()))
            for l in ('X', 'Y'):
                ok &= ctx.check(close(got[l], saved[0][l]),
                                '%s: %s moved' % (what, l))
            ok &= ctx.check(all(np.array_equal(m[l], s[l])
                                for m, s in zip(maps, saved) for l in s),
                            '%s: averaging changed a map' % what)
            # conservation, independent of the mean formula
            for flow in ('U', 'V'):
                a = float(np.sum(got['M'] * got[flow])) * n
                b = float(sum(np.sum(s['M'] * s[flow]) for s in saved))
                ok &= ctx.check(close(a, b), '%s: momentum %s %g, was %g' % (
                    what, flow, a, b))
            if ok:
                ctx.trace()
            if len(set(map(tuple, contents))) == 1:
                src = grids[0].data()
                for l in FIELDS:
                    w = WEIGHT.get(l)
                    same = src[l] if w is None else np.where(src[w] > 0,
                                                             src[l], 0.)
                    ctx.check(close(got[l], same), lambda:
                              '%s: average of identical maps differs in %s'
                              % (what, l))
    ctx.sample(maps=n, bins=nb, last=flat)


def run_large(ctx, case):
    """Many large maps, filled in different ways."""
    from strata.dataformats.simple.average import average_data
    nx, ny = case['shape']
    k = np.arange(nx * ny).reshape(nx, ny)
    grids = []
    for i, (_, keep) in enumerate(list(fillings(nx, ny)) * 3):
        vals = {'M': 1. + (k + i) % 5, 'N': 2. + k % 3, 'T': 300. + (k * i) % 64,
                'U': 0.5 * (k % 9) - i, 'V': i + (k % 7) - 3.}
        grids.append(Grid(nx, ny, (-2., 0.5), (0.5, 0.25),
                          {l: np.where(keep, v, 0.) for l, v in vals.items()}))
    for n in (1, 2, 9, 10, 11, 27):
        for step in (1, -1, 7):
            some = [grids[(j * step) % 27] for j in range(n)]
            want = mean_of([g.data() for g in some])
            maps = [g.data() for g in some]
            got = average_data(*maps)
            ctx.step()
            ctx.state(nx, ny, n, step)
            what = '%d maps of %dx%d' % (n, nx, ny)
            ok = True
            for l in FIELDS:
                ok &= ctx.check(close(got[l], want[l]), '%s: %s' % (what, l))
            for l in ('X', 'Y'):
                ok &= ctx.check(close(got[l], maps[0][l]), '%s: %s moved' % (what, l))
            if ok:
                ctx.trace()
    ctx.sample(shape=[nx, ny], maps=len(grids))


def run_refused(ctx):
    """Maps of other positions are not averaged as if they were the same."""
    from strata.dataformats.simple.average import average_data
    for nx, ny in ((1, 1), (2, 2), (3, 1), (9, 14)):
        for which in range(3):
            for label in ('X', 'Y'):
                for shift in (1., -0.5, 0.25):
                    for at in range(nx * ny):
                        maps = [Grid(nx, ny).data() for _ in range(3)]
                        maps[which][label][at] += shift
                        ctx.state(nx, ny, which, label, shift, at)
                        ctx.step()
                        try:
                            average_data(*maps)
                        except ValueError:
                            ctx.trace()
                            continue
                        ctx.fail('maps with different %s coordinates (bin %d of '
                                 'map %d moved by %g) were averaged'
                                 % (label, at, which, shift))
    ctx.check(average_data() == {}, 'average of no maps is not empty')


def content(frame, scheme):
    """2 x 3 map of a frame; every bin and frame has its own values."""
    grid = Grid(2, 3, (-2., 1.), (0.5, 0.25))
    for i in range(2):
        for j in range(3):
            k = 3 * i + j
            if scheme == 0:
                vals = (1. + k + 8 * (frame % 3), 2. + frame, 100. + 10 * k,
                        frame - k, k * 0.5)
            elif scheme == 1:      # holes that move with the frame
                vals = (0.,) * 5 if (k + frame) % 3 == 0 else (
                    2. ** (frame % 4), 1. + k, 30. * frame, -1. * frame, 1. * k)
            else:                  # single filled bin; the rest empty
                vals = (1. + frame, 1., 300., 2., frame) if k == frame % 6 \
                    else (0.,) * 5
            for l, v in zip(ORDER, vals):
                grid.values[l][i, j] = v
    return grid


ENCODE = {'gmx': gmx_bytes, 'simple': simple_bytes, 'plain': plain_bytes}


def name(base, k, ext='.dat'):
    return '%s%05d%s' % (base, k, ext)


def run_files(ctx, case):
    grids = {case['start'] + i: content(i, case['scheme'])
             for i in range(case['frames'])}
    if case['fmt'] != 'gmx' and case['frames'] and case['scheme'] == 2:
        pass
    explore(ctx, grids, case['fmt'], case['start'])


def run_occupancy(ctx, case):
    n = case['frames']
    for bits in range(case['lo'], case['hi']):
        grids = {}
        for f in range(n):
            grid = Grid(2, 2, (0., 0.), (1., 0.5))
            for k in range(4):
                if bits >> (4 * f + k) & 1:
                    for l, v in zip(ORDER, (1. + k, 2. + f, 50. * (k + f + 1),
                                            1. - f, k - 2.)):
                        grid.values[l][k // 2, k % 2] = v
            grids[1 + f] = grid
        explore(ctx, grids, 'gmx', 1, groups=(n,), rollings=(False,),
                limits=((1, None),))


def explore(ctx, grids, fmt, start, groups=(1, 2, 3, 4), rollings=(False, True),
            limits=None):
    from strata.average import average
    root = ctx.tmpdir()
    os.makedirs(root + '/in')
    for k, grid in grids.items():
        with open(name(root + '/in/m', k), 'wb') as fp:
            fp.write(ENCODE[fmt](grid))
    inputs = snapshot(root + '/in')
    last = max(grids) if grids else start
    if limits is None:
        limits = [(b, e) for b in (start, start + 1)
                  for e in (None, last - 1, last, last + 3)
                  if e is None or e >= b]
    count = 0
    for begin, end in limits:
        run = [k for k in sorted(grids) if k >= begin
               and (end is None or k <= end)]
        if run and run[0] != begin:
            run = []
        for group in groups:
            for rolling in rollings:
                count += 1
                out = '%s/out%d' % (root, count)
                kw = {'begin': begin, 'quiet': True, 'group': group,
                      'rolling': rolling}
                if end is not None:
                    kw['end'] = end
                if group == 1 and count % 2:
                    kw.pop('group')
                if not rolling and count % 3 == 0:
                    kw.pop('rolling')
                what = 'frames %s (%s) %s' % (sorted(grids), fmt, kw)
                wins = [run[i:i + group] for i in
                        range(0, max(0, len(run) - group + 1),
                              1 if rolling else group)]
                first = begin if rolling else -(-begin // group)
                expected = {name('a', first + i): w for i, w in enumerate(wins)}
                ctx.state(fmt, sorted(grids), begin, end, group, rolling)
                ctx.step(len(wins) + 1)
                with Quiet():
                    average(root + '/in/m', out + '/a', **kw)
                found = snapshot(out) if os.path.isdir(out) else {}
                if not ctx.check(set(found) == set(expected),
                                 lambda: '%s: wrote %s, not %s' % (
                                     what, sorted(found), sorted(expected))):
                    continue
                ok = True
                for fn, win in expected.items():
                    try:
                        got, keep = parse_gmx(found[fn])
                    except Exception as err:
                        ok = ctx.fail('%s: %s is unreadable: %r'
                                      % (what, fn, err))
                        continue
                    want = mean_of([grids[k].data() for k in win])
                    ref = grids[win[0]]
                    ok &= ctx.check(
                        (got.nx, got.ny) == (ref.nx, ref.ny) and
                        close(got.corner, ref.corner) and
                        close(got.spacing, ref.spacing), lambda:
                        '%s: %s is on another grid: %s' % (what, fn, got.info()))
                    if not ok:
                        continue
                    for l in FIELDS:
                        w = np.where(want['M'] > 0, want[l], 0.)
                        ok &= ctx.check(
                            close(got.values[l].ravel(), w, 1e-6, 1e-6), lambda:
                            '%s: %s from frames %s has %s = %s, not %s' % (
                                what, fn, win, l,
                                got.values[l].ravel().tolist(), w.tolist()))
                if ok:
                    ctx.trace()
    ctx.check(snapshot(root + '/in') == inputs,
              'averaging changed its input files')
    ctx.sample(frames=sorted(grids), format=fmt)
