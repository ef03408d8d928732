"""P22: averaged interfaces."""

import itertools
import os
import warnings

import numpy as np

from checks.common import Quiet, close, snapshot

PROPERTY = 'P22'
LEVEL = 'model_checking'
TECHNIQUE = ('enumeration of all pairs and triples of outlines over all sets of '
             'layers and small alphabets of edges, in every order, averaged by '
             'the real code and compared layer by layer; all short series of '
             'outline files x bundle size x numbering x options through the file '
             'tool and back')
NOTE = ('all layer sets within 4 layers for up to 3 outlines; series of up to 5 '
        'files; selected sets of up to 130 layers and series of 12 and 25 (quick) '
        'or up to 130 files')
RULE = ('a case is one layer set with every combination of others (averaged, or taken '
        'apart and put together), or one series '
        'with the product of settings')
ASSUMPTIONS = ['the left and right side of an outline have the same heights',
               'the outlines of a bundle share a height', 'heights that are the '
               'same are written the same (three decimals)']
CHUNK = 1

LAYERS = 4
SUBSETS = [s for n in range(1, LAYERS + 1)
           for s in itertools.combinations(range(LAYERS), n)]
STEP = [0.25, 1., 0.5]


def cases(tier):
    quick = tier == 'quick'
    for k in range(len(SUBSETS)):
        yield {'kind': 'mean', 'first': k, 'full': not quick}
        yield {'kind': 'parts', 'first': k, 'full': not quick}
    for k in range(0, 240 if quick else 960, 8):
        yield {'kind': 'files', 'lo': k, 'hi': k + 8}
    for n in (12, 25) if quick else (12, 25, 104, 130):
        for size in (1, 2, 3, 7, 10, 12, n - 1, n):
            yield {'kind': 'long', 'files': n, 'size': size,
                   'begins': (1, 9, 0) if quick else (1, 9, 0, 98, 10000)}
    for layers in (12, 40, 130):
        yield {'kind': 'tall', 'layers': layers}


def outline(subset, seed, dy):
    """{height: (left, right)}; edges may cross each other's frames freely."""
    out = {}
    for j in subset:
        left = -2. + 0.25 * ((3 * j + 5 * seed) % 9)
        right = 3. + 0.5 * ((2 * j + 3 * seed) % 7)
        out[j * dy] = (left, right)
    return out


def coords(o):
    hs = sorted(o)
    xs = [o[h][0] for h in hs] + [o[h][1] for h in hs[::-1]]
    return np.array(xs), np.array(hs + hs[::-1])


def mean(outlines):
    shared = set(outlines[0])
    for o in outlines[1:]:
        shared &= set(o)
    return {h: tuple(sum(o[h][s] for o in outlines) / len(outlines)
                     for s in (0, 1)) for h in shared}


def same(xs, ys, ref, tol=1e-9):
    rx, ry = coords(ref)
    return close(xs, rx, 0, tol) and close(ys, ry, 0, tol)


def run(ctx, case):
    warnings.simplefilter('ignore')
    import matplotlib.pyplot as plt
    # layout of figures costs much and is not looked at
    plt.tight_layout = lambda *a, **k: None
    {'mean': run_mean, 'parts': run_parts, 'files': run_files, 'long': run_long, 'tall': run_tall}[case['kind']](ctx, case)


def averager(ctx):
    """Average of outlines in memory, or through files if there is no such."""
    try:
        from strata.interface.view import average_interfaces
    except ImportError:
        from strata.interface.view import view_interfaces

        def averaged(given):
            root = ctx.tmpdir()
            for i, (xs, ys) in enumerate(given):
                with open('%s/i%05d.xvg' % (root, i + 1), 'w') as fp:
                    fp.write(''.join('%r %r\n' % (float(x), float(y))
                                     for x, y in zip(xs, ys)))
            with Quiet():
                xs, ys = view_interfaces(root + '/i', average=len(given),
                                         show=False, quiet=True)
            return xs[0], ys[0]
    else:
        def averaged(given):
            got = average_interfaces(given)
            return got.values, got.index.values
    return averaged


def run_mean(ctx, case):
    averaged = averager(ctx)
    first = SUBSETS[case['first']]
    k = 0
    groups = [[first]] + [[first, b] for b in SUBSETS]
    groups += [[first, b, c] for b in SUBSETS for c in SUBSETS]
    for group in groups:
        if not set(group[0]).intersection(*group[1:]):
            continue
        for seed in range(5 if len(group) < 3 or case['full'] else 1):
            k += 1
            dy = STEP[k % 3]
            outlines = [outline(s, seed + 2 * i, dy) for i, s in
                        enumerate(group)]
            ref = mean(outlines)
            perms = list(itertools.permutations(range(len(group))))
            if not case['full'] and len(group) == 3:
                perms = [perms[k % 6], perms[(k + 3) % 6]]
            for perm in perms:
                given = [coords(outlines[i]) for i in perm]
                if k % 4 == 0:
                    given = [(list(x), list(y)) for x, y in given]
                saved = [(np.array(x), np.array(y)) for x, y in given]
                gx, gy = averaged(given)
                ctx.step()
                ctx.state('mean', tuple(group), seed, perm, dy)
                ok = ctx.check(same(gx, gy, ref), lambda:
                               'outlines %s: average x %s at heights %s, not %s'
                               % ([outlines[i] for i in perm],
                                  list(gx), list(gy), ref))
                ok &= ctx.check(all(
                    np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1])
                    for a, b in zip(given, saved)), 'an outline changed')
                if ok:
                    ctx.trace()
    ctx.sample(layers=first, groups=len(groups))


def run_parts(ctx, case):
    """Outlines taken apart into edges, put in tables and stitched together."""
    from strata.interface.view import (all_coords_to_edges, combine_interfaces,
                                       stitch_edge_series)
    first = SUBSETS[case['first']]
    groups = [[first]] + [[first, b] for b in SUBSETS]
    groups += [[first, b, c] for b in SUBSETS for c in SUBSETS]
    k = 0
    for group in groups:
        k += 1
        if len(group) == 3 and not case['full'] and k % 3:
            continue
        dy = STEP[k % 3]
        given = [outline(s, k % 5 + i, dy) for i, s in enumerate(group)]
        arrays = [coords(o) for o in given]
        xs, ys = [x for x, _ in arrays], [y for _, y in arrays]
        if k % 4 == 0:
            xs, ys = [x.tolist() for x in xs], [y.tolist() for y in ys]
        ctx.state('parts', tuple(group), k)
        with ctx.guard(lambda: 'outlines %s taken apart' % given):
            edges = all_coords_to_edges(xs, ys)
            ctx.step()
            ok = ctx.check(len(edges) == 2 and all(len(e) == len(given) for e in edges),
                           lambda: 'outlines %s have edges %s' % (given, edges))
            for side in (0, 1) if ok else ():
                for o, e in zip(given, edges[side]):
                    ok &= ctx.check(
                        dict(zip(e.index.tolist(), e.values.tolist())) ==
                        {h: v[side] for h, v in o.items()} and len(e) == len(o),
                        lambda: 'outline %s has edge %d %s' % (o, side, e.to_dict()))
            for o, left, right in zip(given, *edges) if ok else ():
                whole = stitch_edge_series(left, right)
                ctx.step()
                ok &= ctx.check(same(whole.values, whole.index.values, o), lambda:
                                'the edges of outline %s are stitched to %s at %s' % (
                                    o, whole.values, whole.index.values))
            tables = combine_interfaces(xs, ys)
            ctx.step()
            heights = sorted(set().union(*given))
            for side, table in enumerate(tables):
                ok &= ctx.check(
                    sorted(table.index.tolist()) == heights and
                    table.shape == (len(heights), len(given)), lambda:
                    'outlines %s have table %s' % (given, table.to_dict()))
                for i, o in enumerate(given) if ok else ():
                    col = table[i].dropna()
                    ok &= ctx.check(
                        dict(zip(col.index.tolist(), col.values.tolist())) ==
                        {h: v[side] for h, v in o.items()}, lambda:
                        'outline %s is %s in the table of %s' % (o, col.to_dict(), given))
            if ok:
                ctx.trace()
                ctx.nontrivial += 1
    ctx.sample(layers=first, groups=k)


def text_of(o, style):
    xs, ys = coords(o)
    head = ['# an outline\n# x (nm) y (nm)\n', '', '# x y'
            '\n'][style % 3]
    return head + ''.join('%.3f %.3f\n' % r for r in zip(xs, ys))


def parse(raw):
    rows = [[float(v) for v in line.split()]
            for line in raw.decode().split('\n')
            if line.strip() and not line.startswith('#')]
    rows = np.array(rows).reshape(-1, 2)
    return rows[:, 0], rows[:, 1]


def run_files(ctx, case):
    combos = list(itertools.product((1, 2, 3, 4, 5), (1, 2, 3),
                                    (1, 2, 4, 5, 6, 0)))
    for v in range(case['lo'], case['hi']):
        n, size, begin = combos[v % len(combos)]
        run_series(ctx, n, size, begin, v)
    ctx.sample(files=n, bundle=size, begin=begin)


def run_long(ctx, case):
    """Series of many files, and of outlines with many layers."""
    n, size = case['files'], case['size']
    for k, begin in enumerate(case['begins']):
        for layers in (4, 33):
            run_series(ctx, n, size, begin, n + size + k + layers, layers)
    ctx.sample(files=n, bundle=size, begin=begin)


def run_tall(ctx, case):
    """Outlines of many layers of which some are missing."""
    averaged = averager(ctx)
    n = case['layers']
    shapes = [range(n), range(n // 2), range(n // 3, n), range(0, n, 2),
              range(1, n, 3), [0, n - 1], [n // 2], [j for j in range(n) if j % 5]]
    for count in (2, 3):
        for group in itertools.permutations(range(len(shapes)), count):
            subsets = [tuple(shapes[i]) for i in group]
            if not set(subsets[0]).intersection(*subsets[1:]):
                continue
            outlines = [outline(s, i, STEP[sum(group) % 3])
                        for i, s in enumerate(subsets)]
            gx, gy = averaged([coords(o) for o in outlines])
            ctx.step()
            ctx.state('tall', n, group)
            if ctx.check(same(gx, gy, mean(outlines)),
                         lambda: 'outlines of layers %s: average x %s at heights '
                         '%s, not %s' % (subsets, list(gx), list(gy),
                                         mean(outlines))):
                ctx.trace()
    ctx.sample(layers=n)


def run_series(ctx, n, size, begin, v, layers=LAYERS):
    from strata.interface.view import view_interfaces
    root = ctx.tmpdir()
    dy = STEP[v % 3]
    ext = ('.xvg', '.out')[v // 3 % 2]
    series = []
    for i in range(n):
        # the lowest layer is in all outlines
        subset = (0,) + SUBSETS[(7 * i + v) % len(SUBSETS)]
        if layers > LAYERS:
            subset = [0] + [j for j in range(layers) if (j * 7 + i) % 11]
        subset = tuple(sorted(set(subset))) if (i + v) % 5 else (0,)
        series.append(outline(subset, i + v, dy))
        with open('%s/i%05d%s' % (root, begin + i, ext), 'w') as fp:
            fp.write(text_of(series[i], v + i))
    # one after a gap
    with open('%s/i%05d%s' % (root, begin + n + 1, ext), 'w') as fp:
        fp.write(text_of(series[0], v))
    before = snapshot(root)
    kw = {'average': size} if size > 1 or v % 2 else {}
    if begin != 1:
        kw['begin'] = begin
    if v % 4 == 1:
        kw['end'] = begin + n - 1
    if ext != '.xvg':
        kw['ext'] = ext
    outext = ext
    save = v % 7 != 0
    if save:
        kw['save_xvg'] = root + '/avg/a'
    if v % 3:
        kw['quiet'] = bool(v % 3 == 1)
    if v % 2:
        kw['show'] = False
    ctx.state('series', n, size, begin, v)
    what = lambda: 'series %s with %s' % (series, kw)
    with Quiet() as q:
        xs, ys = view_interfaces(root + '/i', **kw)
    ctx.step(n)
    groups = [series[i:i + size] for i in range(0, n - size + 1, size)]
    refs = [mean(g) for g in groups]
    ok = ctx.check(
        len(xs) == len(ys) == len(refs) and all(
            same(x, y, r) for x, y, r in zip(xs, ys, refs)), lambda:
        '%s: returned x %s y %s, not %s; printed %s' % (
            what(), [list(x) for x in xs], [list(y) for y in ys], refs,
            q.out[-300:]))
    if save:
        found = snapshot(root + '/avg') if os.path.isdir(root + '/avg') else {}
        first = begin if size == 1 else -(-begin // size)
        names = ['a%05d%s' % (first + i, outext) for i in range(len(refs))]
        ok &= ctx.check(sorted(found) == names, lambda: '%s: wrote %s, not %s'
                        % (what(), sorted(found), names))
        if ok:
            for name, ref in zip(names, refs):
                ok &= ctx.check(same(*parse(found[name]), ref, tol=6e-4),
                                lambda: '%s: %s holds %s, not %s' % (
                                    what(), name, parse(found[name]), ref))
        if ok and names:
            # what was written is itself a series of outlines
            kw2 = {'begin': first, 'ext': outext, 'show': False, 'quiet': True}
            with Quiet():
                xs2, ys2 = view_interfaces(root + '/avg/a', **kw2)
            ok &= ctx.check(
                len(xs2) == len(refs) and all(same(x, y, r, 6e-4) for x, y, r in
                                              zip(xs2, ys2, refs)), lambda:
                '%s: written outlines viewed again as %s %s' % (what(), xs2, ys2))
    after = snapshot(root)
    ok &= ctx.check(all(after.get(k) == b for k, b in before.items()), lambda:
                    '%s: an input changed' % what())
    if ok:
        ctx.trace()
