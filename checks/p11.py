"""P11: operations on flow objects."""

import itertools
import warnings

import numpy as np

from checks.common import LARGE, shuffles

PROPERTY = 'P11'
LEVEL = 'model_checking'
TECHNIQUE = ('exploration of all operation sequences up to a depth on live flow '
             'objects, in lockstep with a model holding lists of records; every '
             'object made so far is compared with its model after every step')
NOTE = ('all sequences of up to 3 (quick) or 4 (thorough) operations from an '
        'alphabet of 19, applied to the oldest or the newest object, from four '
        'start maps, and of up to 2 from maps of 40 to 2170 (quick) or 4290 '
        '(thorough) bins; all limit combinations for index selection; all '
        'pairs of ten forms of input values, all orders of the fields')
RULE = ('a case is one start map and one first operation with every '
        'continuation, or a block of ways to build or to index a map')
ASSUMPTIONS = []
CHUNK = 1

LABELS = ('X', 'Y', 'M', 'U')

# (nx, ny, first bin, spacing, set grid information, bin order)
STARTS = [
    (3, 2, (0.5, 0.5), (1., 1.), True, 'x'),
    (2, 3, (-1., 2.), (0.5, 0.25), True, 'shuffled'),
    (3, 2, (0.5, 0.5), (1., 1.), False, 'y'),
    (1, 2, (4., -1.), (2., 0.5), True, 'x'),
]
SMALL = len(STARTS)
STARTS += [(nx, ny, (-2., 1.), (0.5, 0.25), info, order)
           for (nx, ny), info, order in zip(
               LARGE, (True, True, True, False, True),
               ('shuffled', 'x', 'by seven', 'reversed', 'two by two'))]


def ops_for(start):
    nx, ny, (x0, y0), (dx, dy), _, _ = start
    xs = [x0 + dx * i for i in range(nx)]
    ys = [y0 + dy * j for j in range(ny)]
    return [
        ('copy',),
        ('lims', 'X', xs[0] + dx / 4, None),
        ('lims', 'X', None, xs[-1] - dx / 4),
        ('lims', 'Y', ys[0], ys[0]),
        ('lims', 'M', 2., 4.),
        ('lims', 'U', None, None),
        ('lims', 'M', None, 0.),
        ('cut', (None, None), (None, None)),
        ('cut', (xs[0] + dx / 2, None), (None, None)),
        ('cut', (None, xs[-1]), (ys[0] + dy / 2, ys[-1] + dy / 2)),
        ('cut', (None, 0.), (None, None)),
        ('sort',),
        ('sort', ('Y', 'X')),
        ('translate', 'X', 2 * dx),
        ('translate', 'Y', -dy / 2),
        ('translate', 'M', 'ramp'),
        ('translate', 'X', 'ramp'),
        ('poke', 'M'),
        ('poke', 'info'),
    ]


def cases(tier):
    depth = 3 if tier == 'quick' else 4
    for s, start in enumerate(STARTS):
        if s >= SMALL:
            if tier == 'quick' and start[0] * start[1] > 3000:
                continue
            for k in range(len(ops_for(start))):
                yield {'kind': 'ops', 'start': s, 'prefix': [[0, k]], 'depth': 2}
            continue
        n = len(ops_for(start))
        for k in range(n):
            if tier == 'quick':
                yield {'kind': 'ops', 'start': s, 'prefix': [[0, k]],
                       'depth': depth}
            else:
                for m in range(n):
                    for at in (0, 1):
                        yield {'kind': 'ops', 'start': s, 'depth': depth,
                               'prefix': [[0, k], [at, m]]}
    yield {'kind': 'build'}
    yield {'kind': 'forms'}
    yield {'kind': 'layouts'}
    for nlab in (0, 1, 2, 3):
        yield {'kind': 'indices', 'labels': nlab}


# -- the model ------------------------------------------------------------------

def start_objects(start):
    from droplets.flow import FlowData
    nx, ny, (x0, y0), (dx, dy), info, order = start
    recs = []
    for i in range(nx):
        for j in range(ny):
            k = i * ny + j
            recs.append((x0 + dx * i, y0 + dy * j, float(1 + (3 * k) % 6),
                         float(-k)))
    if order == 'y':
        recs.sort(key=lambda r: (r[1], r[0]))
    elif order == 'shuffled':
        recs = recs[1::2] + recs[::2]
    elif order != 'x':
        recs = [recs[k] for k in dict(shuffles(nx, ny))[order]]
    meta = {'shape': None, 'origin': None, 'spacing': None, 'num_bins': None}
    if info:
        meta = {'shape': (nx, ny), 'origin': (x0, y0), 'spacing': (dx, dy),
                'num_bins': nx * ny}
    real = FlowData(*[(l, np.array([r[c] for r in recs]))
                      for c, l in enumerate(LABELS)],
                    info={k: v for k, v in meta.items() if v is not None})
    return real, {'recs': recs, 'info': meta}


def within(v, lo, hi):
    return (lo is None or v >= lo) and (hi is None or v <= hi)


def model_lims(obj, label, lo, hi):
    c = LABELS.index(label)
    recs = [r for r in obj['recs'] if within(r[c], lo, hi)]
    return {'recs': recs, 'info': {'shape': None, 'origin': None,
                                   'spacing': obj['info']['spacing'],
                                   'num_bins': len(recs)}}


def apply_model(obj, op):
    """New model object, or None when the operation works in place."""
    kind = op[0]
    if kind == 'copy':
        return {'recs': list(obj['recs']), 'info': dict(obj['info'])}
    if kind == 'lims':
        return model_lims(obj, *op[1:])
    if kind == 'cut':
        new = model_lims(model_lims(obj, 'X', *op[1]), 'Y', *op[2])
        xs = {r[0] for r in new['recs']}
        ys = {r[1] for r in new['recs']}
        if len(xs) * len(ys) == len(new['recs']):
            new['info']['shape'] = (len(xs), len(ys))
        o = obj['info']['origin']
        if o == '?':
            new['info']['origin'] = '?'
        elif new['recs'] and o is not None:
            new['info']['origin'] = tuple(
                o[d] + min(r[d] for r in new['recs'])
                - min(r[d] for r in obj['recs']) for d in (0, 1))
        return new
    if kind == 'translate':
        c = LABELS.index(op[1])
        n = len(obj['recs'])
        moves = [float(k) for k in range(n)] if op[2] == 'ramp' else [op[2]] * n
        recs = []
        for r, v in zip(obj['recs'], moves):
            r = list(r)
            r[c] += v
            recs.append(tuple(r))
        info = dict(obj['info'])
        if c < 2:
            if len(set(moves)) > 1:
                info['origin'] = info['shape'] = None
            elif op[2] == 'ramp':       # too few bins to tell
                info['origin'] = info['shape'] = '?'
            elif info['origin'] not in (None, '?') and n:
                o = list(info['origin'])
                o[c] += moves[0]
                info['origin'] = tuple(o)
        return {'recs': recs, 'info': info}
    if kind == 'sort':
        first, second = op[1] if len(op) > 1 else ('X', 'Y')
        a, b = LABELS.index(second), LABELS.index(first)
        obj['recs'].sort(key=lambda r: (r[a], r[b]))
        return None
    if kind == 'poke':
        if op[1] == 'info':
            obj['info'].update(shape=(7, 7), num_bins=49)
        elif obj['recs']:
            r = list(obj['recs'][0])
            r[2] += 100.
            obj['recs'][0] = tuple(r)
        return None
    raise AssertionError(op)


def apply_real(flow, op):
    kind = op[0]
    if kind == 'copy':
        return flow.copy()
    if kind == 'lims':
        return flow.lims(*op[1:])
    if kind == 'cut':
        kw = {}
        if op[1] != (None, None):
            kw['xlim'] = op[1]
        if op[2] != (None, None):
            kw['ylim'] = op[2]
        return flow.cut(**kw)
    if kind == 'translate':
        value = op[2]
        if value == 'ramp':
            value = np.arange(flow.data.size, dtype=float)
        return flow.translate(op[1], value)
    if kind == 'sort':
        if len(op) > 1:
            flow.sort(coord_labels=op[1])
        else:
            flow.sort()
        return None
    if kind == 'poke':
        if op[1] == 'info':
            flow.shape = (7, 7)
            flow.num_bins = 49
        elif flow.data.size:
            flow.data['M'][0] += 100.
        return None
    raise AssertionError(op)


def same(flow, obj):
    """Problem with flow against its model, or None."""
    if tuple(flow.properties) != LABELS:
        return 'has fields %s' % (flow.properties,)
    got = flow.data.tolist()
    want = obj['recs']
    if len(got) != len(want):
        return 'has %d bins, not %d' % (len(got), len(want))
    for g, w in zip(got, want):
        if g != w and any(abs(a - b) > 1e-9 for a, b in zip(g, w)):
            return 'has record %s, not %s' % (g, w)
    info = obj['info']
    for key in ('shape', 'origin', 'spacing'):
        g, w = getattr(flow, key), info[key]
        if w == '?':
            continue
        if w is None:
            if g not in (None, (None, None)):
                return 'has %s %s although it is not known' % (key, g)
        elif g in (None, (None, None)) or any(
                abs(a - b) > 1e-9 for a, b in zip(g, w)):
            return 'has %s %s, not %s' % (key, g, w)
    if flow.num_bins != info['num_bins']:
        return 'has num_bins %s, not %s' % (flow.num_bins, info['num_bins'])
    return None


def run(ctx, case):
    warnings.simplefilter('ignore')
    if case['kind'] == 'build':
        return run_build(ctx)
    if case['kind'] == 'forms':
        return run_forms(ctx)
    if case['kind'] == 'layouts':
        return run_layouts(ctx)
    if case['kind'] == 'indices':
        return run_indices(ctx, case['labels'])
    start = STARTS[case['start']]
    ops = ops_for(start)
    rest = case['depth'] - len(case['prefix'])
    moves = [[at, k] for at in (0, 1) for k in range(len(ops))]
    for tail in itertools.product(moves, repeat=rest):
        seq = case['prefix'] + list(tail)
        real, model = start_objects(start)
        live = [(real, model)]
        tried = []
        for at, k in seq:
            op = ops[k]
            real, model = live[0] if at == 0 else live[-1]
            tried.append((at, op))
            what = 'start %d after %s (0 oldest, 1 newest): ' % (
                case['start'], tried)
            try:
                new = apply_real(real, op)
            except Exception as err:
                ctx.fail(what + 'raised %r' % err)
                return
            want = apply_model(model, op)
            ctx.step()
            if want is not None:
                if new is real or not hasattr(new, 'data'):
                    ctx.fail(what + 'did not return a new object')
                    return
                live.append((new, want))
            for i, (r, m) in enumerate(live):
                bad = same(r, m)
                if bad:
                    ctx.fail(what + 'object %d %s' % (i, bad))
                    return
        ctx.state(case['start'], seq if case['start'] >= SMALL else [(m['recs'], sorted(m['info'].items()))
                                  for _, m in live])
        ctx.trace()
    ctx.sample(start=case['start'], operations=[ops[k] for _, k in seq])


def run_build(ctx):
    """Every way of building gives the same records, detached from the input."""
    from droplets.flow import FlowData
    for nx, ny in ((1, 1), (2, 2), (3, 1), (2, 3)):
        n = nx * ny
        for shape in ((n,), (nx, ny), (1, n)):
            for split in range(len(LABELS) + 1):
                for dtype in (None, 'f8', 'f4'):
                    cols = {l: (np.arange(n, dtype=float) * (c + 1)
                                + c).reshape(shape)
                            for c, l in enumerate(LABELS)}
                    args = [(l, cols[l]) for l in LABELS[:split]]
                    if split < len(LABELS):
                        args.append({l: cols[l] for l in LABELS[split:]})
                    kw = {} if dtype is None else {'dtype': dtype}
                    info = {'shape': (nx, ny), 'spacing': [1, 2],
                            'origin': [0.5, 0.25], 'num_bins': n}
                    flow = FlowData(*args, info=info, **kw)
                    ctx.step()
                    ctx.state(nx, ny, shape, split, dtype)
                    what = 'built from %s arrays, split %d, dtype %s: ' % (
                        shape, split, dtype)
                    model = {'recs': [tuple(float(cols[l].ravel()[k])
                                            for l in LABELS)
                                      for k in range(n)],
                             'info': {'shape': (nx, ny), 'spacing': (1., 2.),
                                      'origin': (0.5, 0.25), 'num_bins': n}}
                    bad = same(flow, model)
                    ctx.check(bad is None, what + str(bad))
                    for l in LABELS:
                        cols[l] += 50.
                    info['shape'] = (9, 9)
                    info['spacing'][0] = 7
                    info['origin'][1] = 7
                    bad = same(flow, model)
                    if ctx.check(bad is None, what + 'after changing the input '
                                 + str(bad)):
                        ctx.trace()
                    ctx.check(flow.size() == (nx * 1., ny * 2.),
                              what + 'size() is %s' % (flow.size(),))
                    ctx.check(flow.get_data('none') is None and
                              np.array_equal(flow.get_data('M'),
                                             flow.data['M']),
                              what + 'get_data')
                    again = FlowData(*args, info={'spacing': (1, 1)})
                    ctx.check(again.size() is None and again.num_bins is None,
                              what + 'information that was not given is set')


def run_forms(ctx):
    """Values may be given in any form and memory layout."""
    from droplets.flow import FlowData
    forms = {
        'an array': lambda a: a,
        'column order': np.asfortranarray,
        'a transposed view': lambda a: np.ascontiguousarray(a.T).T,
        'every other of a larger array': lambda a: np.repeat(
            np.repeat(a, 2, axis=0), 3, axis=a.ndim - 1)[
                (slice(None, None, 2),) + ((slice(None, None, 3),)
                                           if a.ndim > 1 else ())]
        if a.ndim > 1 else np.repeat(a, 2)[::2],
        'backwards twice': lambda a: np.ascontiguousarray(a[::-1])[::-1],
        'big-endian': lambda a: a.astype('>f8'),
        'a list': lambda a: a.tolist(),
        'a tuple': lambda a: tuple(a.tolist()),
        'a list, whole numbers where possible': lambda a: [
            int(v) if v == int(v) else v for v in a.ravel().tolist()],
        'a list of digits first': lambda a: [
            np.float64(v) for v in a.ravel().tolist()],
    }
    sets = {
        'whole first': [0, 0.5, 1.5, -2.25, 3, 4.125],
        'whole': [3, -1, 4, 1, -5, 9],
        'wide': [1, 2**40 + 0.5, -1e-9, 1e300, 0.1, -0.],
        'one': [0.75],
    }
    for (name, values), shape in itertools.product(
            sets.items(), (None, (2, 3), (3, 2), (6, 1))):
        if shape is not None and len(values) != 6:
            continue
        base = np.array(values, dtype=float)
        for f1, f2 in itertools.product(forms, repeat=2):
            a = base.reshape(shape) if shape else base
            b = (base[::-1] + 0.5).reshape(a.shape)
            flow = FlowData(('X', forms[f1](a)), {'M': forms[f2](b)})
            ctx.step()
            ctx.state(name, shape, f1, f2)
            got = [flow.data['X'].tolist(), flow.data['M'].tolist()]
            want = [a.ravel().tolist(), b.ravel().tolist()]
            if ctx.check(got == want,
                         '%s of shape %s given as %s and %s became %s, not %s'
                         % (name, shape, f1, f2, got, want)):
                ctx.trace()


def run_layouts(ctx):
    """Fields may come in any order, positions need not be the first."""
    from droplets.flow import FlowData
    nx, ny = 3, 2
    grid = [(0.1 + 0.1 * i, 0.3 * j) for i in range(nx) for j in range(ny)]
    recs = [dict(X=x, Y=y, M=float((5 * k) % 6), U=float(k % 2))
            for k, (x, y) in enumerate(grid)]
    orders = {'x': range(6), 'y': (0, 2, 4, 1, 3, 5), 'back': range(5, -1, -1),
              'mixed': (3, 0, 5, 1, 4, 2)}
    by = {('X', 'Y'): lambda r: (r['Y'], r['X']),
          ('Y', 'X'): lambda r: (r['X'], r['Y'])}
    for labels in itertools.permutations(LABELS):
        for name, order in orders.items():
            for how in (None, ('X', 'Y'), ('Y', 'X')):
                start = [recs[k] for k in order]
                flow = FlowData(*[(l, np.array([r[l] for r in start]))
                                  for l in labels],
                                info={'shape': (nx, ny), 'spacing': (0.1, 0.3),
                                      'origin': (0.1, 0.)})
                if how is None:
                    flow.sort()
                else:
                    flow.sort(coord_labels=how)
                want = sorted(start, key=by[how or ('X', 'Y')])
                what = 'fields %s, bins in order %s, sorted on %s: ' % (
                    labels, name, how)
                ctx.step()
                ctx.state(labels, name, how)
                ok = ctx.check(tuple(flow.properties) == labels,
                               what + 'fields are %s' % (flow.properties,))
                for l in LABELS:
                    ok = ctx.check(flow.data[l].tolist() ==
                                   [r[l] for r in want],
                                   what + '%s is %s' % (
                                       l, flow.data[l].tolist())) and ok
                lim = flow.lims('M', 1., 4.).cut(xlim=(0.15, None))
                left = [r for r in want if 1. <= r['M'] <= 4.
                        and r['X'] >= 0.15]
                ok = ctx.check(
                    tuple(lim.properties) == labels and
                    [dict(zip(labels, r)) for r in lim.data.tolist()] == left,
                    what + 'limits leave %s' % lim.data.tolist()) and ok
                if ok:
                    ctx.trace()


def run_indices(ctx, nlab):
    from droplets.data_utils import get_lim_indices
    flow, model = start_objects(STARTS[1])
    recs = model['recs']
    bounds = {}
    for c, l in enumerate(LABELS):
        vals = sorted({r[c] for r in recs})
        mid = vals[len(vals) // 2]
        bounds[l] = [(None, None), (vals[0], vals[-1]), (mid, None), (None, mid),
                     (mid, mid), (mid + 1e3, None), (vals[0] + 0.01, vals[-1]),
                     (None, 0.), (0., None)]
    for chosen in itertools.permutations(LABELS, nlab):
        for lims in itertools.product(*[bounds[l] for l in chosen]):
            limits = dict(zip(chosen, lims))
            want = [k for k, r in enumerate(recs)
                    if all(within(r[LABELS.index(l)], *v)
                           for l, v in limits.items())]
            got = flow.data[get_lim_indices(flow.data, limits)]
            ctx.step()
            ctx.state(tuple(limits.items()))
            if ctx.check(got.ravel().tolist() == [recs[k] for k in want],
                         '%s selects %s, not bins %s' % (limits, got.tolist(),
                                                         want)):
                ctx.trace()
            out = flow
            for l, (lo, hi) in limits.items():
                out = out.lims(l, lo, hi)
            ctx.check(out.data.tolist() == [recs[k] for k in want],
                      '%s by chained limits selects %s' % (limits,
                                                           out.data.tolist()))
