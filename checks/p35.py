"""P35: requests that can not be carried out are refused and change nothing."""

import itertools
import os
import re
import warnings

import numpy as np

from checks.common import FIELDS, Quiet, gmx_bytes, plain_bytes, simple_bytes
from checks.tools import LINE, SERIES, SINGLE, droplet, make_inputs, normal

PROPERTY = 'P35'
LEVEL = 'model_checking'
TECHNIQUE = ('enumeration of all single mistakes of a catalogue in every place where '
             'they can be made (position in lists, frame of a series, bin of a map, '
             'storage order of the bins), each carried out on the real code, with '
             'objects, options, files and the next correct request compared before '
             'and after')
NOTE = ('all mistakes x all small maps in all storage orders (up to 4 bins) for the '
        'functions on objects; all sequences of up to three labels with an unknown one, '
        'all mistaken settings of 12 tools with and without existing results; every '
        'header line and field left out of every frame of series of 3 frames (4 frames '
        'and pairs of frames in the thorough tier)')
RULE = ('a case is one mistake or one tool with all places of its mistakes; a state is '
        'one mistake in one place')
ASSUMPTIONS = ['a request is refused if it raises an error, exits with a failing '
               'status, or returns nothing with a message that says so']
CHUNK = 1


# -- part A: functions on objects ----------------------------------------------

def base_values(nx, ny):
    """Values of every field of the bins of a map."""
    n = nx * ny
    x, y = [a.ravel() for a in np.meshgrid(
        -0.5 + 0.5 * np.arange(nx), 0.25 * np.arange(ny), indexing='ij')]
    out = {'X': x, 'Y': y}
    for k, l in enumerate(FIELDS):
        out[l] = 1. + (np.arange(n) * (k + 3)) % 7 - (2.5 if l in 'UV' else 0.)
    return out


def flow_of(shape, order, spacing=(0.5, 0.25), shift=0., drop=()):
    from droplets.flow import FlowData
    vals = base_values(*shape)
    vals['X'] = vals['X'] + shift
    return FlowData(*[(l, vals[l][list(order)]) for l in vals if l not in drop],
                    info={'shape': shape, 'spacing': spacing,
                          'origin': (-0.75 + shift, -0.125),
                          'num_bins': shape[0] * shape[1]})


def orders(n, deep):
    if n <= (4 if deep else 3):
        return list(itertools.permutations(range(n)))
    fixed = list(range(n))
    return [tuple(fixed[k:] + fixed[:k]) for k in range(n)] + [tuple(fixed[::-1])]


def snap(obj):
    """Everything that can be seen of an object."""
    if hasattr(obj, 'data') and hasattr(obj, 'spacing'):
        return (obj.data.dtype.names, obj.data.tobytes(), obj.shape, obj.spacing,
                obj.origin, obj.num_bins)
    if isinstance(obj, np.ndarray):
        return obj.dtype.str, obj.shape, obj.tobytes()
    if isinstance(obj, dict):
        return [(k, snap(v)) for k, v in obj.items()]
    if isinstance(obj, (list, tuple)):
        return [snap(v) for v in obj]
    return repr(obj)


def object_mistakes():
    """{name: function of (shape, order) giving [(place, call, objects)]}."""
    from droplets.average import average_data, average_flow_data, get_combined_grid
    from droplets.contact_line import adjust_cell_coordinates
    from droplets.flow import FlowData
    from droplets.resample import downsample_flow_data, supersample_flow_data
    from droplets.sample import (sample_center_of_mass, sample_flow_angle,
                                 sample_inertial_energy, sample_per_angle_from,
                                 sample_viscous_dissipation)
    from strata.average import recenter_maps
    from strata.spreading.view import scale_spreading_data

    def on_flow(*calls):
        def places(shape, order):
            out = []
            for name, call in calls:
                flow = flow_of(shape, order)
                out.append((name, lambda c=call, f=flow: c(f), [flow]))
            return out
        return places

    def setting(attr, values):
        return on_flow(*[(repr(v), lambda f, v=v: setattr(f, attr, v))
                         for v in values])

    def dropping(fields, call):
        def places(shape, order):
            out = []
            for l in fields:
                flow = flow_of(shape, order, drop=(l,))
                out.append((l, lambda f=flow: call(f), [flow]))
            return out
        return places

    def spacings(shape, order):
        out = []
        for count in (2, 3):
            for pos in range(count):
                for other in ((0.25, 0.25), (0.5, 0.5), (0.5, 0.2525)):
                    flows = [flow_of(shape, order, spacing=other if k == pos
                                     else (0.5, 0.25)) for k in range(count)]
                    out.append(((count, pos, other),
                                lambda f=flows: average_flow_data(f), flows))
        return out

    def bins_moved(shape, order):
        out = []
        n = shape[0] * shape[1]
        for count in (2, 3):
            for pos in range(count):
                for which in range(n):
                    for label in ('X', 'Y'):
                        recs = [flow_of(shape, order).data for _ in range(count)]
                        recs[pos][label][which] += 0.125
                        out.append(((count, pos, which, label),
                                    lambda r=recs: average_data(r), recs))
        return out

    def sizes(shape, order):
        """A column of another length than the others."""
        vals = base_values(*shape)
        out = []
        labels = list(vals)
        for l in labels[1:]:
            for cut in (slice(0, -1), slice(0, 0)):
                cols = {k: (v[cut] if k == l else v) for k, v in vals.items()}
                if all(len(v) == len(cols['X']) for v in cols.values()):
                    continue
                if len(cols[l]) == 1 or len(cols['X']) == 1:
                    continue        # single values may be repeated
                out.append(((l, str(cut)), lambda c=cols: FlowData(*c.items()),
                            [cols]))
                flow = flow_of(shape, order)
                out.append(((l, str(cut), 'set'), lambda c=cols, f=flow:
                            f.set_data(*c.items()), [cols, flow]))
        return out

    def angle_weights(shape, order):
        out = []
        for w in ('Q', 'm', 'MM'):
            flow = flow_of(shape, order)
            out.append((w, lambda f=flow, w=w: sample_flow_angle(
                f, mean=True, weight=w), [flow]))
        return out

    def average_weights(shape, order):
        out = []
        for weights in ([('U', 'Q')], [('Q', 'M')], [('U', 'M'), ('V', 'Q')],
                        [('V', 'Q'), ('U', 'M')]):
            recs = [flow_of(shape, order).data for _ in range(2)]
            out.append((weights, lambda r=recs, w=weights: average_data(
                r, weights=w), recs + [weights]))
        return out

    def without(shape, order, which):
        out = []
        for names in which:
            flow = flow_of(shape, order)
            for n in names:
                setattr(flow, n, None)
            out.append((names, flow))
        return out

    def no_mass(shape, order):
        flow = flow_of(shape, order)
        flow.data['M'] = 0.
        return [('zero', lambda: sample_center_of_mass(flow), [flow])]

    def recentre(shape, order):
        out = []
        for count in (1, 2, 3):
            for pos in range(count):
                maps = [flow_of(shape, order).data for _ in range(count)]
                for name, values in (
                        ('nothing', [None if k == pos else 0. for k in range(count)]),
                        ('text', ['a' if k == pos else 0. for k in range(count)]),
                        ('fewer', [0.] * (count - 1)), ('more', [0.] * (count + 1))):
                    out.append(((count, pos, name), lambda m=maps, v=values:
                                recenter_maps(m, v), maps + [values]))
        return out

    def scales(shape, order):
        import pandas as pd
        out = []
        n = shape[0] + 1
        for name in ('tau', 'R'):
            for many in range(1, n + 3):
                for values in ([2.] * many,):
                    if many in (1, n):
                        continue
                    data = [pd.Series([1., 2.], index=[0., 1.]) for _ in range(n)]
                    out.append(((name, n, many), lambda d=data, k=name, v=values:
                                scale_spreading_data(d, **{k: v}), [values]))
        return out

    out = {
        'set shape': setting('shape', [3, (1,), 'ab', (1, 'x'), [None, 2]]),
        'set spacing': setting('spacing', [0.5, (0.5,), 'ab', (1., 'x')]),
        'set origin': setting('origin', [0.5, (0.5,), 'ab', (1., 'x')]),
        'set number': setting('num_bins', ['x', (1, 2), [3]]),
        'limits of unknown label': on_flow(*[
            (l, lambda f, l=l: f.lims(l, 0., 1.)) for l in ('Q', 'x', 'XY')]),
        'limits not numbers': on_flow(*[
            ((lims, l), lambda f, a=lims, l=l: f.lims(l, *a))
            for lims in (('a', None), (None, 'a'), (0., 'a'), ('a', 0.))
            for l in ('X', 'M')]),
        'unknown label moved': on_flow(*[
            ((l, v), lambda f, l=l, v=v: f.translate(l, v))
            for l in ('Q', 'x', 'XY') for v in (0., 1.)]),
        'unknown coordinate sorted by': on_flow(*[
            (c, lambda f, c=c: f.sort(coord_labels=c))
            for c in (('X', 'Q'), ('Q', 'Y'))]),
        'flow angle labels': on_flow(*[
            (ls, lambda f, ls=ls: sample_flow_angle(f, flow_labels=ls))
            for ls in (['U'], ['U', 'V', 'M'], ['U', 'Q'], ['Q', 'V'])]),
        'flow angle weight': angle_weights,
        'flow angle field missing': dropping('UV', sample_flow_angle),
        'energy field missing': dropping('MUV', sample_inertial_energy),
        'centre field missing': dropping('XYM', sample_center_of_mass),
        'dissipation field missing': dropping(
            'XYUV', lambda f: sample_viscous_dissipation(f, 1.)),
        'dissipation labels': on_flow(*[
            (ls, lambda f, ls=ls: sample_viscous_dissipation(
                f, 1., flow_labels=ls)) for ls in (('U', 'Q'), ('Q', 'V'), ('U',))]),
        'dissipation coordinates': on_flow(*[
            (ls, lambda f, ls=ls: sample_viscous_dissipation(
                f, 1., coord_labels=ls)) for ls in (('X', 'Q'), ('Q', 'Y'))]),
        'angles of unknown label': on_flow(*[
            ((l, w), lambda f, l=l, w=w: sample_per_angle_from(
                f, (0., 0.), l, weight=w))
            for l, w in (('Q', None), ('M', 'Q'), ('Q', 'M'))]),
        'maps of other spacing': spacings,
        'no maps': lambda shape, order: [
            ('maps', lambda: average_flow_data([]), []),
            ('generator', lambda: average_flow_data(iter([])), [])],
        'bins elsewhere': bins_moved,
        'unknown weights': average_weights,
        'columns of unlike size': sizes,
        'finer by unknown weights': on_flow(*[
            (w, lambda f, w=w: supersample_flow_data(f, 2, weights=[w]))
            for w in (('U', 'Q'), ('Q', 'M'))]),
        'coarser by unknown weights': on_flow(*[
            (w, lambda f, w=w: downsample_flow_data(f, (1, 1), weights=[w]))
            for w in (('U', 'Q'), ('Q', 'M'))]),
        'interface of unknown label': on_flow(*[
            (l, lambda f, l=l: interface(f, l)) for l in ('Q', 'm')]),
        'layers of no grid': lambda shape, order: [
            (gone, lambda f=f: interface(f, 'M', search_longest_connected=True), [f])
            for gone, f in without(shape, order, (('shape',), ('spacing',),
                                                  ('shape', 'spacing')))],
        'dissipation of no grid': lambda shape, order: [
            (gone, lambda f=f: sample_viscous_dissipation(f, 1.), [f])
            for gone, f in without(shape, order, (('shape',), ('spacing',),
                                                  ('shape', 'spacing')))],
        'centre of no mass': no_mass,
        'map recentred at nothing': recentre,
        'unknown direction': on_flow(*[
            (d, lambda f, d=d: adjust_cell_coordinates(f.data, d))
            for d in ('', 'Left', 'up', None, 'l')]),
        'grid of no maps': lambda shape, order: [
            (s, lambda s=s: get_combined_grid([], spacing=s), [])
            for s in ((0.1, 0.1), (1., 2.))],
        'scaled by unlike many': scales,
        'information in part': on_flow(*[
            (str(i), lambda f, i=i: f.set_info(i)) for i in (
                {'shape': (9, 9), 'nope': 1}, {'nope': 1}, {'shape': (9, 9),
                 'spacing': 5.}, {'shape': (9, 9), 'spacing': (3., 3.), 'origin': 1.},
                {'shape': (9, 9), 'spacing': (3., 3.), 'origin': (1., 1.),
                 'num_bins': 'x'}, {'num_bins': 9, 'shape': (1,)})]),
        'not pairs': lambda shape, order: [
            (k, lambda a=a: FlowData(*a), [list(a)]) for k, a in enumerate((
                (1,), ('X',), (('X',),), (('X', [0.], 1),), (3., ('X', [1.])),
                (('X', [1.]), None)))],
        'unknown information': lambda shape, order: [
            (k, lambda k=k: FlowData(('X', [0.]), ('Y', [0.]), info={k: 1}), [])
            for k in ('nope', 'Shape', 'size')],
    }
    return out


def interface(flow, label, **kw):
    from droplets.interface import get_interface
    return list(get_interface(flow, label, cutoff=1., cutoff_radius=0.6, **kw))


def run_objects(ctx, case):
    name = case['mistake']
    nothing = object_mistakes()[name]
    shapes = [(1, 1), (2, 1), (1, 3), (2, 2), (3, 2)]
    if case['deep']:
        shapes += [(4, 2), (3, 3)]
    for shape in shapes:
        for order in orders(shape[0] * shape[1], case['deep']):
            for place, call, objects in nothing(shape, order):
                before = snap(objects)
                err = None
                with Quiet():
                    try:
                        got = call()
                    except Exception as exc:
                        err = exc
                ctx.state(name, shape, order, place)
                what = lambda: '%s (%s) of a map of %s bins stored as %s' % (
                    name, place, shape, order)
                ok = ctx.check(err is not None, lambda: '%s is not refused but '
                               'gives %.200r' % (what(), got))
                # dissipation sorts the bins before it looks at the flow
                if not name.startswith('dissipation'):
                    ok &= ctx.check(snap(objects) == before, lambda:
                                    '%s changes its input from %s to %s' % (
                                        what(), before, snap(objects)))
                ctx.step()
                if ok:
                    ctx.trace()
    ctx.sample(mistake=name)


# -- part B: requests of the tools -----------------------------------------------

def cl(kw):
    return dict(LINE, quiet=True, **kw)


def _sample(inp, out, labels, **kw):
    from strata.sample_average import sample_average_files
    return sample_average_files(inp + '/m', labels, output=out, quiet=True,
                                verbose=False, **kw)


def _lines(inp, out, labels, **kw):
    from strata.contact_line_analysis import sample_contact_line_edges
    return sample_contact_line_edges(inp + '/m', labels, save=out, **cl(kw))


def _average(inp, out, **kw):
    from strata.average import average
    return average(inp + '/m', out, quiet=True, **kw)


def _convert(inp, out, **kw):
    from strata.convert import convert
    return convert(inp + '/m', out, quiet=True, **kw)


def _area(inp, out, variable, **kw):
    from strata.interface.sample import sample_interfaces
    return sample_interfaces(inp + '/i', variable, save_xvg=out, show=False,
                             quiet=True, **kw)


def _view(inp, out, **kw):
    from strata.spreading.view import view_spreading
    return view_spreading([inp + '/s0.xvg', inp + '/s1.xvg'], save_xvg=out,
                          show=False, **kw)


def _map(inp, out, **kw):
    from strata.view_flowmap import view_flowmap_2d
    return view_flowmap_2d(inp + '/m00001.dat', save_fig=out, show=False, **kw)


def _collect(inp, out, **kw):
    from strata.spreading.collect import collect
    return collect(inp + '/m', save=out, quiet=True, **kw)


def _write(inp, out, ftype, drop):
    from strata.dataformats.write import write
    grid = droplet(0)
    return write(out, {l: v for l, v in grid.data().items() if l != drop},
                 grid.info(), ftype=ftype)


def label_lists(bad, length):
    good = [l for l in ('M', 'U', 'flow_angle') if l not in bad]
    for n in range(1, length + 1):
        for labels in itertools.product(good + list(bad), repeat=n):
            if set(labels) & set(bad):
                yield list(labels)


def requests(tool, deep):
    """[(call, mistaken settings, correct settings)]."""
    n = 3 if deep else 2
    if tool == 'sample':
        good = {'labels': ['M', 'U']}
        out = [dict(labels=ls) for ls in label_lists(('Q', 'm'), n)]
        out += [dict(labels=ls, sum=True) for ls in label_lists(('flow_angle',), n)]
        out += [dict(labels=ls, cutoff_label=c)
                for ls in (['M'], ['U', 'M']) for c in ('Q', 'm')]
        return _sample, out, good
    if tool == 'contact-line-sample':
        good = {'labels': ['M', 'U']}
        out = [dict(labels=ls) for ls in label_lists(('Q', 'm'), n)]
        out += [dict(labels=ls, sum=True) for ls in label_lists(('flow_angle',), n)]
        out += [dict(labels=['Q'], average=a, rolling=r) for a in (1, 2)
                for r in (False, True)]
        return _lines, out, good
    if tool == 'average':
        out = [dict(recenter=r, group=g) for r in ('nope', 'Com', 'center', 'COM')
               for g in (1, 2, 3)]
        out += [{k: v} for k in ('xlim', 'ylim') for v in (1., 0.)]
        out += [{k: v} for k in ('xlim', 'ylim') for v in (
            ('a', None), (None, 'a'), (1., 'a'))]
        out += [dict(recenter=s, cutoff=1e9, group=g) for s in ('left', 'right')
                for g in (1, 2)]
        return _average, out, {'group': 1}
    if tool == 'convert':
        return _convert, [dict(ftype=f) for f in ('nope', 'GMX', 'simple-plain',
                                                   'plain', 'dat')], {
            'ftype': 'simple'}
    if tool == 'area':
        return _area, [dict(variable=v) for v in ('volume', 'Area', 'lengths')], {
            'variable': 'area'}
    if tool == 'view':
        out = [{k: v} for k in ('tau', 'R') for v in (
            [1., 2., 3.], [1., 2., 3., 4.], ['a', 'b'])]
        return _view, out, {}
    if tool == 'map':
        out = [dict(type=t) for t in ('nope', 'Height', 'heights')]
        out += [dict(type=t, label=l) for t in ('height', 'contour')
                for l in ('Q', 'm')]
        return _map, out, {'type': 'height'}
    if tool == 'collect':
        return _collect, [dict(coord_labels=c) for c in (
            ('X', 'Q'), ('Q', 'Y'))], {}
    return _write, [dict(ftype=f, drop=d) for f in ('gmx', 'simple', 'simple_plain')
                    for d in FIELDS + (['X', 'Y'] if f != 'gmx' else [])] + [
        dict(ftype=f, drop=None) for f in ('nope', 'GMX', 'plain')], {
            'ftype': 'gmx', 'drop': None}


TOOLS = ('sample', 'contact-line-sample', 'average', 'convert', 'area', 'view', 'map',
         'collect', 'write')
SERIAL = ('average', 'convert')


def attempt(call, *args, **kw):
    """(refused, how)."""
    import matplotlib.pyplot as plt
    layout = plt.tight_layout
    plt.tight_layout = lambda *a, **k: None
    quiet = Quiet()
    try:
        with quiet:
            got = call(*args, **kw)
    except SystemExit as err:
        return err.code not in (None, 0), 'exit status %r' % (err.code,)
    except Exception as err:
        return True, '%s: %s' % (type(err).__name__, err)
    finally:
        plt.tight_layout = layout
        plt.close('all')
    said = quiet.out + quiet.err
    return (got is None and re.search('error|exception|could not|invalid|bad ', said,
                                      re.I) is not None), \
        'result %.150r, printed %.200r' % (got, said)


def rows(raw):
    """Result in a file: lines which are not comments."""
    return [l for l in raw.split(b'\n') if l.strip() and not l.startswith(b'#')]


def tree(folder):
    out = {}
    for name in sorted(os.listdir(folder)):
        with open(folder + '/' + name, 'rb') as fp:
            out[name] = fp.read()
    return out


OLD = b'# kept\n1 2 3\n'


def run_requests(ctx, case):
    tool = case['tool']
    call, mistakes, good = requests(tool, case['deep'])
    top = ctx.tmpdir()
    inp = top + '/in'
    make_inputs(inp, 3)
    before = tree(inp)
    name = 'r.png' if tool == 'map' else 'r'
    target = 'r00001.dat' if tool in SERIAL else name
    count = [0]

    def one(kw, old):
        count[0] += 1
        out = '%s/out%d' % (top, count[0])
        os.makedirs(out)
        if old:
            with open(out + '/' + target, 'wb') as fp:
                fp.write(OLD)
        kw = {k: list(v) if isinstance(v, list) else v for k, v in kw.items()}
        asked = snap(kw)
        end = attempt(call, inp, out + '/' + name, **kw)
        return end, tree(out), snap(kw) == asked

    _, clean, _ = one(good, False)
    if tool != 'map':
        clean = {k: normal(v) for k, v in clean.items()}
    for kw in mistakes:
        for old in (False, True):
            (refused, how), files, same = one(kw, old)
            ctx.state(tool, snap(kw), old)
            ctx.step()
            what = lambda: '%s with %s%s' % (tool, kw, ' over a file' if old else '')
            ok = ctx.check(refused, lambda: '%s is not refused: %s' % (what(), how))
            ok &= ctx.check(same, lambda: '%s changes the options' % what())
            ok &= ctx.check(tree(inp) == before, lambda:
                            '%s changes its input' % what())
            left = dict(files)
            if old:
                kept = [k for k, v in left.items() if v == OLD]
                ok &= ctx.check(len(kept) == 1, lambda: '%s: the file which was there '
                                'is gone, there are %s' % (what(), sorted(files)))
                for k in kept:
                    left.pop(k)
            ok &= ctx.check(not any(rows(v) for v in left.values()), lambda:
                            '%s (%s) leaves results: %s' % (
                                what(), how, {k: v[-200:] for k, v in left.items()}))
            if ok and not old:
                (_, how), files, _ = one(good, False)
                if tool != 'map':
                    files = {k: normal(v) for k, v in files.items()}
                ok &= ctx.check(files == clean, lambda: 'after %s, a correct request '
                                'gives something else (%s)' % (what(), how))
            if ok:
                ctx.trace()
    ctx.sample(tool=tool, mistakes=len(mistakes))


# -- part C: frames which are not what they should be -------------------------------

FRAME_TOOLS = ('convert-gmx', 'convert-simple', 'average', 'average-options',
               'interface-collect', 'contact-line-collect', 'spreading-collect',
               'contact-line-sample', 'sample')


def broken(grid, mistake):
    """Bytes of a frame with a mistake."""
    kind, what = mistake
    if kind == 'field':
        return gmx_bytes(grid, fields=[f for f in ['IX', 'IY'] + FIELDS if f != what])
    if kind == 'small':
        nx, ny = what
        return gmx_bytes(grid).replace(b'SHAPE %d %d' % (grid.nx, grid.ny),
                                       b'SHAPE %d %d' % (nx, ny))
    head, data = gmx_bytes(grid).split(b'\0', 1)
    lines = head.decode().split('\n')
    if kind == 'line':
        lines = [l for l in lines if not l.startswith(what)]
    elif kind == 'word':
        lines = [l.split()[0] + ' ' + 'x' if l.startswith(what) else l for l in lines]
    return '\n'.join(lines).encode() + b'\0' + data


def frame_mistakes():
    out = [('field', f) for f in ['IX', 'IY'] + FIELDS]
    out += [('line', l) for l in ('ORIGIN', 'SHAPE', 'SPACING', 'NUMDATA', 'FIELDS')]
    out += [('word', l) for l in ('ORIGIN', 'SHAPE', 'SPACING', 'NUMDATA', 'FIELDS')]
    out += [('small', s) for s in ((5, 4), (8, 2), (1, 1))]
    return out


def run_tool(tool, inp, out):
    return (SINGLE[tool] if tool in SINGLE else SERIES[tool][0])(inp, out)


def run_frames(ctx, case):
    tool = case['tool']
    frames = case['frames']
    top = ctx.tmpdir()
    make_inputs(top + '/clean', frames)
    os.makedirs(top + '/clean-out')
    attempt(run_tool, tool, top + '/clean', top + '/clean-out/r')
    clean = {k: normal(v.replace(b'/clean', b'/in'))
             for k, v in tree(top + '/clean-out').items()}
    good = tree(top + '/clean')
    k = 0
    for mistake in frame_mistakes():
        places = [(p,) for p in range(frames)]
        if case['deep']:
            places += list(itertools.combinations(range(frames), 2))
        for where in places:
            k += 1
            inp, out = '%s/in%d' % (top, k), '%s/out%d' % (top, k)
            os.makedirs(inp)
            os.makedirs(out)
            for name, raw in good.items():
                if name.startswith('m'):
                    num = int(name[1:6]) - 1
                    with open(inp + '/' + name, 'wb') as fp:
                        fp.write(broken(droplet(num), mistake) if num in where
                                 else raw)
            refused, how = attempt(run_tool, tool, inp, out + '/r')
            ctx.state(tool, mistake, where, frames)
            ctx.step()
            what = lambda: '%s of %d frames with frames %s broken (%s %s)' % (
                (tool, frames, where) + mistake)
            ok = ctx.check(refused, lambda: '%s is not refused: %s' % (what(), how))
            left = {n: normal(v.replace(b'/in%d' % k, b'/in'))
                    for n, v in tree(out).items()}
            if tool in SINGLE:
                for n, raw in left.items():
                    have, want = rows(raw), rows(clean.get(n, b''))
                    ok &= ctx.check(
                        have == want[:len(have)] and len(have) <= where[0], lambda:
                        '%s leaves rows %s, all frames give %s' % (
                            what(), have, want))
            else:
                for n, raw in left.items():
                    ok &= ctx.check(
                        int(n[1:6]) <= where[0] and clean.get(n) == raw, lambda:
                        '%s leaves %s, which is not the result of that frame' % (
                            what(), n))
            if ok:
                ctx.trace()
    ctx.sample(tool=tool, frames=frames)


def run_unlike(ctx, case):
    """Averages of frames of which one has another grid or format."""
    top = ctx.tmpdir()
    k = 0
    group = case['group']
    encode = {'gmx': gmx_bytes, 'simple': simple_bytes, 'plain': plain_bytes}
    for fmt in ('gmx', 'simple', 'plain'):
        changes = [('format', f) for f in encode if f != fmt and 'gmx' in (f, fmt)]
        changes += [('spacing', s) for s in ((0.5, 0.5), (0.625, 0.25))]
        changes += [('corner', c) for c in ((-0.5, 0.5), (-1., 0.75))]
        for change in changes:
            for pos in range(group):
                for bundle in (0, 1):
                    k += 1
                    inp, out = '%s/in%d' % (top, k), '%s/out%d' % (top, k)
                    os.makedirs(inp)
                    os.makedirs(out)
                    for i in range(2 * group):
                        grid, kind = droplet(i), fmt
                        if i == bundle * group + pos:
                            if change[0] == 'format':
                                kind = change[1]
                            else:
                                grid = droplet(i, **{change[0]: change[1]})
                        with open('%s/m%05d.dat' % (inp, i + 1), 'wb') as fp:
                            fp.write(encode[kind](grid))
                    refused, how = attempt(_average, inp, out + '/r', group=group)
                    ctx.state(fmt, change, pos, bundle, group)
                    ctx.step()
                    what = lambda: 'average by %d of %s frames, %s of frame %d as %s' % (
                        group, fmt, change[0], bundle * group + pos + 1, change[1])
                    ok = ctx.check(refused, lambda: '%s is not refused: %s' % (
                        what(), how))
                    names = sorted(tree(out))
                    ok &= ctx.check(
                        names in ([], ['r00001.dat'][:bundle]), lambda:
                        '%s leaves %s' % (what(), names))
                    if ok:
                        ctx.trace()
    ctx.sample(group=group)


# -- ---------------------------------------------------------------------------------

def cases(tier):
    deep = tier == 'thorough'
    for tool in FRAME_TOOLS:
        yield {'kind': 'frames', 'tool': tool, 'frames': 4 if deep else 3,
               'deep': deep}
    for group in (2, 3, 4) if deep else (2, 3):
        yield {'kind': 'unlike', 'group': group}
    for tool in TOOLS:
        yield {'kind': 'requests', 'tool': tool, 'deep': deep}
    for name in object_mistakes():
        yield {'kind': 'objects', 'mistake': name, 'deep': deep}


def run(ctx, case):
    warnings.simplefilter('ignore')
    {'objects': run_objects, 'requests': run_requests, 'unlike': run_unlike,
     'frames': run_frames}[case['kind']](ctx, case)
