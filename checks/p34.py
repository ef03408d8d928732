"""P34: results come from inputs and options, not from the process or place."""

import itertools
import os
import pickle
import signal
import sys
import warnings

import numpy as np

from checks.common import FIELDS, Grid, Quiet, gmx_bytes, plain_bytes, simple_bytes
from checks.p32 import picture
from checks.tools import curve_text, droplet

PROPERTY = 'P34'
LEVEL = 'model_checking'
TECHNIQUE = ('exploration of all histories of two runs (three in the thorough tier) of '
             '40 settings of all tools, failing ones among them, in one process and on '
             'the same paths with changed inputs, each result compared with that of a '
             'fresh process; and enumeration of all ways to say the same thing: '
             'verbosity, form of the paths, working directory, kinds of numbers and '
             'defaults given in full, in new interpreters with several hash seeds, '
             'locales and masks')
NOTE = ('all ordered pairs of 40 settings (all triples of 16 of them in the thorough '
        'tier), with the process state compared after every run; all combinations of '
        'verbosity, path form, working directory, kind of number and explicit defaults '
        'for every setting')
RULE = ('a case is one first setting with every next one, or one setting with all ways '
        'to state it; a state is one history or one way')
ASSUMPTIONS = ['one thread runs the tools', 'assertions are on (the code decides by '
               'them)', 'text results name their paths and dates, '
               'which are left out of the comparison']
CHUNK = 1

INF = float('inf')
FILES = {'begin': 1, 'end': INF, 'ext': '.dat'}
OUTLINES = {'begin': 1, 'end': INF, 'ext': '.xvg'}
SEARCH = {'cutoff': None, 'cutoff_radius': 1., 'cutoff_bins': 1}


# -- the tools, called with base paths, options and nothing else --------------

def convert(inp, out, kw):
    from strata.convert import convert
    return convert(inp + '/m', out, **kw)


def average(inp, out, kw):
    from strata.average import average
    return average(inp + '/m', out, **kw)


def collect(inp, out, kw):
    from strata.spreading.collect import collect
    return collect(inp + '/m', save=out, **kw)


def lookup(inp, out, kw):
    """Collection which writes nothing."""
    from strata.spreading.collect import collect
    return collect(inp + '/m', **kw)


def curves(inp, out, kw):
    from strata.spreading.view import view_spreading
    files = [inp + '/s0.xvg', inp + '/s1.xvg']
    return view_spreading(files, save_xvg=out, **kw)


def fits(inp, out, kw):
    from strata.spreading.fit import fit_spreading_data
    files = [inp + '/s0.xvg', inp + '/s1.xvg']
    return fit_spreading_data(files, save_xvg=out, **kw)


def outlines(inp, out, kw):
    from strata.interface.collect import collect_interfaces
    return collect_interfaces(inp + '/m', out, **kw)


def views(inp, out, kw):
    from strata.interface.view import view_interfaces
    return view_interfaces(inp + '/i', save_xvg=out, **kw)


def areas(inp, out, kw):
    from strata.interface.sample import sample_interfaces
    return sample_interfaces(inp + '/i', save_xvg=out, **kw)


def angles(inp, out, kw):
    from strata.interface.angle import interface_contact_angle
    return interface_contact_angle(inp + '/i', save_xvg=out, **kw)


def lines(inp, out, kw):
    from strata.contact_line_analysis import extract_contact_line_bins
    return extract_contact_line_bins(inp + '/m', out, **kw)


def line_samples(inp, out, kw):
    from strata.contact_line_analysis import sample_contact_line_edges
    return sample_contact_line_edges(inp + '/m', save=out, **kw)


def samples(inp, out, kw):
    from strata.sample_average import sample_average_files
    return sample_average_files(inp + '/m', output=out, **kw)


def heights(inp, out, kw):
    from strata.view_flowmap import view_flowmap_2d
    return view_flowmap_2d(inp + '/m00001.dat', inp + '/m00003.dat', **kw)


def arrows(inp, out, kw):
    from strata.view_flowmap import view_flowfields
    return view_flowfields(inp + '/m00001.dat', inp + '/m00003.dat', **kw)


def command(*words):
    def call(inp, out, kw):
        from click.testing import CliRunner
        import strata.strata
        argv = [w.replace('@', inp).replace('%', out) for w in words]
        result = CliRunner().invoke(strata.strata.strata, argv)
        if result.exit_code:
            raise RuntimeError('exit %r %r' % (result.exit_code, result.exception))
    return call


LINE = dict(SEARCH, extract_area=(1., 0.5), cutoff=1.)
ANY = {'vlim': (None, None), 'clim': (None, None)}
GRAPH = {'title': '', 'xlim': (None, None), 'ylim': (None, None), 'loglog': False,
         'legend': False, 'save_fig': None, 'show': True, 'clf': True}
# setting: (tool, options, defaults, takes quiet)
SETTINGS = {
    'convert': (convert, {}, dict(FILES, ftype='gmx'), True),
    'convert-plain': (convert, {'ftype': 'simple_plain', 'begin': 2}, FILES, True),
    'average': (average, {}, dict(FILES, group=1, rolling=False, supersample=None,
                                  xlim=(None, None), ylim=(None, None),
                                  recenter=False), True),
    'average-all': (average, {'group': 2, 'recenter': 'com', 'combine': (2, 2),
                              'xlim': (-0.75, 2.75), 'supersample': 2},
                    dict(FILES, ylim=(None, None), rolling=False), True),
    'average-left': (average, {'group': 2, 'rolling': True, 'recenter': 'left',
                               'floor': 0.75, 'cutoff': 1.}, dict(
                                   FILES, cutoff_radius=1., cutoff_bins=1), True),
    'collect': (collect, {}, dict(FILES, cutoff_radius=1., cutoff_bins=1, cutoff=None,
                                  floor=None, dt=1.), True),
    'collect-floor': (collect, {'floor': 1.25, 'dt': 2., 't0': 3., 'end': 2,
                                'cutoff': 0.5, 'cutoff_radius': 0.5},
                      dict(FILES, cutoff_bins=1), True),
    'lookup': (lookup, {'dt': 4.}, dict(FILES, floor=None), True),
    'curves': (curves, {'show': False}, {'sync_radius': None, 'tau': 1., 'R': 1.,
                                         'loglog': False, 'save_fig': None}, False),
    'curves-scaled': (curves, {'tau': 2., 'R': [2., 4.], 'sync_radius': 0.75}, {},
                      False),
    'fits': (fits, {'show': False}, {'lims': (None, None), 'out_lims': (None, None),
                                     'loglog': False, 'save_fig': None}, False),
    'fits-limits': (fits, {'lims': (0.75, None), 'out_lims': (None, 2.),
                           'loglog': True}, {}, False),
    'outlines': (outlines, {'cutoff_radius': 1.}, dict(
        FILES, cutoff=None, cutoff_bins=1, recenter=None, outext='.xvg'), True),
    'outlines-zero': (outlines, {'cutoff_radius': 0.5, 'cutoff': 1.5, 'begin': 2,
                                 'recenter': 'zero', 'ylims': (0.75, None)}, FILES,
                      True),
    'views': (views, {'show': False}, dict(OUTLINES, average=1), True),
    'views-two': (views, {'average': 2, 'title': 'T', 'xlim': (-1., 2.)}, OUTLINES,
                  True),
    'areas': (areas, {'variable': 'area', 'show': False}, dict(OUTLINES, delta_t=1.),
              True),
    'lengths': (areas, {'variable': 'length', 'delta_t': 2., 'end': 2,
                        'xlabel': 'x'}, OUTLINES, True),
    'angles': (angles, {'fit': True, 'show': False}, dict(
        OUTLINES, height=None, delta_t=1., save_fig=None), True),
    'angles-height': (angles, {'height': 0.5, 'delta_t': 3.}, dict(
        OUTLINES, fit=False), True),
    'lines': (lines, LINE, dict(FILES, average=1, rolling=False, recenter=False,
                                fuse=False), True),
    'lines-two': (lines, dict(LINE, average=2, rolling=True, recenter=True,
                              fuse=True, floor=0.75), FILES, True),
    'line-samples': (line_samples, dict(LINE, labels=['M', 'U']), dict(
        FILES, average=1, rolling=False, recenter=False, dt=1., sum=False,
        extract_height=0.), True),
    'line-sums': (line_samples, dict(LINE, labels=['T'], average=2, sum=True, dt=2.,
                                     extract_area=(0.5, 0.25)), FILES, True),
    'samples': (samples, {'labels': ['M', 'U', 'inertial_energy']}, dict(
        FILES, sum=False, dt=1., cutoff_label=None, cutoff=None, verbose=True), True),
    'samples-cut': (samples, {'labels': ['T', 'flow_angle'], 'cutoff_label': 'M',
                              'xlim': (-0.5, None), 'dt': 2., 'verbose': False},
                    dict(FILES, cutoff=None, sum=False), True),
    'samples-sum': (samples, {'labels': ['visc_diss'], 'sum': True,
                              'viscosity': 2., 'begin': 2}, FILES, True),
    'samples-visc': (samples, {'labels': ['visc_diss']}, dict(
        FILES, viscosity=8.77e-4, sum=False, dt=1., cutoff_label=None), True),
    'line-visc': (line_samples, dict(LINE, labels=['visc_diss']), dict(
        FILES, viscosity=8.44e-4, sum=False, dt=1.), True),
    'lines-search': (lines, {'extract_area': (1., 0.5)}, dict(
        FILES, **dict(SEARCH, cutoff_radius=None, average=1, floor=None, recenter=False,
                      extract_height=0., coord_labels=('X', 'Y'),
                      search_longest_connected=False)), True),
    'heights-plain': (heights, {}, dict(ANY, type='height', label='M', cutoff=None,
                                        cutoff_label='M', **GRAPH), False),
    'heights': (heights, dict(type='height', label='T', cutoff=1.5, colorbar=True,
                              colormap='gray'), dict(ANY, cutoff_label='M'), False),
    'contours': (heights, dict(type='contour', label='visc_diss', filled=True),
                 dict(ANY, num_contours=10, **GRAPH), False),
    'arrows': (arrows, {'colour': 'flow', 'cutoff': 1., 'xlim': (-0.5, 2.)}, {
        'labels': ('U', 'V'), 'pivot': 'middle', 'vlim': (None, None),
        'streamlines': False, 'title': '', 'show': True, 'cutoff_label': 'M'}, False),
    'streams': (arrows, {'streamlines': True, 'colour': 'M'}, {
        'cutoff': None, 'vlim': (None, None)}, False),
    'command-sample': (command('sample', '@/m', 'T', '-cl', 'M', '-co', '1', '-o',
                               '%'), {}, {}, False),
    'command-interface': (command('interface', 'collect', '@/m', '%', '-b', '2',
                                  '-co', '1.5'), {}, {}, False),
    # These fail
    'bad-label': (samples, {'labels': ['M', 'Q']}, {}, False),
    'bad-center': (average, {'recenter': 'middle'}, {}, False),
    'bad-type': (heights, {'type': 'depth'}, {}, False),
    'bad-variable': (areas, {'variable': 'volume', 'show': False}, {}, False),
    'bad-limits': (fits, {'lims': (90., 91.), 'show': False}, {}, False),
    'nothing': (convert, {'begin': 50}, {}, False),
    'bad-command': (command('interface', 'sample', '@/i', 'volume'), {}, {}, False),
}
FAILING = ('bad-label', 'bad-center', 'bad-type', 'bad-variable', 'bad-limits',
           'nothing', 'bad-command')
TRIPLE = ('average-all', 'average-left', 'collect-floor', 'curves-scaled',
          'fits-limits', 'outlines-zero', 'views-two', 'angles-height', 'lines-two',
          'line-samples', 'samples-cut', 'heights', 'arrows', 'command-sample',
          'bad-label', 'bad-type')


def inputs(folder, which):
    """The same files with one of two contents."""
    os.makedirs(folder, exist_ok=True)
    for i in range(3):
        grid = droplet(i + 2 * which, (-1., 0.5) if not which else (-1.5, 0.25))
        raw = gmx_bytes(grid)
        if which:
            raw = simple_bytes(grid)
        with open('%s/m%05d.dat' % (folder, 1 + i), 'wb') as fp:
            fp.write(raw)
        n = 4 - which
        rows = ['# outline']
        left = [(-2. - 0.25 * i + 0.5 * j, 0.25 * j) for j in range(n)]
        right = [(2.5 + which + 0.5 * i - 0.25 * j, 0.25 * j) for j in range(n)]
        rows += ['%f %f' % c for c in left + right[::-1]]
        with open('%s/i%05d.xvg' % (folder, 1 + i), 'w') as fp:
            fp.write('\n'.join(rows) + '\n')
    for i in range(2):
        with open('%s/s%d.xvg' % (folder, i), 'w') as fp:
            fp.write(curve_text(1. + 0.5 * i + 2. * which))


def cases(tier):
    quick = tier == 'quick'
    names = list(SETTINGS)
    for first in names:
        for k in range(2):
            yield {'kind': 'after', 'history': [first], 'part': k}
    for name in names:
        yield {'kind': 'ways', 'setting': name, 'full': not quick}
    for k, env in enumerate(STARTS if quick else STARTS + MORE_STARTS):
        yield {'kind': 'started', 'env': env, 'mask': MASKS[k % len(MASKS)]}
    if not quick:
        for first, second in itertools.product(TRIPLE, repeat=2):
            yield {'kind': 'after', 'history': [first, second], 'part': None}


# -- one run ------------------------------------------------------------------

def plain(value):
    """A result as nested lists of numbers and words."""
    if value is None or isinstance(value, (str, bool)):
        return value
    if isinstance(value, dict):
        return sorted((str(k), plain(v)) for k, v in value.items())
    if hasattr(value, 'index') and hasattr(value, 'values'):
        return [plain(np.asarray(value.index)), plain(np.asarray(value.values))]
    if isinstance(value, np.ndarray) and value.dtype.names:
        return [plain(value[l]) for l in value.dtype.names]
    if isinstance(value, (list, tuple, np.ndarray)):
        return [plain(v) for v in value]
    try:
        return float(value)
    except (TypeError, ValueError):
        return type(value).__name__


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-7 * max(abs(a), abs(b))
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-9,
                                                  equal_nan=True)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def content(raw):
    if raw[:1] in (b'#', b'@') or raw[:1].isdigit() or raw[:1] == b'-':
        return [[float(v) for v in line.split()]
                for line in raw.decode('ascii').splitlines()
                if line.strip() and not line.startswith(('#', '@', '&'))]
    return raw


def execute(name, inp, out, extra=None):
    """(result, returned value, {file: content}, figures shown, arguments kept)."""
    import matplotlib.pyplot as plt
    call, kw, _, quiet = SETTINGS[name]
    kw = dict(kw, **(extra or {}))
    if quiet:
        kw.setdefault('quiet', True)
    before = pickle.dumps(sorted(kw.items()))
    shown = []
    old = plt.show
    plt.show = lambda *a, **k: shown.append(picture())
    returned, end = None, 'done'
    try:
        with Quiet():
            try:
                returned = call(inp, out, kw)
            except (Exception, SystemExit) as err:
                end = type(err).__name__
    finally:
        plt.show = old
    kept = pickle.dumps(sorted(kw.items())) == before
    files = {}
    folder, base = os.path.split(out)
    for path in sorted(os.listdir(folder or '.')):
        with open(os.path.join(folder, path), 'rb') as fp:
            files[path] = content(fp.read())
    return end, plain(returned), sorted(files.items()), shown, kept


def process():
    """State of the process which runs share."""
    import locale
    import matplotlib
    return [os.getcwd(), sorted(os.environ.items()), sorted(np.geterr().items()),
            sorted((k, repr(v)) for k, v in matplotlib.rcParams.items()),
            len(warnings.filters), locale.setlocale(locale.LC_ALL), list(sys.path),
            os.umask(os.umask(0o22)) and 0, np.get_printoptions()['precision'],
            list(sys.argv), sys.getrecursionlimit()]


def fork(func):
    """Result of func in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(60)
            os.close(r)
            raw = pickle.dumps(func())
            with os.fdopen(w, 'wb') as fp:
                fp.write(raw)
            code = 0
        except BaseException as err:
            try:
                os.write(w, pickle.dumps(('broken', repr(err))))
            except Exception:
                pass
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as fp:
        raw = fp.read()
    os.waitpid(pid, 0)
    if not raw:
        return ('broken', 'the process died or ran out of time')
    return pickle.loads(raw)


def scene(top):
    """Fresh folder for the outputs."""
    out = top + '/out'
    if os.path.isdir(out):
        for name in os.listdir(out):
            os.remove(out + '/' + name)
    else:
        os.makedirs(out)
    return out + '/r'


def history(top, steps):
    """Outcomes of runs one after another, and changes of the process."""
    warnings.simplefilter('ignore')
    import matplotlib.pyplot as plt
    plt.tight_layout = lambda *a, **k: None
    outcomes = []
    for name, which in steps:
        inputs(top + '/in', which)
        out = scene(top)
        state = process()
        outcomes.append(execute(name, top + '/in', out))
        now = process()
        changed = [k for k, (a, b) in enumerate(zip(state, now)) if a != b]
        outcomes[-1] += (changed,)
    return outcomes


def prepare():
    """Import everything that runs import, but run nothing."""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import click.testing
    import pandas
    import scipy.stats
    import strata.strata
    import strata.average
    import strata.convert
    import strata.contact_line_analysis
    import strata.sample_average
    import strata.view_flowmap
    import strata.interface.angle
    import strata.interface.collect
    import strata.interface.sample
    import strata.interface.view
    import strata.spreading.collect
    import strata.spreading.fit
    import strata.spreading.view
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')


def run(ctx, case):
    prepare()
    {'after': run_after, 'ways': run_ways, 'started': run_started}[case['kind']](
        ctx, case)


PARTS = ('way it ends', 'value it returns', 'files', 'figures')


def difference(got, want):
    """Name and contents of the first part that differs."""
    for part, a, b in zip(PARTS, got, want):
        if not same(a, b):
            return '%s: %s, not %s' % (part, brief(a), brief(b))
    return None


def brief(value):
    text = repr(value)
    return text if len(text) < 500 else text[:500] + '...'


def run_after(ctx, case):
    head = case['history']
    top = ctx.tmpdir()
    nexts = list(SETTINGS)[case['part']::2] if case['part'] is not None else TRIPLE
    head = [(name, k % 2) for k, name in enumerate(head)]
    for name in nexts:
        which = len(head) % 2
        fresh = fork(lambda: history(top, [(name, which)]))
        if fresh[0] == 'broken':
            ctx.check(False, '%s: %s' % (name, fresh[1]))
            continue
        want = fresh[0]
        ctx.check((want[0] == 'done' and (want[2] or want[3] or want[1] is not None))
                  or name in FAILING, lambda: '%s alone: %s %s %d figures' % (
                      name, want[0], [f for f, _ in want[2]], len(want[3])))
        got = fork(lambda: history(top, head + [(name, which)]))
        ctx.state(tuple(head), name)
        ctx.step(1 + len(head))
        what = '%s after %s' % (name, ', '.join(
            '%s of input %d' % h for h in head))
        if got[0] == 'broken':
            ctx.check(False, '%s: %s' % (what, got[1]))
            continue
        bad = difference(got[-1], want)
        ok = ctx.check(bad is None, lambda: '%s: not the result of a fresh process; '
                       '%s' % (what, bad))
        for (step, _), outcome in zip(head + [(name, which)], got):
            ok &= ctx.check(outcome[4], lambda: '%s: %s changed its arguments' % (
                what, step))
            ok &= ctx.check(not outcome[5], lambda: '%s: %s left the process changed '
                            'in %s' % (what, step, [STATE[k] for k in outcome[5]]))
        if ok:
            ctx.trace()
    ctx.sample(first=head[0][0], nexts=len(nexts))


STATE = ('working directory', 'environment', 'numpy error handling',
         'matplotlib settings', 'warning filters', 'locale', 'module path', 'umask',
         'print options', 'command line', 'recursion limit')


# -- ways to say the same -----------------------------------------------------

def integral(value):
    """Whole floats as integers."""
    if isinstance(value, bool) or value is None:
        return value
    if isinstance(value, float) and value.is_integer():
        return int(value)
    if isinstance(value, (tuple, list)):
        return type(value)(integral(v) for v in value)
    return value


def scalar(value):
    """Numbers as numpy scalars."""
    if isinstance(value, bool) or value is None:
        return value
    if isinstance(value, float):
        return np.float64(value)
    if isinstance(value, int):
        return np.int64(value)
    if isinstance(value, (tuple, list)):
        return type(value)(scalar(v) for v in value)
    return value


KINDS = {'given': lambda v: v, 'integers': integral, 'numpy': scalar}
PLACES = ('absolute', 'relative', 'dotted', 'linked', 'beside', 'deep')


def place(top, form):
    """(working directory, input folder, output base) in some form."""
    inp, out = top + '/in', top + '/out'
    if form == 'absolute':
        return '/', inp, out + '/r'
    if form == 'relative':
        return top, 'in', 'out/r'
    if form == 'dotted':
        return top, './in/../in', './out/r'
    if form == 'linked':
        return top, top + '/link', out + '/r'
    if form == 'beside':
        return out, '../in', 'r'
    return inp, '.', '../out/r'


def run_ways(ctx, case):
    name = case['setting']
    call, kw, defaults, quiet = SETTINGS[name]
    top = ctx.tmpdir()
    inputs(top + '/in', 0)
    os.symlink(top + '/in', top + '/link')
    ways = []
    for form, loud, kind, full in itertools.product(
            PLACES, (False, True) if quiet else (None,), KINDS,
            (False, True) if defaults else (False,)):
        if kind != 'given' and not kw and not full:
            continue
        ways.append((form, loud, kind, full))

    def every():
        import matplotlib.pyplot as plt
        plt.tight_layout = lambda *a, **k: None
        found = []
        for form, loud, kind, full in [('absolute', False if quiet else None, 'given',
                                        False)] + ways:
            given = dict(defaults, **kw) if full else kw
            extra = {k: v if v == INF else KINDS[kind](v) for k, v in given.items()}
            if loud is not None:
                extra['quiet'] = not loud
            scene(top)
            cwd, inp, out = place(top, form)
            os.chdir(cwd)
            found.append(execute(name, inp, out, extra))
            plt.close('all')
            found[-1] += (os.getcwd() == cwd,)
        os.chdir('/')
        return found

    found = fork(every)
    if found[0] == 'broken':
        ctx.check(False, '%s: %s' % (name, found[1]))
        return
    want = found[0]
    for way, got in zip(ways, found[1:]):
        form, loud, kind, full = way
        ctx.state(name, way)
        ctx.step()
        what = lambda: '%s with %s paths, %s, numbers as %s%s' % (
            name, form, 'loud' if loud else 'quiet', kind,
            ' and the defaults in full' if full else '')
        bad = difference(got, want)
        ok = ctx.check(bad is None, lambda: '%s: not the same result; %s' % (
            what(), bad))
        ok &= ctx.check(got[4], lambda: '%s: changed its arguments' % what())
        ok &= ctx.check(got[5], lambda: '%s: changed the working directory' % what())
        if ok:
            ctx.trace()
    ctx.sample(setting=name, ways=len(ways))


# -- processes started in other ways ------------------------------------------

STARTS = [{'PYTHONHASHSEED': str(k)} for k in range(3)] + [
    {'LC_ALL': 'POSIX', 'LANG': 'POSIX'}, {'LC_ALL': 'C.UTF-8', 'COLUMNS': '20'},
    {'TZ': 'Asia/Tokyo', 'PYTHONHASHSEED': '11'}, {'HOME': '/nowhere', 'USER': ''},
    {'OMP_NUM_THREADS': '3', 'PYTHONUNBUFFERED': '1'}]
MORE_STARTS = [{'PYTHONHASHSEED': str(k)} for k in range(12, 60)] + [
    dict(a, PYTHONHASHSEED=str(70 + k)) for k, a in enumerate(STARTS[3:])]
MASKS = (0o022, 0o077, 0o002)


def started(top):
    """Outcomes of all settings, in a process of its own."""
    prepare()
    import matplotlib.pyplot as plt
    plt.tight_layout = lambda *a, **k: None
    found = {}
    for name in SETTINGS:
        inputs(top + '/in', 0)
        found[name] = execute(name, top + '/in', scene(top))
        plt.close('all')
    return found


def launch(top, env, mask):
    """The outcomes as found by a new interpreter."""
    import subprocess
    code = ('import os, pickle, sys\n'
            'os.umask(%d)\n'
            'from checks import p34\n'
            'found = p34.started(sys.argv[1])\n'
            'with open(sys.argv[1] + "/found", "wb") as fp:\n'
            '    pickle.dump(found, fp)\n' % mask)
    path = os.pathsep.join([os.path.dirname(os.path.dirname(os.path.abspath(
        __file__)))] + [p for p in sys.path if p])
    os.makedirs(top, exist_ok=True)
    done = subprocess.run([sys.executable, '-c', code, top], cwd=top, env=dict(
        {k: v for k, v in os.environ.items() if not k.startswith('LC_')},
        PYTHONPATH=path, **env), capture_output=True, text=True, timeout=80)
    if done.returncode:
        return None, done.stderr[-400:]
    with open(top + '/found', 'rb') as fp:
        return pickle.load(fp), None


def run_started(ctx, case):
    env, mask = case['env'], case['mask']
    # the same place in both, which texts name
    top = ctx.tmpdir()
    want, broken = launch(top + '/a', {'PYTHONHASHSEED': '5'}, 0o022)
    if not ctx.check(want is not None, 'a new process: %s' % broken):
        return
    os.rename(top + '/a', top + '/b')
    got, broken = launch(top + '/a', env, mask)
    if not ctx.check(got is not None, 'a process started with %s: %s' % (env, broken)):
        return
    for name in SETTINGS:
        ctx.state('started', sorted(env.items()), mask, name)
        ctx.step()
        bad = difference(got[name], want[name])
        if ctx.check(bad is None, lambda: '%s: another result in a process started '
                     'with %s and umask %o; %s' % (name, env, mask, bad)):
            ctx.trace()
    ctx.sample(env=env, settings=len(got))
