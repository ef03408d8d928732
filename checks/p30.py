"""P30: text results state what they were made from and how."""

import itertools
import os
import re
import warnings

from checks.common import Quiet
from checks.tools import make_inputs

PROPERTY = 'P30'
LEVEL = 'model_checking'
TECHNIQUE = ('enumeration of the complete product of option values of every tool '
             'which writes text results, for all ways of giving the input path and '
             'with other runs before it in the process, each run on the real code '
             'and the written header compared with what was asked for')
NOTE = ('all combinations of option values of the alphabet for each of nine tools; '
        'three ways of giving paths; series of 4 frames')
RULE = ('a case is one tool with a block of its option combinations, run one after '
        'another in one process')
ASSUMPTIONS = ['settings are stated in the lines and under the names that the '
               'tools use for them', 'creation date and version are not looked at']
CHUNK = 1

INF = float('inf')
BEGIN = ('begin', [None, 2])
END = ('end', [None, 3])
DT = ('dt', [None, 2.5, 0.125])
DELTA = ('delta_t', [None, 2.5, 0.125])
CUTOFF = ('cutoff', [None, 1.5, 0.])
RADIUS = ('cutoff_radius', [None, 0.75])
BINS = ('cutoff_bins', [None, 2])


def collect(base, out, kw):
    from strata.spreading.collect import collect
    collect(base + '/m', save=out, quiet=True, **kw)


def view(base, out, kw):
    from strata.spreading.view import view_spreading
    view_spreading([base + '/s%d.xvg' % i for i in kw.pop('files')],
                   save_xvg=out, show=False, **kw)


def fit(base, out, kw):
    from strata.spreading.fit import fit_spreading_data
    return fit_spreading_data([base + '/s%d.xvg' % i for i in kw.pop('files')],
                              save_xvg=out, show=False, **kw)


def interfaces(base, out, kw):
    from strata.interface.collect import collect_interfaces
    collect_interfaces(base + '/m', out, quiet=True, **kw)


def iview(base, out, kw):
    from strata.interface.view import view_interfaces
    view_interfaces(base + '/i', save_xvg=out, show=False, quiet=True, **kw)


def isample(base, out, kw):
    from strata.interface.sample import sample_interfaces
    sample_interfaces(base + '/i', kw.pop('variable'), save_xvg=out, show=False,
                      quiet=True, **kw)


def angle(base, out, kw):
    from strata.interface.angle import interface_contact_angle
    interface_contact_angle(base + '/i', fit=True, save_xvg=out, show=False,
                            quiet=True, **kw)


def line(base, out, kw):
    from strata.contact_line_analysis import sample_contact_line_edges
    sample_contact_line_edges(base + '/m', kw.pop('labels'), save=out, quiet=True,
                              extract_area=(1., 0.5), **kw)


def sample(base, out, kw):
    from strata.sample_average import sample_average_files
    sample_average_files(base + '/m', kw.pop('labels'), output=out, verbose=False,
                         quiet=True, **kw)


def span(kw):
    return (kw.get('begin', 1), kw.get('end', INF))


def frames(kw, group=1, rolling=False):
    """Bundles of frames read: (output number, frames)."""
    found = [i for i in range(kw.get('begin', 1), 5) if i <= kw.get('end', INF)]
    begin = kw.get('begin', 1)
    number = -(-begin // group)
    return [(number + k, found[i:i + group]) for k, i in enumerate(
        range(0, len(found) - group + 1, group))]


# tool: (call, options, extension of numbered outputs, module, settings stated)
TOOLS = {
    'spreading-collect': (
        collect, [BEGIN, END, ('floor', [None, 0.625]), DT, CUTOFF, RADIUS, BINS,
                  ('t0', [None, 3.])], None, None,
        lambda kw, base: {
            'File base path': os.path.realpath(base + '/m'),
            'Begin, end': span(kw), 'Floor': kw.get('floor'),
            'Delta-t': kw.get('dt', 1.), 'Mass cut-off': kw.get('cutoff'),
            'Radius cut-off': kw.get('cutoff_radius', 1.),
            'Required # of bins': kw.get('cutoff_bins', 1)}),
    'spreading-view': (
        view, [('files', [(0,), (1, 0), (0, 1, 2), (2, 2)]), ('tau', [None, 2.]),
               ('sync_radius', [None, 1.3])], None, 'strata.spreading.view',
        lambda kw, base: {}),
    'spreading-fit': (
        fit, [('files', [(0,), (1, 0), (0, 1, 2), (2, 2)]),
              ('lims', [None, (None, 1.7), (0.6, 2.2), (0., None)]),
              ('out_lims', [None, (0.4, 1.6), (0.9, None)])], None,
        'strata.spreading.fit',
        lambda kw, base: {'Fit limits': kw.get('lims', (None, None)),
                          'Draw limits': kw.get('out_lims', (None, None))}),
    'interface-collect': (
        interfaces, [BEGIN, END, ('recenter', [None, 'zero', 'com']), CUTOFF,
                     ('cutoff_radius', [None, 1., 0.75]), BINS], '.xvg',
        'strata.interface.collect',
        lambda kw, base: {'Recenter': kw.get('recenter'),
                          'Mass cut-off': kw.get('cutoff'),
                          'Radius cut-off': kw.get('cutoff_radius'),
                          'Required # of bins': kw.get('cutoff_bins', 1)}),
    'interface-view': (
        iview, [BEGIN, END, ('average', [None, 2, 3])], '.xvg',
        'strata.interface.collect', lambda kw, base: {}),
    'interface-sample': (
        isample, [('variable', ['area', 'length']), BEGIN, END, DELTA], None,
        'strata.interface.sample',
        lambda kw, base: {'File base path': os.path.realpath(base + '/i'),
                          'Variable': kw['variable'], 'Begin, end': span(kw),
                          'Delta-t': kw.get('delta_t', 1.)}),
    'interface-angle': (
        angle, [BEGIN, END, ('height', [None, 0.25, 0.5]), DELTA], None,
        'strata.interface.angle',
        lambda kw, base: {'File base path': os.path.realpath(base + '/i'),
                          'Begin, end': span(kw),
                          'Measured at height': kw.get('height'),
                          'Delta-t': kw.get('delta_t', 1.)}),
    'contact-line-sample': (
        line, [('labels', [['M'], ['U', 'M', 'T']]), BEGIN, END, DT,
               ('average', [None, 2]), ('rolling', [None, True]), CUTOFF], None,
        'strata.contact_line_analysis',
        lambda kw, base: {'File base path': os.path.realpath(base + '/m'),
                          'Sample data labels': kw['labels'],
                          'Average over # files': kw.get('average', 1),
                          'Rolling average': kw.get('rolling', False),
                          'Begin, end': span(kw), 'Delta-t': kw.get('dt', 1.),
                          'Cut-off': kw.get('cutoff'), 'Cut-off label': 'M'}),
    'sample': (
        sample, [('labels', [['M'], ['U', 'M', 'T'], ['visc_diss', 'V']]), BEGIN,
                 END, DT, CUTOFF, ('cutoff_label', [None, 'M', 'N'])], None,
        'strata.sample_average',
        lambda kw, base: {'File base path': os.path.realpath(base + '/m'),
                          'Sample data labels': kw['labels'],
                          'Begin, end': span(kw), 'Delta-t': kw.get('dt', 1.),
                          'Cut-off': kw.get('cutoff'),
                          'Cut-off label': kw.get('cutoff_label')}),
}


# names of the columns, in the last comment before the data
COLUMNS = {
    'spreading-collect': lambda kw: ['time', 'radius', 'left', 'right'],
    'interface-collect': lambda kw: ['x', 'y'],
    'interface-view': lambda kw: ['x', 'y'],
    'interface-sample': lambda kw: ['time', 'area' if kw['variable'] == 'area'
                                    else 'circumference|length'],
    'interface-angle': lambda kw: ['t'] + (
        ['mean', 'left', 'right'] if 'height' in kw else []) + ['fit'],
    'contact-line-sample': lambda kw: ['time'] + [l.lower() for l in kw['labels']],
    'sample': lambda kw: ['time'] + [l.lower() for l in kw['labels']],
}

MORE = {'begin': [1, 3], 'end': [2, 4], 'dt': [1., 10.], 'delta_t': [1., 10.],
        'cutoff': [0.75], 'cutoff_radius': [1.], 'cutoff_bins': [1, 0]}


def combinations(tool, deep):
    keys = [k for k, _ in TOOLS[tool][1]]
    alts = [v + [w for w in MORE.get(k, []) if deep and w not in v]
            for k, v in TOOLS[tool][1]]
    return [{k: v for k, v in zip(keys, vals) if v is not None}
            for vals in itertools.product(*alts)]


def cases(tier):
    quick = tier == 'quick'
    for tool in TOOLS:
        total = len(combinations(tool, not quick))
        for k in range(0, total, 48):
            yield {'tool': tool, 'deep': not quick,
                   'which': list(range(k, min(k + 48, total)))}


def plain(value):
    """Numbers, texts and None of a stated value."""
    if value is None or isinstance(value, (str, bool)):
        return value
    if isinstance(value, (list, tuple, set)):
        return [plain(v) for v in value]
    return float(value)


def stated(text):
    """Value of a setting as written in a header."""
    try:
        return plain(eval(text, {'__builtins__': {}, 'inf': INF, 'nan': 'nan'}))
    except Exception:
        return text


def header(raw):
    """(settings by name, files named, rows) of a written file."""
    settings, files, rows = {}, [], []
    for n, text in enumerate(raw.split('\n')):
        if text.startswith('#'):
            m = re.match(r"#\s+([^:']+): (.*)$", text)
            if m:
                settings.setdefault(m.group(1).strip(), []).append(
                    stated(m.group(2)))
                continue
            m = re.match(r"#   '(.*)'$", text)
            if m:
                files.append(m.group(1))
        elif text.strip():
            rows.append(text)
    return settings, files, rows


def run(ctx, case):
    warnings.simplefilter('ignore')
    import matplotlib.pyplot as plt
    plt.tight_layout = lambda *a, **k: None
    tool = case['tool']
    call, _, ext, module, settings = TOOLS[tool]
    root = ctx.tmpdir()
    make_inputs(root + '/in', 4)
    os.symlink(root + '/in', root + '/link')
    todo = combinations(tool, case['deep'])
    here = os.getcwd()
    os.chdir(root)
    try:
        for k, n in enumerate(case['which']):
            kw = todo[n]
            base = (root + '/in', 'in', 'link')[n % 3]
            out = ('%s/o%d/r' % (root, n), 'o%d/r' % n)[n // 3 % 2]
            path = out if ext else out + '.txt'
            ctx.state(tool, n)
            with Quiet() as q:
                got = call(base, path, {k: list(v) if isinstance(v, list) else v
                                        for k, v in kw.items()})
            ctx.step()
            what = lambda: '%s of %s with %s' % (tool, base, kw)
            want = settings(kw, base)
            if module:
                want['Created by module'] = module
            paths = [path]
            named = None
            if ext:
                bundles = frames(kw, kw.get('average', 1))
                paths = ['%s%05d%s' % (out, num, ext) for num, _ in bundles]
                mark = 'i%05d.xvg' if tool == 'interface-view' else 'm%05d.dat'
                named = [['%s/%s' % (base, mark % i) for i in b]
                         for _, b in bundles]
            elif 'files' in kw:
                named = [['%s/s%d.xvg' % (base, i) for i in kw['files']]]
            ok = True
            for i, p in enumerate(paths):
                if not ctx.check(os.path.exists(p), lambda: '%s: no %s; printed %s'
                                 % (what(), p, q.out[-200:])):
                    ok = False
                    continue
                with open(p) as fp:
                    raw = fp.read()
                found, files, rows = header(raw)
                for key, value in want.items():
                    ok &= ctx.check(
                        len(found.get(key, [])) == 1 and
                        found[key][0] == plain(value), lambda:
                        '%s: %s states %r as %r, not %r' % (
                            what(), p, key, found.get(key), value))
                if named:
                    # names of curves carry their number, and those of fits the
                    # parameters, behind the path
                    ok &= ctx.check(
                        len(files) == len(named[i]) and all(
                            f.startswith(w) and (ext is None or f == w)
                            for f, w in zip(files, named[i])), lambda:
                        '%s: %s names %s as its input, not %s' % (
                            what(), p, files, named[i]))
                if tool == 'spreading-fit' and named:
                    for f, (a, b) in zip(files, got):
                        m = re.search(r'a=(\S+), k=(\S+)$', f)
                        ok &= ctx.check(
                            m is not None and abs(float(m.group(1)) - a) < 6e-4
                            and abs(float(m.group(2)) - b) < 6e-4, lambda:
                            '%s: %s states %r for parameters %s, %s' % (
                                what(), p, f, a, b))
                if 'files' in kw:
                    # one section for each curve, which says so
                    sections = '\n'.join(rows).split('\n&\n')
                    labels = re.findall(r'^@ +s(\d+) comment "(.*)"$', raw, re.M)
                    ok &= ctx.check(
                        [n for n, _ in labels] == [str(i) for i in range(len(
                            kw['files']))] and all(
                            '/s%d.xvg' % f in n for f, (_, n) in zip(
                                kw['files'], labels)), lambda:
                        '%s: %s has sets with comments %s' % (what(), p, labels))
                    ok &= ctx.check(
                        len(sections) == len(kw['files']) and all(
                            re.findall('@target G0.S(.*)', s) == [str(i)]
                            and re.search('@type xy\n[^@&]+$', s)
                            for i, s in enumerate(sections)), lambda:
                        '%s: %s does not hold one set for each of %d curves: %r' % (
                            what(), p, len(kw['files']), sections))
                if tool in COLUMNS:
                    ok &= ctx.check(
                        columns_named(raw, COLUMNS[tool](kw)), lambda:
                        '%s: the last comment before the data of %s does not name '
                        'its columns %s: %r' % (what(), p, COLUMNS[tool](kw),
                                                raw[:900]))
                ok &= ctx.check(
                    raw.startswith('#') and all(
                        r.startswith(('@', '&')) or numbers(r) for r in rows)
                    and (rows or not kw_has_data(tool, kw)), lambda:
                    '%s: %s does not hold data behind comments: %r' % (
                        what(), p, raw[:300]))
            if ok:
                ctx.trace()
    finally:
        os.chdir(here)
    ctx.sample(tool=tool, combinations=len(case['which']))


def kw_has_data(tool, kw):
    """Whether the run has something to write."""
    return tool not in ('spreading-collect', 'contact-line-sample') and frames(kw) != []


def columns_named(raw, words):
    """Whether the last comment before data names the columns in order."""
    comment = ''
    for line in raw.split('\n'):
        if line.strip() and not line.startswith('#'):
            names = re.findall(r'[A-Za-z_]+', re.sub(r'[(\[].*?[)\]]', '', comment))
            return len(names) == len(words) and all(
                n.lower() in w.split('|') for n, w in zip(names, words))
        comment = line
    return True


def numbers(row):
    try:
        return [float(v) for v in row.split()] != []
    except ValueError:
        return False
