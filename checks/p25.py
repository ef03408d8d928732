"""P25: every command does what its library call does."""

import itertools
import math
import os
import re
import warnings

from checks.common import Quiet
from checks.tools import curve_text, droplet, normal, outline_text

PROPERTY = 'P25'
LEVEL = 'model_checking'
TECHNIQUE = ('enumeration of every command with every option value of an alphabet '
             'covering all its documented options, alone and in all pairs (and '
             'triples in the thorough tier), each run through the command line and '
             'as the corresponding library call, comparing exit status, complete '
             'output trees, drawn figures and printed numbers')
NOTE = ('all single options, all pairs of options and, in the thorough tier, all '
        'triples of options of commands which draw no maps; every number also as '
        'zero, on inputs on both sides of zero')
RULE = ('a case is one command with a block of option combinations; every '
        'combination is run both ways into directories of its own')
ASSUMPTIONS = ['the options given by no one are the documented defaults, or those '
               'of the library where none are documented',
               'the library calls themselves are decided by the other properties']
CHUNK = 1

FRAMES = range(0, 6)


def lims(flag, key):
    return (key, [([flag, '-0.6', '1.9'], {key: (-0.6, 1.9)}),
                  ([flag, 'none', '1.4'], {key: (None, 1.4)}),
                  ([flag, '0.6', 'None'], {key: (0.6, None)})])


def one(key, *alts):
    return (key, [(a if isinstance(a, list) else a.split(' '), kw)
                  for a, kw in alts])


SEARCH = [
    one('cutoff', ('-co 1.5', {'cutoff': 1.5}), ('--cutoff 0', {'cutoff': 0.})),
    one('cutoff_bins', ('-cb 2', {'cutoff_bins': 2}),
        ('--cutoff_bins 0', {'cutoff_bins': 0})),
    one('cutoff_radius', ('-cr 0.5', {'cutoff_radius': 0.5}),
        ('--cutoff_radius 0.75', {'cutoff_radius': 0.75})),
]


def frames(ext):
    return [
        one('begin', ('-b 2', {'begin': 2}), ('--begin 0', {'begin': 0})),
        one('end', ('-e 3', {'end': 3}), ('--end 4', {'end': 4})),
        one('ext', ('--ext ' + ext, {'ext': ext})),
    ]


def labels(default_title):
    return [
        one('title', (['--title', 'A title'], {'title': 'A title'})),
        one('xlabel', (['--xlabel', 'a (b)'], {'xlabel': 'a (b)'})),
        one('ylabel', (['--ylabel', 'c (d)'], {'ylabel': 'c (d)'})),
    ]


SHOW = one('show', ('--show', {'show': True}), ('--noshow', {'show': False}))
AREA = one('extract_area', ('-ea 1.25 0.5', {'extract_area': (1.25, 0.5)}),
           ('--extract_area 0.75 1', {'extract_area': (0.75, 1.)}))
LINE = [
    one('average', ('-av 2', {'average': 2}), ('--average 3', {'average': 3})),
    one('rolling', ('--rolling', {'rolling': True}),
        ('--norolling', {'rolling': False})),
    one('recenter', ('--recenter', {'recenter': True}),
        ('--norecenter', {'recenter': False})),
    one('floor', ('--floor 0.9', {'floor': 0.9})),
    one('extract_height', ('-eh 0.25', {'extract_height': 0.25}),
        ('--extract_height 0.5', {'extract_height': 0.5})),
]
DELTA_T = one('dt', ('-dt 2.5', {'dt': 2.5}), ('--delta_t 0.5', {'dt': 0.5}))
MAP = [
    one('colorbar', ('--colourbar', {'colorbar': True}),
        ('--nocolourbar', {'colorbar': False})),
    one('cbarlabel', (['--cbarlabel', 'K'], {'cbarlabel': 'K'})),
    one('cbarticks', (['--cbarticks', '1 2.5'], {'cbarticks': [1., 2.5]})),
    one('cbarticklabels', (['--cbarticks', '1 2', '--cbarticklabels', 'a b'],
                           {'cbarticks': [1., 2.], 'cbarticklabels': ['a', 'b']})),
    one('colormap', ('-cmap jet', {'colormap': 'jet'}),
        ('--colourmap gray', {'colormap': 'gray'})),
    one('transparent', ('--transparent', {'transparent': True}),
        ('--notransparent', {'transparent': False})),
    one('vlim', ('--vlim 1.5 2.5', {'vlim': (1.5, 2.5)}),
        ('--vlim none 2', {'vlim': (None, 2.)})),
    lims('--xlim', 'xlim'), lims('--ylim', 'ylim'), SHOW,
    one('dims', ('--dims 300 200', {'dims': (300., 200.)})),
]


def _average(group):
    def run(inp, kw):
        from strata.average import average
        average(inp + '/m', 'o/av', group, **kw)
    return run


def _convert(inp, kw):
    from strata.convert import convert
    convert(inp + '/m', 'o/c', **kw)


def _collect(inp, kw):
    from strata.spreading.collect import collect
    verbose = kw.pop('verbose', False)
    data = collect(inp + '/m', **kw)
    return [v for row in data for v in row] if verbose else []


def _view(inp, kw):
    from strata.spreading.view import view_spreading
    view_spreading([inp + '/s0.xvg', inp + '/s1.xvg'], **kw)


def _fit(inp, kw):
    from strata.spreading.fit import fit_spreading_data
    show = kw.pop('print', True)
    params = fit_spreading_data([inp + '/s0.xvg', inp + '/s1.xvg'], **kw)
    return [float(v) for row in params for v in row] if show else []


def _icollect(inp, kw):
    from strata.interface.collect import collect_interfaces
    collect_interfaces(inp + '/m', 'o/if', **kw)


def _iview(inp, kw):
    from strata.interface.view import view_interfaces
    view_interfaces(inp + '/i', **kw)


def _isample(variable):
    def run(inp, kw):
        from strata.interface.sample import sample_interfaces
        sample_interfaces(inp + '/i', variable, **kw)
    return run


def _angle(inp, kw):
    from strata.interface.angle import interface_contact_angle
    if kw.get('fit') or kw.get('height'):
        interface_contact_angle(inp + '/i', **kw)


def _lcollect(inp, kw):
    from strata.contact_line_analysis import extract_contact_line_bins
    extract_contact_line_bins(inp + '/m', 'o/cl', **kw)


def _lsample(inp, kw):
    from strata.contact_line_analysis import sample_contact_line_edges
    sample_contact_line_edges(inp + '/m', ('M', 'U'), **kw)


def _sample(inp, kw):
    from strata.sample_average import sample_average_files
    sample_average_files(inp + '/m', ('M', 'V'), **kw)


def _map(kind):
    def run(inp, kw):
        from strata.view_flowmap import view_flowmap_2d
        view_flowmap_2d(inp + '/m00001.dat', inp + '/m00002.dat', type=kind, **kw)
    return run


def _flow(inp, kw):
    from strata.view_flowmap import view_flowfields
    view_flowfields(inp + '/m00001.dat', inp + '/m00002.dat', cutoff_label='M',
                    **kw)


def fig(path):
    return one('save_fig', ('-o ' + path, {'save_fig': path}),
               ('--save_fig o/' + path, {'save_fig': 'o/' + path}))


def xvg(path):
    return one('save_xvg', ('-x ' + path, {'save_xvg': path}),
               ('--save_xvg o/' + path, {'save_xvg': 'o/' + path}))


OPEN = {'begin': 1, 'end': float('inf')}

# name: (words before the options, words after, library call, what is set when
# no option is given, options). The words @/x stand for inputs.
COMMANDS = {}
for _n in (1, 2):
    COMMANDS['average-%d' % _n] = (
        ['average', '@/m', 'o/av', str(_n)], [], _average(_n),
        dict(OPEN, ext='.dat', cutoff=0., cutoff_bins=1, cutoff_radius=1.),
        [one('combine', ('--combine 2 2', {'combine': (2, 2)}),
             ('--combine none none', {'combine': (None, None)})),
         one('supersample', ('--supersample 2', {'supersample': 2})),
         one('recenter', ('--recenter left', {'recenter': 'left'}),
             ('--recenter right', {'recenter': 'right'}),
             ('--recenter com', {'recenter': 'com'}),
             ('--recenter none', {'recenter': None})),
         one('rolling', ('--rolling', {'rolling': True}),
             ('--norolling', {'rolling': False})),
         one('floor', ('--floor 0.9', {'floor': 0.9}))]
        + SEARCH + [lims('--xlim', 'xlim'), lims('--ylim', 'ylim')]
        + frames('.map'))
COMMANDS['convert'] = (
    ['convert', '@/m', 'o/c'], [], _convert, dict(OPEN, ftype='gmx', ext='.dat'),
    [one('ftype', ('--ftype simple', {'ftype': 'simple'}),
         ('--ftype simple_plain', {'ftype': 'simple_plain'}),
         ('--ftype gmx', {'ftype': 'gmx'}))] + frames('.map'))
COMMANDS['spreading-collect'] = (
    ['spreading', 'collect', '@/m', '0.625'], [], _collect,
    dict(OPEN, save='spread.xvg', dt=1., t0=0., floor=0.625, cutoff_radius=1.,
         cutoff_bins=1, ext='.dat'),
    [one('save', ('-o r.xvg', {'save': 'r.xvg'}),
         ('--output o/r.xvg', {'save': 'o/r.xvg'})),
     one('nooutput', ('--nooutput', {'save': None})), DELTA_T,
     one('t0', ('-t0 3', {'t0': 3.}), ('--time_init 0.5', {'t0': 0.5})),
     one('verbose', ('-v', {'verbose': True}), ('--verbose', {'verbose': True}))]
    + SEARCH + frames('.map'))
COMMANDS['spreading-view'] = (
    ['spreading', 'view', '@/s0.xvg', '@/s1.xvg'], [], _view,
    {'tau': 1., 'R': 1., 'show': True, 'title': 'Droplet spreading',
     'xlabel': 'Time (ps)', 'ylabel': 'Radius (nm)'},
    [one('tau', ('-t 2', {'tau': 2.}), ('--tau 0.5', {'tau': 0.5})),
     one('R', ('-r 2', {'R': 2.}), ('--radius 0.5', {'R': 0.5})),
     one('sync', ('-rs 1.3', {'sync_radius': 1.3}),
         ('--sync_radius 1.8', {'sync_radius': 1.8})),
     one('loglog', ('--loglog', {'loglog': True})),
     fig('f.png'), xvg('d.xvg'), SHOW, lims('--xlim', 'xlim'),
     lims('--ylim', 'ylim')] + labels('Droplet spreading'))
COMMANDS['spreading-fit'] = (
    ['spreading', 'fit', '@/s0.xvg', '@/s1.xvg'], [], _fit,
    {'show': True, 'legend': True, 'title': 'Droplet spreading with fit',
     'xlabel': 'Time (ps)', 'ylabel': 'Radius (nm)'},
    [one('lims', ('--lims 0.6 2.2', {'lims': (0.6, 2.2)}),
         ('--lims none 1.7', {'lims': (None, 1.7)})),
     one('out_lims', ('--out_lims 0.4 1.6', {'out_lims': (0.4, 1.6)}),
         ('--out_lims 0.9 none', {'out_lims': (0.9, None)})),
     one('print', ('--print', {'print': True}), ('--noprint', {'print': False})),
     one('loglog', ('--loglog', {'loglog': True})),
     one('legend', ('--legend', {'legend': True}),
         ('--nolegend', {'legend': False})),
     fig('f.png'), xvg('d.xvg'), SHOW, lims('--xlim', 'xlim'),
     lims('--ylim', 'ylim')] + labels('x'))
COMMANDS['interface-collect'] = (
    ['interface', 'collect', '@/m', 'o/if'], [], _icollect,
    dict(OPEN, recenter='zero', cutoff_radius=1., cutoff_bins=1, ext='.dat'),
    [one('recenter', ('--recenter off', {'recenter': None}),
         ('--recenter com', {'recenter': 'com'}),
         ('--recenter zero', {'recenter': 'zero'})), lims('--ylim', 'ylims')]
    + SEARCH + frames('.map'))
COMMANDS['interface-view'] = (
    ['interface', 'view', '@/i'], [], _iview,
    dict(OPEN, average=1, show=True, title='Droplet interface', xlabel='x (nm)',
         ylabel='y (nm)', ext='.xvg'),
    [one('average', ('-av 2', {'average': 2}), ('--average 3', {'average': 3})),
     one('save_fig', ('-o fig', {'save_fig': 'fig'}),
         ('--save_fig o/fig', {'save_fig': 'o/fig'}),
         ('-o fig --extfig .ps', {'save_fig': 'fig', 'extfig': '.ps'})),
     xvg('d'), SHOW, lims('--xlim', 'xlim'), lims('--ylim', 'ylim')]
    + labels('x') + frames('.ifc'))
for _v, _y in (('area', 'A (nm^2)'), ('length', 'L (nm)')):
    COMMANDS['interface-sample-' + _v] = (
        ['interface', 'sample', '@/i', _v], [], _isample(_v),
        dict(OPEN, show=True, title='Droplet interface', xlabel='t (ps)',
             ylabel=_y, ext='.xvg'),
        [one('save_fig', ('-o f.png', {'save_fig': 'f.png'})), xvg('d.xvg'),
         one('delta_t', ('-dt 2.5', {'delta_t': 2.5}),
             ('--delta_t 0.5', {'delta_t': 0.5})), SHOW,
         lims('--xlim', 'xlim'), lims('--ylim', 'ylim')]
        + labels('x') + frames('.ifc'))
COMMANDS['interface-angle'] = (
    ['interface', 'angle', '@/i'], [], _angle,
    dict(OPEN, show=False, title='Contact angles', xlabel='t (ps)',
         ylabel='angle (deg.)', ext='.xvg'),
    [one('fit', ('--fit', {'fit': True}), ('--nofit', {'fit': False})),
     one('height', ('-h 0.25', {'height': 0.25}), ('--height 0.5', {'height': 0.5}),
         ('--height none', {'height': None})),
     one('save_fig', ('-o f.png', {'save_fig': 'f.png'})), xvg('d.xvg'),
     one('delta_t', ('-dt 2.5', {'delta_t': 2.5}),
         ('--delta_t 0.5', {'delta_t': 0.5})), SHOW,
     lims('--xlim', 'xlim'), lims('--ylim', 'ylim')] + labels('x')
    + frames('.ifc'))
COMMANDS['contact-line-collect'] = (
    ['contact_line', 'collect', '@/m', 'o/cl'], [], _lcollect,
    dict(OPEN, recenter=True, extract_area=(1., 1.), cutoff_radius=1.,
         cutoff_bins=1, ext='.dat'),
    LINE + [AREA, one('fuse', ('--fuse', {'fuse': True}),
                      ('--nofuse', {'fuse': False}))] + SEARCH + frames('.map'))
COMMANDS['contact-line-sample'] = (
    ['contact_line', 'sample', '@/m', 'M', 'U', '-ea', '1', '0.5'], [], _lsample,
    dict(OPEN, recenter=True, extract_area=(1., 0.5), cutoff_radius=1.,
         cutoff_bins=1, ext='.dat', dt=1.),
    LINE + [one('save', ('--save s.xvg', {'save': 's.xvg'})), DELTA_T,
            one('process', ('--process sum', {'sum': True}),
                ('--process mean', {'sum': False})), AREA]
    + SEARCH + frames('.map'))
COMMANDS['sample'] = (
    ['sample', '@/m', 'M', 'V'], [], _sample,
    dict(OPEN, output='sample.xvg', dt=1., sum=False, ext='.dat', slip_floor=0.),
    [one('output', ('-o r.xvg', {'output': 'r.xvg'}),
         ('--output o/r.xvg', {'output': 'o/r.xvg'})), DELTA_T,
     one('process', ('--process sum', {'sum': True}),
         ('--process mean', {'sum': False})),
     one('cutoff', ('-co 1.5', {'cutoff': 1.5})),
     one('cutoff_label', ('-cl M', {'cutoff_label': 'M'}),
         ('--cutoff_label V', {'cutoff_label': 'V'})),
     one('floor', ('-fl 0.5', {'slip_floor': 0.5})),
     one('show', ('--show', {'verbose': True}), ('--noshow', {'verbose': False})),
     lims('--xlim', 'xlim'), lims('--ylim', 'ylim')] + frames('.map'))
COMMANDS['sample-slip'] = (
    ['sample', '@/m', 'slip_length', 'flow_angle', '-cl', 'M', '-co', '1'], [],
    lambda inp, kw: __import__('strata.sample_average', fromlist=['x'])
    .sample_average_files(inp + '/m', ('slip_length', 'flow_angle'), **kw),
    dict(OPEN, output='sample.xvg', dt=1., sum=False, ext='.dat', slip_floor=0.,
         cutoff=1., cutoff_label='M'),
    [one('floor', ('-fl 0.5', {'slip_floor': 0.5}),
         ('--floor -1', {'slip_floor': -1.})), lims('--ylim', 'ylim')]
    + frames('.map'))
COMMANDS['view-contour'] = (
    ['view', 'contour', '@/m00001.dat', '@/m00002.dat', '-o', 'f.png'], [],
    _map('contour'),
    {'save_fig': 'f.png', 'label': 'M', 'num_contours': 10, 'show': True,
     'noaxis': False, 'title': 'Droplet contours', 'xlabel': 'x (nm)',
     'ylabel': 'y (nm)', 'colormap': 'viridis', 'vlim': (None, None)},
    [one('label', ('-l T', {'label': 'T'}), ('--label flow', {'label': 'flow'})),
     one('num', ('-n 3', {'num_contours': 3})),
     one('levels', (['-lv', '1 2.5'], {'contour_levels': [1., 2.5]})),
     one('colours', (['-c', 'r b'], {'contour_colours': ['r', 'b']})),
     one('filled', ('--filled', {'filled': True})),
     one('noaxis', ('--noaxis true', {'noaxis': True}))] + MAP + labels('x'))
COMMANDS['view-height'] = (
    ['view', 'height', '@/m00001.dat', '@/m00002.dat', '-o', 'f.png', '--dpi',
     '40'], [], _map('height'),
    {'save_fig': 'f.png', 'dpi': 40, 'label': 'M', 'show': True, 'noaxis': False,
     'title': 'Droplet height map', 'xlabel': 'x (nm)', 'ylabel': 'y (nm)',
     'colormap': 'viridis', 'vlim': (None, None), 'clim': (None, None),
     'colorbar': True, 'cutoff_label': None},
    [one('label', ('-l N', {'label': 'N'}), ('--label flow', {'label': 'flow'}),
         ('-l visc_diss', {'label': 'visc_diss'}),
         ('-l evaporation', {'label': 'evaporation'})),
     one('clim', ('--clim 1.5 2.5', {'clim': (1.5, 2.5)}),
         ('--clim none 2', {'clim': (None, 2.)})),
     one('cutoff_label', ('-cl M', {'cutoff_label': 'M'}),
         ('--cutoff_label T', {'cutoff_label': 'T'}),
         ('-cl flow', {'cutoff_label': 'flow'}),
         ('-cl None', {'cutoff_label': 'None'})),
     one('cutoff', ('-co 1.5', {'cutoff': 1.5})),
     one('drawaxes', ('--drawaxes', {'noaxis': False}),
         ('--nodrawaxes', {'noaxis': True}))] + MAP + labels('x'))
COMMANDS['view-flow'] = (
    ['view', 'flow', '@/m00001.dat', '@/m00002.dat', '-o', 'f.png', '--dpi', '40'],
    [], _flow,
    {'save_fig': 'f.png', 'dpi': 40, 'show': True, 'noaxis': False,
     'title': 'Droplet height map', 'xlabel': 'x (nm)', 'ylabel': 'y (nm)',
     'colormap': 'viridis', 'vlim': (None, None), 'colour': 'T', 'scale': 1.,
     'width': 0.0015, 'pivot': 'middle'},
    [one('cutoff', ('-co 1.5', {'cutoff': 1.5})),
     one('colour', ('-cl flow', {'colour': 'flow'}),
         ('--colour_label visc', {'colour': 'visc'}),
         ('-cl radial', {'colour': 'radial'}),
         ('-cl None', {'colour': 'None'}),
         ('-cl evaporation', {'colour': 'evaporation'}), ('-cl M', {'colour': 'M'})),
     one('scale', ('--scale 40', {'scale': 40.})),
     one('width', ('--width 0.01', {'width': 0.01})),
     one('pivot', ('--pivot tip', {'pivot': 'tip'}),
         ('--pivot tail', {'pivot': 'tail'})),
     one('streamlines', ('--streamlines', {'streamlines': True}),
         ('--nostreamlines', {'streamlines': False})),
     one('noaxis', ('--noaxis true', {'noaxis': True}))] + MAP + labels('x'))



def zlims(flag, key):
    return (key, [([flag, '0', 'none'], {key: (0., None)}),
                  ([flag, 'none', '0'], {key: (None, 0.)})])


# Zero is not the same as nothing given: every option which takes a number, on
# inputs where positions, times and values lie on both sides of zero
ZEROS = {
    'average-2': (['--recenter', 'left'], {'recenter': 'left'}, [
        one('floor', ('--floor 0', {'floor': 0.})), zlims('--xlim', 'xlim'),
        zlims('--ylim', 'ylim')]),
    'spreading-collect': ([], {'floor': 0.}, [
        one('dt', ('-dt 0', {'dt': 0.})), one('cutoff', ('-co 0', {'cutoff': 0.}))]),
    'spreading-view': ([], {}, [
        one('sync', ('-rs 0', {'sync_radius': 0.})), xvg('d.xvg'),
        zlims('--xlim', 'xlim'), zlims('--ylim', 'ylim')]),
    'spreading-fit': (['-x', 'd.xvg'], {'save_xvg': 'd.xvg'}, [
        one('lims', ('--lims 0 none', {'lims': (0., None)})),
        one('out_lims', ('--out_lims 0 none', {'out_lims': (0., None)}),
            ('--out_lims none 0', {'out_lims': (None, 0.)}))]),
    'interface-collect': ([], {}, [
        zlims('--ylim', 'ylims'), one('cutoff', ('-co 0', {'cutoff': 0.}))]),
    'interface-view': ([], {}, [
        fig('fig'), zlims('--xlim', 'xlim'), zlims('--ylim', 'ylim')]),
    'interface-sample-area': (['-x', 'd.xvg'], {'save_xvg': 'd.xvg'}, [
        one('delta_t', ('-dt 0', {'delta_t': 0.}))]),
    'interface-angle': (['-x', 'd.xvg', '--fit'], {'save_xvg': 'd.xvg', 'fit': True}, [
        one('delta_t', ('-dt 0', {'delta_t': 0.})),
        one('height', ('-h 0', {'height': 0.}))]),
    'contact-line-collect': ([], {}, [
        one('floor', ('--floor 0', {'floor': 0.})),
        one('cutoff', ('-co 0', {'cutoff': 0.}))]),
    'contact-line-sample': (['--save', 's.xvg'], {'save': 's.xvg'}, [
        one('floor', ('--floor 0', {'floor': 0.})),
        one('dt', ('-dt 0', {'dt': 0.}))]),
    'sample': ([], {}, [
        one('dt', ('-dt 0', {'dt': 0.})), zlims('--xlim', 'xlim'),
        zlims('--ylim', 'ylim'),
        one('cutoff', ('-co 0 -cl V', {'cutoff': 0., 'cutoff_label': 'V'}))]),
    'view-contour': ([], {}, [
        zlims('--vlim', 'vlim'), zlims('--xlim', 'xlim'),
        one('label', ('-l V', {'label': 'V'})),
        one('levels', (['-lv', '0 1'], {'contour_levels': [0., 1.]}))]),
    'view-height': ([], {}, [
        one('label', ('-l V', {'label': 'V'})), zlims('--clim', 'clim'),
        zlims('--vlim', 'vlim'), zlims('--ylim', 'ylim'),
        one('cutoff', ('-co 0 -cl V', {'cutoff': 0., 'cutoff_label': 'V'}))]),
    'view-flow': ([], {}, [
        one('colour', ('-cl V', {'colour': 'V'})), zlims('--vlim', 'vlim'),
        zlims('--xlim', 'xlim'), zlims('--ylim', 'ylim'),
        one('cutoff', ('-co 0', {'cutoff': 0.}))]),
}
for _n, (_words, _kw, _opts) in ZEROS.items():
    _before, _after, _call, _defaults, _ = COMMANDS[_n]
    if _n == 'spreading-collect':
        _before = _before[:-1] + ['0']
    COMMANDS[_n + '/zero'] = (_before + _words, _after, _call,
                              dict(_defaults, **_kw), _opts)

DRAWING = [c for c in COMMANDS if c.startswith('view-')]
# what an option given to a map says nothing about without another one
NEEDS = {'cbarlabel': '--colourbar', 'cbarticks': '--colourbar',
         'cbarticklabels': '--colourbar'}


def combos(name, depth):
    """Combinations of options as lists of (option, alternative)."""
    opts = COMMANDS[name][4]
    for n in range(depth + 1):
        for chosen in itertools.combinations(range(len(opts)), n):
            for alts in itertools.product(*[range(len(opts[o][1]))
                                            for o in chosen]):
                yield list(zip(chosen, alts))


def depth_of(name, quick):
    if name in DRAWING:
        return 1 if quick else 2
    return 2 if quick else 3


def cases(tier):
    quick = tier == 'quick'
    yield {'kind': 'help'}
    for name in sorted(COMMANDS):
        depth = depth_of(name, quick)
        n = sum(1 for _ in combos(name, depth))
        size = 8 if name in DRAWING else 40
        if name.startswith(('interface-view', 'interface-sample', 'spreading-view',
                            'spreading-fit', 'interface-angle')):
            size = 12
        for lo in range(0, n, size):
            yield {'kind': 'run', 'command': name, 'depth': depth, 'lo': lo,
                   'hi': min(n, lo + size)}


def make_series(folder, around=False):
    """All inputs; `around` zero, if asked for."""
    from checks.common import gmx_bytes
    os.makedirs(folder)
    if around:
        return make_around(folder)
    for i in FRAMES:
        for ext, k in (('dat', i), ('map', 7 - i)):
            with open('%s/m%05d.%s' % (folder, i, ext), 'wb') as fp:
                fp.write(gmx_bytes(droplet(k)))
        for ext, k in (('xvg', i), ('ifc', 7 - i)):
            with open('%s/i%05d.%s' % (folder, i, ext), 'w') as fp:
                fp.write(outline_text(k))
        with open('%s/s%d.xvg' % (folder, i), 'w') as fp:
            fp.write(curve_text(1. + 0.5 * i))


def make_around(folder):
    from checks.common import gmx_bytes
    for i in FRAMES:
        with open('%s/m%05d.dat' % (folder, i), 'wb') as fp:
            fp.write(gmx_bytes(droplet(i, (-2., -0.5))))
        with open('%s/i%05d.xvg' % (folder, i), 'w') as fp:
            fp.write(outline_text(i))
        with open('%s/s%d.xvg' % (folder, i), 'w') as fp:
            fp.write('\n'.join('%f %f' % (0.5 * k - 0.75, (i + 1.) * (k + 0.25))
                               for k in range(6)) + '\n')


def tree(folder):
    out = {}
    for base, _, files in os.walk(folder):
        for name in files:
            path = os.path.join(base, name)
            with open(path, 'rb') as fp:
                raw = fp.read()
            if name.endswith('.ps'):
                raw = b''
            out[os.path.relpath(path, folder)] = \
                raw if name.endswith('.png') else normal(raw)
    return out


NUMBER = re.compile(r'(?<![\w.])[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)(?![\w.])')


def numbers(text):
    return [float(v) for v in NUMBER.findall(text)]


def near(a, b):
    return len(a) == len(b) and all(
        (math.isnan(x) and math.isnan(y)) or abs(x - y) <= 2e-3 + 1e-4 * abs(y)
        for x, y in zip(a, b))


class Canvas(object):
    """Counts the windows shown and leaves no figures behind."""

    def __enter__(self):
        import matplotlib
        import matplotlib.pyplot as plt
        plt.close('all')
        matplotlib.rcParams['image.cmap'] = 'viridis'
        self.shown = 0
        self._old = plt.show, plt.tight_layout

        def show(*a, **k):
            self.shown += 1
        plt.show = show
        plt.tight_layout = lambda *a, **k: None     # slow
        return self

    def __exit__(self, *exc):
        import matplotlib.pyplot as plt
        plt.show, plt.tight_layout = self._old
        plt.close('all')
        return False


def arguments(name, chosen, inp):
    before, after, _, defaults, opts = COMMANDS[name]
    argv, kw = [w.replace('@', inp) for w in before], dict(defaults)
    for o, a in chosen:
        key, alts = opts[o]
        argv += alts[a][0]
        if key in NEEDS and not any(opts[q][0] == 'colorbar' for q, _ in chosen):
            argv.append(NEEDS[key])
            kw['colorbar'] = True
        kw.update(alts[a][1])
    if any(opts[o][0] == 'nooutput' for o, _ in chosen):
        kw['save'] = None
    return argv + [w.replace('@', inp) for w in after], kw


def run(ctx, case):
    warnings.simplefilter('ignore')
    if case['kind'] == 'help':
        return run_help(ctx)
    from click.testing import CliRunner
    name = case['command']
    top = ctx.tmpdir()
    inp = os.path.join(top, 'in')
    make_series(inp, name.endswith('/zero'))
    before = tree(inp)
    every = list(combos(name, case['depth']))[case['lo']:case['hi']]
    cwd = os.getcwd()
    for n, chosen in enumerate(every):
        argv, kw = arguments(name, chosen, inp)
        shown = ' '.join(repr(w) if ' ' in w else w for w in argv).replace(inp, '@')
        ctx.state(name, tuple(chosen))
        trees, windows = [], []
        try:
            folder = os.path.join(top, 'c%d' % n)
            os.makedirs(folder + '/o')
            os.chdir(folder)
            with ctx.guard('the library call for `%s`' % shown), Quiet() as quiet, \
                    Canvas() as canvas:
                want = COMMANDS[name][2](inp, dict(kw))
                if not name.startswith(('spreading-collect', 'spreading-fit')):
                    want = []
                trees.append(tree(folder))
                windows.append(canvas.shown)
            if not trees:
                continue
            want = numbers(quiet.out) + want
            folder = os.path.join(top, 'd%d' % n)
            os.makedirs(folder + '/o')
            os.chdir(folder)
            with Canvas() as canvas:
                import strata.strata
                result = CliRunner().invoke(strata.strata.strata, argv)
                windows.append(canvas.shown)
            trees.append(tree(folder))
        finally:
            os.chdir(cwd)
        ctx.step(2)
        ctx.trace()
        if not ctx.check(result.exit_code == 0, lambda: '`strata %s` exits with %r: '
                         '%r %s' % (shown, result.exit_code, result.exception,
                                    result.output[-300:])):
            continue
        ctx.check(sorted(trees[0]) == sorted(trees[1]), lambda: '`strata %s` leaves '
                  'the files %s, the library call %s' % (
                      shown, sorted(trees[1]), sorted(trees[0])))
        for path in sorted(set(trees[0]) & set(trees[1])):
            ctx.check(trees[0][path] == trees[1][path], lambda: '`strata %s` leaves '
                      'another %s than the library call' % (shown, path))
        ctx.check(windows[0] == windows[1], lambda: '`strata %s` shows %d figures, '
                  'the library call %d' % (shown, windows[1], windows[0]))
        got = numbers(result.stdout)
        ctx.check(near(got, want), lambda: '`strata %s` prints the numbers %s, not '
                  '%s' % (shown, got, want))
        ctx.sample(command=shown, files=sorted(trees[1]))
        if trees[0]:
            ctx.nontrivial += 1
    ctx.check(tree(inp) == before, 'the inputs of %s were changed' % name)


def run_help(ctx):
    """Every command can be found, with help on all of its options."""
    from click.testing import CliRunner
    import strata.strata
    seen = set()
    for name in sorted(COMMANDS):
        words = []
        if name.endswith('/zero'):
            continue
        for w in COMMANDS[name][0]:
            if '@' in w:
                break
            words.append(w)
        if tuple(words) in seen:
            continue
        seen.add(tuple(words))
        for path in (words[:1], words):
            result = CliRunner().invoke(strata.strata.strata, path + ['--help'])
            ctx.state('help', tuple(path))
            ctx.step()
            ctx.check(result.exit_code == 0, lambda: '`strata %s --help` exits with '
                      '%r: %r' % (' '.join(path), result.exit_code,
                                  result.exception))
    for word in ('--version', '-V', '--help', '-h'):
        result = CliRunner().invoke(strata.strata.strata, [word])
        ctx.check(result.exit_code == 0, lambda: '`strata %s` exits with %r' % (
            word, result.exit_code))
        ctx.step()
    ctx.trace()
