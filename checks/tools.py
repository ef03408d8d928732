"""All tools which write data files, run the same way by several checks.

Every tool reads from a folder made by `make_inputs` and writes either one
file (`single`) or numbered files at a base path (`series`).
"""

import os

import numpy as np

from checks.common import FIELDS, Grid, Quiet, gmx_bytes, plain_bytes, simple_bytes

NX, NY = 8, 4
SPANS = (((2, 5), (3, 5), (3, 4), None), ((2, 5), (2, 5), (3, 4), (3, 3)),
         ((1, 6), (2, 5), (2, 5), None), ((1, 6), (1, 6), (3, 5), (4, 4)))


def droplet(frame, corner=(-1., 0.5), spacing=(0.5, 0.25)):
    """Map of a droplet; every bin and frame with its own values."""
    grid = Grid(NX, NY, corner, spacing)
    spans = SPANS[frame % len(SPANS)]
    for j in range(NY):
        for i in range(NX):
            if spans[j] is None or not spans[j][0] <= i <= spans[j][1]:
                continue
            k = i * NY + j
            for l, v in zip(FIELDS, (1. + k % 3, 300. + 2. * k + frame,
                                     2. + 0.25 * (k % 5) + frame % 4,
                                     0.5 * (k - 9) + frame, 1. - 0.25 * k)):
                grid.values[l][i, j] = v
    return grid


def outline_text(frame, layers=4):
    """Outline of a droplet: left side upwards, then right side downwards."""
    rows = ['# outline %d' % frame]
    left = [(-2. - 0.25 * frame + 0.5 * j, 0.25 * j) for j in range(layers)]
    right = [(2.5 + 0.5 * frame - 0.25 * j, 0.25 * j) for j in range(layers)]
    return '\n'.join(rows + ['%f %f' % c for c in left + right[::-1]]) + '\n'


def curve_text(scale, points=6):
    out = ['# spreading']
    out += ['%f %f' % (0.5 * i, scale * (1. + 0.5 * i)) for i in range(points)]
    return '\n'.join(out) + '\n'


def make_inputs(folder, frames=3, begin=1, fmt='gmx'):
    encode = {'gmx': gmx_bytes, 'simple': simple_bytes, 'plain': plain_bytes}
    os.makedirs(folder, exist_ok=True)
    for i in range(frames):
        with open('%s/m%05d.dat' % (folder, begin + i), 'wb') as fp:
            fp.write(encode[fmt](droplet(i)))
        with open('%s/i%05d.xvg' % (folder, begin + i), 'w') as fp:
            fp.write(outline_text(i))
        with open('%s/s%d.xvg' % (folder, i), 'w') as fp:
            fp.write(curve_text(1. + 0.5 * i))


def _write(ftype):
    def run(inp, out, frame=0):
        from strata.dataformats.write import write
        grid = droplet(frame)
        write(out, grid.data(), grid.info(), ftype=ftype)
    return run


def _convert(ftype):
    def run(inp, out, **kw):
        from strata.convert import convert
        convert(inp + '/m', out, ftype=ftype, quiet=True, **kw)
    return run


def _average(**opts):
    def run(inp, out, **kw):
        from strata.average import average
        average(inp + '/m', out, quiet=True, **dict(opts, **kw))
    return run


def _spread(inp, out, **kw):
    from strata.spreading.collect import collect
    collect(inp + '/m', save=out, quiet=True, dt=2., **kw)


def _spread_view(inp, out, **kw):
    from strata.spreading.view import view_spreading
    view_spreading([inp + '/s0.xvg', inp + '/s1.xvg'], save_xvg=out, show=False,
                   tau=2., **kw)


def _spread_fit(inp, out, **kw):
    from strata.spreading.fit import fit_spreading_data
    fit_spreading_data([inp + '/s0.xvg', inp + '/s1.xvg'], save_xvg=out,
                       show=False, lims=(0.25, 2.75), **kw)


def _interfaces(inp, out, **kw):
    from strata.interface.collect import collect_interfaces
    collect_interfaces(inp + '/m', out, quiet=True, cutoff_radius=1.,
                       cutoff_bins=1, **kw)


def _interface_view(inp, out, **kw):
    from strata.interface.view import view_interfaces
    import matplotlib.pyplot as plt
    plt.tight_layout = lambda *a, **k: None      # slow, and nothing is drawn
    try:
        view_interfaces(inp + '/i', save_xvg=out, show=False, quiet=True, **kw)
    finally:
        plt.close('all')


def _interface_sample(inp, out, **kw):
    from strata.interface.sample import sample_interfaces
    import matplotlib.pyplot as plt
    plt.tight_layout = lambda *a, **k: None      # slow, and nothing is drawn
    try:
        sample_interfaces(inp + '/i', 'area', save_xvg=out, delta_t=2.,
                          show=False, quiet=True, **kw)
    finally:
        plt.close('all')


def _interface_angle(inp, out, **kw):
    from strata.interface.angle import interface_contact_angle
    interface_contact_angle(inp + '/i', fit=True, height=0.5, save_xvg=out,
                            show=False, quiet=True, **kw)


LINE = {'extract_area': (1., 0.5), 'cutoff': 1., 'cutoff_radius': 1.,
        'cutoff_bins': 1}


def _line_collect(inp, out, **kw):
    from strata.contact_line_analysis import extract_contact_line_bins
    extract_contact_line_bins(inp + '/m', out, quiet=True, **dict(LINE, **kw))


def _line_sample(inp, out, **kw):
    from strata.contact_line_analysis import sample_contact_line_edges
    sample_contact_line_edges(inp + '/m', ['M', 'U'], save=out, quiet=True,
                              dt=2., **dict(LINE, **kw))


def _sample(inp, out, **kw):
    from strata.sample_average import sample_average_files
    sample_average_files(inp + '/m', ['M', 'U', 'inertial_energy'], output=out,
                         dt=2., verbose=False, quiet=True, **kw)


SINGLE = {
    'map': _write('gmx'), 'map-simple': _write('simple'),
    'map-plain': _write('simple_plain'), 'spreading-collect': _spread,
    'spreading-view': _spread_view, 'spreading-fit': _spread_fit,
    'interface-sample': _interface_sample, 'interface-angle': _interface_angle,
    'contact-line-sample': _line_sample, 'sample': _sample,
}
# tool: (function, extension of its output, inputs per output)
SERIES = {
    'convert-gmx': (_convert('gmx'), '.dat', 'm%05d.dat'),
    'convert-simple': (_convert('simple'), '.dat', 'm%05d.dat'),
    'convert-plain': (_convert('simple_plain'), '.dat', 'm%05d.dat'),
    'average': (_average(), '.dat', 'm%05d.dat'),
    'average-options': (_average(recenter='com', xlim=(-0.75, 2.75),
                                 combine=(2, 2), supersample=2), '.dat',
                        'm%05d.dat'),
    'interface-collect': (_interfaces, '.xvg', 'm%05d.dat'),
    'interface-view': (_interface_view, '.xvg', 'i%05d.xvg'),
    'contact-line-collect': (_line_collect, '.dat', 'm%05d.dat'),
}


def run_tool(name, inp, out, **kw):
    """Run a tool; `out` is a path, or a base path for the series tools."""
    func = SINGLE[name] if name in SINGLE else SERIES[name][0]
    with Quiet() as quiet:
        func(inp, out, **kw)
    return quiet


def outputs_of(name, out, frames, begin=1):
    """Paths which the tool writes, in order."""
    if name in SINGLE:
        return [out]
    return ['%s%05d%s' % (out, begin + i, SERIES[name][1]) for i in range(frames)]


def normal(raw):
    """Content without the date, version and place of writing it."""
    return b'\n'.join(l for l in raw.split(b'\n') if not l.startswith((
        b'# Creation date', b'# Working directory', b'# Using module version')))
