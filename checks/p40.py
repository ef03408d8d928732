"""P40: open files of long series."""

import gc
import os
import resource
import signal
import warnings

import numpy as np

from checks.common import Quiet, snapshot
from checks.tools import SERIES, SINGLE, make_inputs, normal, run_tool

PROPERTY = 'P40'
LEVEL = 'model_checking'
TECHNIQUE = ('enumeration of tools, formats and lengths of series, each run by the real '
             'code in processes which may open few files and in others without a limit; '
             'files, exits and what is still open afterwards are compared')
NOTE = ('15 tools, three formats, nine lengths of series up to 24 (quick) or all up to '
        '60, 150 and 300, with at most 12 more files open at a time')
RULE = 'a case is one tool with one format and a block of lengths'
ASSUMPTIONS = ['twelve files at a time are few']
CHUNK = 1

MORE = 12
# tools which read maps, and others
MAPS = ('spreading-collect', 'contact-line-sample', 'sample', 'convert-gmx',
        'convert-simple', 'convert-plain', 'average', 'average-options',
        'interface-collect', 'contact-line-collect')
OTHER = ('spreading-view', 'spreading-fit', 'interface-sample', 'interface-angle',
         'interface-view')
OPTIONS = {'average': ({}, {'group': 2}, {'group': 3, 'rolling': True}),
           'contact-line-sample': ({}, {'average': 2}, {'average': 2, 'rolling': True}),
           'interface-view': ({}, {'average': 2})}


def cases(tier):
    deep = tier != 'quick'
    for tool in MAPS + OTHER:
        for fmt in ('gmx', 'simple', 'plain') if tool in MAPS else ('gmx',):
            if not deep and fmt != 'gmx' and tool in ('average-options', 'contact-line-sample'):
                continue
            for k, opts in enumerate(OPTIONS.get(tool, ({},))):
                lengths = list(range(1, 61)) if deep else [1, 2, 3, 5, 8, 13, 16, 20, 24]
                for lo in range(0, len(lengths), 20):
                    yield {'tool': tool, 'format': fmt, 'options': opts,
                           'lengths': lengths[lo:lo + 20]}
                if deep:
                    yield {'tool': tool, 'format': fmt, 'options': opts,
                           'lengths': [150, 300]}


def opened():
    """Descriptors of this process."""
    out = {}
    for name in os.listdir('/proc/self/fd'):
        try:
            out[int(name)] = os.readlink('/proc/self/fd/' + name)
        except OSError:
            pass
    return out


CURVES = ('spreading-view', 'spreading-fit')


def curves(tool, inp, out):
    """View or fit all curves of a folder."""
    from strata.spreading.fit import fit_spreading_data
    from strata.spreading.view import view_spreading
    files = ['%s/%s' % (inp, f) for f in sorted(os.listdir(inp)) if f.startswith('s')]
    if tool == 'spreading-view':
        view_spreading(files, save_xvg=out, show=False, tau=2.)
    else:
        fit_spreading_data(files, save_xvg=out, show=False, lims=(0.25, 2.75))


def child(tool, inp, out, opts, limited):
    """Run in a new process: (exit code, files left open)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            signal.alarm(0)
            os.close(r)
            gc.collect()
            before = opened()
            if limited:
                top = max(before) + 1 + MORE
                resource.setrlimit(resource.RLIMIT_NOFILE, (top, top))
            code = 0
            try:
                if tool in CURVES:
                    with Quiet():
                        curves(tool, inp, out)
                else:
                    run_tool(tool, inp, out, **opts)
            except BaseException as err:
                os.write(w, repr(err).encode()[:300])
                code = 1
            else:
                gc.collect()
                left = sorted(p for k, p in opened().items()
                              if k not in before and not p.startswith('/proc'))
                if left:
                    os.write(w, ' '.join(left).encode()[:300])
                    code = 2
        finally:
            os._exit(code)
    os.close(w)
    said = b''
    while True:
        raw = os.read(r, 4096)
        if not raw:
            break
        said += raw
    os.close(r)
    _, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status), said.decode()


def run(ctx, case):
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    import matplotlib.pyplot as plt
    plt.tight_layout = lambda *a, **k: None
    import strata.strata  # noqa: everything is loaded before processes start
    tool, opts = case['tool'], case['options']
    for n in case['lengths']:
        ctx.state(tool, case['format'], sorted(opts.items()), n)
        top = ctx.tmpdir()
        make_inputs(top + '/in', n, fmt=case['format'])
        inp = top + '/in'
        got = []
        for limited in (False, True):
            folder = '%s/out%d' % (top, limited)
            out = folder + '/r' + ('' if tool in SERIES else '.xvg')
            code, said = child(tool, inp, out, opts, limited)
            ctx.step()
            what = '%s of %d frames in %s with %s%s' % (
                tool, n, case['format'], opts, ', few open files' if limited else '')
            if not ctx.check(code == 0, '%s: %s' % (
                    what, 'left open: ' + said if code == 2 else 'exit %d: %s' % (code, said))):
                break
            got.append({k: v if v is None else normal(v) for k, v in snapshot(folder).items()}
                       if os.path.isdir(folder) else {})
        if len(got) == 2 and ctx.check(got[0] == got[1], what + ': other results'):
            ctx.trace()
            ctx.nontrivial += 1
        ctx.clean()
    ctx.sample(tool=tool, format=case['format'])
