"""P26: failing file operations, dying processes and unreadable frames."""

import json
import os
import subprocess
import sys
import warnings

from checks.common import snapshot
from checks.faults import Scene
from checks.p02 import put
from checks.tools import SERIES, SINGLE

PROPERTY = 'P26'
LEVEL = 'fault_enumeration'
TECHNIQUE = ('exhaustive fault injection into the real code: every file '
             'operation of a run (numbered by a preloaded library) fails, is '
             'half done or is the last one of the process, in turn, and every '
             'frame of a series is damaged in turn; the directory left behind '
             'and the one after running again are checked')
NOTE = ('exhaustive over all open, read, write, close, rename, mkdir and remove '
        'operations of 18 tools x 6 kinds of failure from up to 4 initial '
        'directories (3 frames); thorough adds failures of the second run')
RULE = ('a case is one tool with one initial directory and kind of failure over '
        'all of its operations, or one tool with all damages of all frames')
ASSUMPTIONS = ['finding out whether a file exists does not itself fail',
               'data handed to the operating system survives the death of the '
               'process (no power loss)']
CHUNK = 1

# those which take longest first
TOOLS = sorted(list(SINGLE) + list(SERIES), key=lambda t: (
    t != 'map', not t.startswith(('contact-line', 'average-o', 'interface')), t))
LONG = ('map-simple', 'convert-simple')   # one operation per value


def cases(tier):
    thorough = tier == 'thorough'
    for tool in TOOLS:
        yield {'kind': 'damaged', 'tool': tool}
    for tool in TOOLS:
        for init in (0, 1, 2, 3) if thorough else (0, 1, 2):
            if tool in LONG and not thorough and init != 1:
                continue
            modes = (0, 1, 2, 3, 4, 5)
            if not thorough:
                modes = (0, 3) if init != 1 else modes
                modes = (0, 3, 5) if tool in LONG else modes
            for part in ([m] for m in modes) if tool in LONG else (
                    modes[:3], modes[3:]) if thorough else (modes,):
                yield {'kind': 'fault', 'tool': tool, 'init': init,
                       'modes': list(part), 'frames': 2 if tool in LONG else 3}
        if thorough and tool not in LONG:
            for mode, second in ((0, 0), (0, 3), (3, 0), (4, 1)):
                yield {'kind': 'fault', 'tool': tool, 'init': 1,
                       'modes': [mode], 'second': [second],
                       'frames': 1 if mode in (3, 4) or second == 3 else 2}


def build(folder):
    lib = os.path.join(folder, 'shim.so')
    source = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'shim.c')
    subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', lib, source,
                    '-ldl'], check=True)
    return lib


def run(ctx, case):
    warnings.simplefilter('ignore')
    if case['kind'] == 'damaged':
        return run_damaged(ctx, case)
    from mc.core import HarnessError
    base = ctx.tmpdir()
    try:
        lib = build(base)
    except (OSError, subprocess.CalledProcessError) as err:
        raise HarnessError('can not build the shim: %r' % err)
    os.makedirs(base + '/s')
    args = dict(case, scratch=base + '/s')
    args.pop('kind')
    env = dict(os.environ, LD_PRELOAD=lib)
    done = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'checks.faults',
                           json.dumps(args)], env=env, stdout=subprocess.PIPE,
                          stderr=subprocess.PIPE, timeout=85)
    try:
        result = json.loads(done.stdout.decode().strip().split('\n')[-1])
    except ValueError:
        raise HarnessError('fault run failed (%d): %s' % (
            done.returncode, done.stderr.decode()[-1500:]))
    for what in result['fails']:
        ctx.fail(what)
    ctx.step(result['ops'])
    ctx.trace(result['runs'])
    ctx.nontrivial += result['hits']
    for k in range(result['hits']):
        ctx.state(case['tool'], case['init'], case['modes'], k,
                  case.get('second'))
    if not result['hits'] and not result['fails'] and \
            set(case['modes']) & {0, 1, 3}:
        raise HarnessError('no operation was made to fail: %s' % case)
    ctx.sample(tool=case['tool'], operations=result['ops'],
               failing=result['kinds'])


def damages(raw, is_map):
    out = [('empty', b''), ('garbage', b'\x07nothing of the kind\n' * 20),
           ('folder', None)]
    if is_map:
        # cut within the header, at its end, and within the values
        end = raw.index(b'\0')
        out += [('cut at %d' % n, raw[:n]) for n in (
            1, end // 2, end - 1, end, end + 1, end + 9, (end + len(raw)) // 2,
            len(raw) - 1)]
    else:
        out += [('cut to its comments', b'# outline\n'),
                ('cut within a number pair', raw[:raw.rindex(b' ')])]
    return out


def run_damaged(ctx, case):
    tool = case['tool']
    if tool in ('map', 'map-simple', 'map-plain', 'spreading-view',
                'spreading-fit'):
        return          # do not read a series
    kind = SERIES[tool][2] if tool in SERIES else (
        'i%05d.xvg' if tool.startswith('interface') else 'm%05d.dat')
    for init in (0, 1, 2):
        base = ctx.tmpdir()
        scene = Scene(base, tool, init, 3)
        if not ctx.check(all(c is not None for c in scene.new),
                         '%s does not write its outputs' % tool):
            return
        for frame in range(3):
            name = kind % (1 + frame)
            path = os.path.join(scene.inp, name)
            raw = scene.inputs[name]
            for label, content in damages(raw, kind.startswith('m')):
                what = '%s (init %d): frame %d %s' % (tool, init, frame, label)
                ctx.state(tool, init, frame, label)
                ctx.step()
                os.unlink(path)
                if content is None:
                    os.mkdir(path)
                else:
                    with open(path, 'wb') as fp:
                        fp.write(content)
                scene.inputs = snapshot(scene.inp)
                put(scene.work, scene.before)
                scene.run()
                finished = range(frame) if tool in SERIES else ()
                fails = scene.judge(finished, what)
                if content is None:
                    os.rmdir(path)
                with open(path, 'wb') as fp:
                    fp.write(raw)
                scene.inputs = snapshot(scene.inp)
                fails += scene.again(what)
                for f in fails:
                    ctx.fail(f)
                if not fails:
                    ctx.trace()
                ctx.nontrivial += 1
    ctx.sample(tool=tool)
