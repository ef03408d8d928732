#!/usr/bin/env python3
"""Development aid, no check: mutate the tools and see which checks notice.

    mutate.py list                       count the mutants of every function
    mutate.py run OUT.jsonl [--per N] [--files RE] [--jobs N]

Every mutant is one changed expression or dropped statement.  A mutant that
the existing tests reject is skipped; for the others the checks anchored in
the file are run (quick tier) until one reports a violation.  A mutant none
of them reports is either equivalent, outside every property, or a gap.
"""
import argparse, ast, copy, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor, as_completed
import queue

REPO = '/repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
FILES = {
    'strata/utils.py': 'P01 P26 P27 P02',
    'strata/dataformats/read.py': 'P03 P04 P05 P29 P25',
    'strata/dataformats/write.py': 'P03 P04 P05 P02 P25',
    'strata/dataformats/gmx_flow_version_1/read.py': 'P03 P29 P05',
    'strata/dataformats/gmx_flow_version_1/write.py': 'P03 P02 P26 P05',
    'strata/dataformats/simple/read.py': 'P04 P29 P05 P06',
    'strata/dataformats/simple/write.py': 'P04 P02 P26 P05',
    'strata/dataformats/simple/average.py': 'P06 P08 P07',
    'strata/convert.py': 'P05 P26 P25 P02',
    'strata/average.py': 'P07 P25 P06',
    'strata/sample_average.py': 'P21 P25 P02',
    'strata/view_flowmap.py': 'P27 P25',
    'strata/strata.py': 'P25',
    'strata/contact_line_analysis.py': 'P18 P25',
    'strata/interface/angle.py': 'P23 P25 P02',
    'strata/interface/sample.py': 'P23 P25 P02',
    'strata/interface/collect.py': 'P22 P16 P26 P25',
    'strata/interface/view.py': 'P22 P25 P02',
    'strata/spreading/collect.py': 'P14 P15 P26 P25 P02',
    'strata/spreading/fit.py': 'P24 P25 P02',
    'strata/spreading/view.py': 'P24 P25 P02',
    'droplets/interface.py': 'P12 P13 P28 P16 P17 P15',
    'droplets/flow.py': 'P11 P10 P19 P17 P07',
    'droplets/flowfield.py': 'P27',
    'droplets/data_utils.py': 'P11 P19 P17',
    'droplets/average.py': 'P10 P18 P06',
    'droplets/resample.py': 'P09 P08',
    'droplets/sample.py': 'P19 P20 P21',
    'droplets/contact_line.py': 'P17 P18',
}
CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE],
       ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn],
       ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div],
       ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.Add],
       ast.Pow: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd]}
NAMES = {'min': 'max', 'max': 'min', 'floor': 'ceil', 'ceil': 'floor',
         'round': 'int', 'mean': 'sum', 'sum': 'mean', 'argmin': 'argmax',
         'argmax': 'argmin', 'any': 'all', 'all': 'any', 'zeros': 'ones',
         'abs': 'float', 'append': 'extend', 'rint': 'floor', 'X': 'Y',
         'Y': 'X', 'U': 'V', 'V': 'U', 'isnan': 'isfinite',
         'zeros_like': 'ones_like', 'std': 'var', 'dx': 'dy', 'dy': 'dx',
         'nx': 'ny', 'ny': 'nx', 'x': 'y', 'y': 'x', 'left': 'right',
         'right': 'left', 'xlim': 'ylim', 'ylim': 'xlim', 'begin': 'end',
         'end': 'begin', 'xmin': 'xmax', 'xmax': 'xmin', 'ymin': 'ymax',
         'ymax': 'ymin', 'intersect1d': 'union1d', 'nanmean': 'mean',
         'nansum': 'sum', 'arctan2': 'hypot', 'copy': 'view',
         'deepcopy': 'id', 'strip': 'rstrip'}


def sites(tree):
    """(node, description, mutator) for every mutant, in a fixed order."""
    out = []
    for node in ast.walk(tree):
        n = node
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    out.append((n, 'cmp %s' % new.__name__,
                                lambda x, i=i, new=new: x.ops.__setitem__(i, new())))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            for new in BIN.get(type(n.op), []):
                out.append((n, 'bin %s' % new.__name__,
                            lambda x, new=new: setattr(x, 'op', new())))
        elif isinstance(n, ast.BoolOp):
            new = ast.And if isinstance(n.op, ast.Or) else ast.Or
            out.append((n, 'bool', lambda x, new=new: setattr(x, 'op', new())))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            if not isinstance(n.operand, ast.Constant):
                new = ast.UAdd if isinstance(n.op, ast.USub) else None
                if new:
                    out.append((n, 'neg', lambda x: setattr(x, 'op', ast.UAdd())))
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                out.append((n, 'const %r' % (not v), lambda x, v=v: setattr(x, 'value', not v)))
            elif isinstance(v, int):
                out.append((n, 'const %d' % (v + 1), lambda x, v=v: setattr(x, 'value', v + 1)))
                out.append((n, 'const %d' % (v - 1), lambda x, v=v: setattr(x, 'value', v - 1)))
            elif isinstance(v, float):
                out.append((n, 'const %r' % (v * 2 + (v == 0)), lambda x, v=v: setattr(x, 'value', v * 2 + (v == 0))))
            elif isinstance(v, str) and v in NAMES:
                out.append((n, 'str %s' % NAMES[v], lambda x, v=v: setattr(x, 'value', NAMES[v])))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            out.append((n, 'cond not', lambda x: setattr(x, 'test', ast.UnaryOp(ast.Not(), x.test))))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in NAMES:
            out.append((n, 'name %s' % NAMES[n.id], lambda x: setattr(x, 'id', NAMES[x.id])))
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in NAMES:
            out.append((n, 'attr %s' % NAMES[n.attr], lambda x: setattr(x, 'attr', NAMES[x.attr])))
        elif isinstance(n, ast.Break):
            out.append((n, 'break->continue', 'continue'))
        elif isinstance(n, ast.Continue):
            out.append((n, 'continue->pass', 'pass'))
        elif isinstance(n, ast.Expr) and not isinstance(n.value, (ast.Constant, ast.Yield, ast.YieldFrom)):
            out.append((n, 'drop expr', 'pass'))
        elif isinstance(n, ast.AugAssign):
            out.append((n, 'drop augassign', 'pass'))
        if isinstance(n, ast.AugAssign):
            out.append((n, 'drop augassign', 'pass'))
        if isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
            out.append((n, 'drop assign', 'pass'))
        if isinstance(n, ast.Call) and n.keywords and not isinstance(n.func, ast.Attribute) is None:
            for k, kw in enumerate(n.keywords):
                if kw.arg:
                    out.append((n, 'drop kw %s' % kw.arg, lambda x, k=k: x.keywords.__delitem__(k)))
    return out


def functions(tree):
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef,)):
            for child in ast.walk(node):
                child._fn = node.name


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    tree = ast.parse(src)
    functions(tree)
    all_sites = sites(tree)
    seen = set()
    for idx, (node, desc, _) in enumerate(all_sites):
        fn = getattr(node, '_fn', None)
        if fn is None:
            continue
        key = (node.lineno, node.col_offset, node.end_col_offset, desc)
        if key in seen:
            continue
        seen.add(key)
        yield {'file': path, 'idx': idx, 'fn': fn, 'line': node.lineno,
               'col': node.col_offset, 'desc': desc,
               'src': (ast.get_source_segment(src, node) or '').split('\n')[0][:80]}


def apply(path, idx):
    """Source text with mutant idx; only the lines of its statement change."""
    src = open(os.path.join(REPO, path)).read()
    tree = ast.parse(src)
    node, desc, mut = sites(tree)[idx]
    lines = src.split('\n')
    # replace only the text of the node
    if isinstance(mut, str):
        new = mut
    else:
        mut(node)
        new = ast.unparse(node)
        if isinstance(node, ast.expr):
            new = '(' + new + ')' if not isinstance(node, (ast.Constant, ast.Name, ast.Attribute)) else new
    if isinstance(node, (ast.If, ast.While)):
        t = node.test.operand
        a, b, c, d = t.lineno, t.col_offset, t.end_lineno, t.end_col_offset
        new = 'not (%s)' % ast.unparse(t)
    else:
        a, b, c, d = node.lineno, node.col_offset, node.end_lineno, node.end_col_offset
    enc = [l.encode() for l in lines]
    head = enc[a - 1][:b]
    tail = enc[c - 1][d:]
    text = head.decode() + new + tail.decode()
    if not isinstance(node, ast.stmt):
        pass
    return '\n'.join(lines[:a - 1] + [text] + lines[c:])


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
           OMP_NUM_THREADS='1', PYTHONHASHSEED='0')
ENV.setdefault('MPLCONFIGDIR', '/opt/mplconfig')


def baseline_ids():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('passed', 'stable', 'pass'):
        if k in b:
            return set(b[k])
    t = b.get('tests', b)
    return {k for k, v in t.items() if v in ('passed', 'pass', True)}


def tests_ok(work):
    r = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                        '--disable-warnings', '--tb=no',
                        '--basetemp=' + work + '/ptmp'],
                       cwd=work + '/repo', env=ENV, capture_output=True,
                       text=True, timeout=120)
    m = re.search(r'(\d+) passed', r.stdout)
    return m and int(m.group(1)) >= 215


def one(m, work):
    try:
        text = apply(m['file'], m['idx'])
        compile(text, m['file'], 'exec')
    except Exception as err:
        return dict(m, result='invalid')
    dst = os.path.join(work, 'repo', m['file'])
    open(dst, 'w').write(text)
    try:
        try:
            ok = tests_ok(work)
        except subprocess.TimeoutExpired:
            ok = False
        if not ok:
            return dict(m, result='tests')
        for check in FILES[m['file']].split()[:NCHECKS]:
            try:
                r = subprocess.run(['./check', check, '--jobs', '1'], cwd=work + '/verif',
                                   env=dict(ENV, STRATA_REPO=work + '/repo',
                                            MC_MAX_FAILURES='1'),
                                   capture_output=True, text=True, timeout=1500)
            except subprocess.TimeoutExpired:
                return dict(m, result='timeout ' + check)
            if r.returncode == 1:
                return dict(m, result='caught', by=check)
            if r.returncode != 0:
                return dict(m, result='harness error', by=check, out=r.stdout[-800:] + r.stderr[-500:])
        return dict(m, result='SURVIVED')
    finally:
        shutil.copy(os.path.join(REPO, m['file']), dst)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('out', nargs='?')
    ap.add_argument('--per', type=int, default=10 ** 6)
    ap.add_argument('--files', default='.')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--work', default='/tmp/w/mutate')
    ap.add_argument('--seed', type=int, default=0)
    ap.add_argument('--checks', type=int, default=99)
    args = ap.parse_args()
    global NCHECKS
    NCHECKS = args.checks
    todo = []
    rnd = random.Random(args.seed)
    for path in FILES:
        if not re.search(args.files, path):
            continue
        by = {}
        for m in mutants(path):
            by.setdefault(m['fn'], []).append(m)
        for fn, ms in by.items():
            rnd.shuffle(ms)
            todo += ms[:args.per]
        if args.cmd == 'list':
            print(path, sum(len(v) for v in by.values()), {k: len(v) for k, v in by.items()})
    if args.cmd == 'list':
        print(len(todo))
        return
    done = set()
    if os.path.exists(args.out):
        for line in open(args.out):
            d = json.loads(line)
            done.add((d['file'], d['idx'], d['desc']))
    todo = [m for m in todo if (m['file'], m['idx'], m['desc']) not in done]
    rnd.shuffle(todo)
    works = queue.Queue()
    for i in range(args.jobs):
        w = os.path.join(args.work, str(i))
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        shutil.copytree(REPO, w + '/repo', symlinks=True)
        shutil.copytree(VERIF, w + '/verif', ignore=shutil.ignore_patterns('.git', 'evidence', 'seeded'))
        works.put(w)

    def job(m):
        w = works.get()
        try:
            return one(m, w)
        finally:
            works.put(w)

    with ThreadPoolExecutor(args.jobs) as ex, open(args.out, 'a') as fp:
        for fut in as_completed([ex.submit(job, m) for m in todo]):
            res = fut.result()
            fp.write(json.dumps(res) + '\n')
            fp.flush()


if __name__ == '__main__':
    main()
