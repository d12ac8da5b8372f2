"""Arguments recorded in output files against the arguments of the call."""
import copy
import inspect
import math
import sys
import time

import numpy as np
import tables as tb

from bta import gen, steps

ID = 'C25'
RULE = 'a case is one call of one analysis step with a mix of positional and keyword arguments; non-trivial when both kinds were passed and a value is long, an array, not ASCII, or None'
MIN = {'records': 1500, 'files': 150, 'positional': 200, 'keyword': 500, 'long': 10, 'arrays': 8, 'unicode': 10, 'nested': 30, 'repeated': 30, 'generic': 30}
FUNCS = sorted(steps.ALL)


def cases(seed, tier):
    k = 5 if tier == 'quick' else 150
    return [dict(step=s, i=i, seed=seed) for i in range(k) for s in FUNCS] + [dict(step='generic', i=i, seed=seed) for i in range(40 if tier == 'quick' else 1500)]


def warm():
    steps.warm()


def text(v):
    with np.printoptions(threshold=sys.maxsize):
        return str(v)


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    try:
        return bool(a == b)
    except Exception:
        return False


def readable(stored, v):
    """Whether the stored text is the value."""
    if stored == text(v) or (isinstance(v, str) and stored == v):
        return True
    try:
        got = eval(stored, {'__builtins__': {}, 'array': np.array, 'np': np, 'numpy': np, 'nan': math.nan, 'inf': math.inf, 'int64': np.int64, 'float64': np.float64, 'True': True, 'False': False, 'None': None, 'true': True, 'false': False})
    except Exception:
        return False
    return equal(got, v)


def records(path, group='arguments'):
    out = {}
    with tb.open_file(path) as f:
        if '/' + group not in f:
            return out
        for t in f.get_node('/' + group):
            d = {}
            for r in t[:]:
                k = r['name'].decode('utf-8')
                if k in d:
                    d[k] = None     # recorded twice
                else:
                    d[k] = r['value'].decode('utf-8')
            out[t._v_name] = (d, t._v_title, {k: t.attrs[k] for k in t.attrs._v_attrnamesuser})
    return out


def call(ctx, func, name, kw, rng, det):
    """Calls with the leading arguments positional; returns the arguments as they were before the call."""
    names = [n for n, p in inspect.signature(func).parameters.items() if p.kind == p.POSITIONAL_OR_KEYWORD]
    k = 0
    while k < len(names) and names[k] in kw:
        k += 1
    k = int(rng.integers(0, k + 1))
    args = [kw[n] for n in names[:k]]
    rest = {n: v for n, v in kw.items() if n not in names[:k]}
    items = list(rest.items())
    rest = dict(items[i] for i in rng.permutation(len(items)))
    before = copy.deepcopy({n: v for n, v in kw.items() if n != 'dut'})
    if 'dut' in kw:
        before['dut'] = text(kw['dut'])
    with ctx.sut(name):
        r = func(*args, **rest)
    ctx.count(positional=k, keyword=len(rest))
    return r, before, k


def compare(ctx, rec, name, want, det, defaults, since=None):
    ctx.expect(name in rec, 'missing', 'arguments of the step are not recorded', have=sorted(rec), **det)
    got = rec[name][0]
    for a, v in want.items():
        ctx.expect(got.get(a) is not None, 'missing', 'an argument is not recorded, or twice', argument=a, **det)
        ctx.expect(readable(got[a], v), 'value', 'recorded argument is not the value of the call', argument=a, got=got[a][:300], want=text(v)[:300], length=[len(got[a]), len(text(v))], **det)
    for a in set(got) - set(want):      # defaults may be recorded, too
        ctx.expect(a in defaults and readable(got[a], defaults[a]), 'value', 'recorded argument was not passed', argument=a, got=str(got[a])[:300], **det)
    ctx.expect(all(k in rec[name][2] for k in ('date_created', 'bta_version')), 'attributes', 'date or version is not recorded', got=rec[name][2], **det)
    if since is not None:
        t1 = int(time.time()) + 1
        ctx.expect(str(rec[name][2]['date_created']) in [time.asctime(time.localtime(t)) for t in range(t1, int(since) - 2, -1)], 'attributes', 'recorded date is not the time of the call', got=rec[name][2], **det)
    ctx.ok(records=len(want), files=1)


def kinds(ctx, kw):
    s = [text(v) for v in kw.values()]
    a = any(isinstance(v, np.ndarray) or (isinstance(v, list) and any(isinstance(q, np.ndarray) for q in v)) for v in kw.values())
    lo, un = any(len(t) > 32 * 1024 for t in s), any(not t.isascii() for t in s)
    ctx.count(long=lo, arrays=a, unicode=un)
    return a, lo, un


def defaults_of(func):
    return {k: v.default for k, v in inspect.signature(func).parameters.items() if v.default is not inspect.Parameter.empty}


def run(case, ctx):
    if case['step'] == 'generic':
        return generic(case, ctx)
    rng, start = ctx.rng, time.time()
    sub = ''
    if rng.random() < .3:       # folder names need not be ASCII
        import os
        sub = 'Größe_µ/'
        os.mkdir(ctx.path(sub))
    s = steps.make(case['step'], rng, lambda n: ctx.path(sub + n))
    kw = dict(s.kw)
    if s.rows:
        kw['chunk_size'] = s.chunk_sizes(rng, 1)[0]
    det = dict(step=s.name)
    for again in range(1 + (rng.random() < .5)):
        if again:
            kw['chunk_size'] = s.chunk_sizes(rng, 1)[0]
        a, lo, un = kinds(ctx, kw)
        r, before, k = call(ctx, s.func, s.name, kw, rng, det)
        for o in s.outputs:
            rec = records(o)
            compare(ctx, rec, s.name, before, dict(file=o.split('/')[-1], positional=k, again=again, **det), defaults_of(s.func), start)
            if s.inner:
                # the step for one sensor records, too, and both records are kept
                ctx.expect(s.inner in rec, 'lost', 'record of the step of a single sensor is lost', have=sorted(rec), **det)
                got = rec[s.inner][0]
                i = s.outputs.index(o)
                key = [q for q in got if q.startswith('input_hit_file')]
                ctx.expect(len(key) == 1 and got[key[0]] == s.inputs[i], 'value', 'recorded input file is wrong', got=got, **det)
                ctx.expect('chunk_size' not in got or int(got['chunk_size']) == kw['chunk_size'], 'value', 'recorded chunk size is wrong', got=got.get('chunk_size'), **det)
                ctx.count(nested=1)
            ctx.expect(set(rec) <= {s.name, s.inner}, 'additional', 'unknown records', have=sorted(rec), **det)
        ctx.count(repeated=again)
    if 0 < k < len(kw) and (a or lo or un or None in kw.values()):
        ctx.interesting(case)
    ctx.sample = dict(step=s.name, positional=k, arguments=sorted(kw))


def value(rng):
    k = int(rng.integers(14))
    return [None, True, int(rng.integers(-2 ** 62, 2 ** 62)), float(rng.normal() * 10. ** int(rng.integers(-300, 300))), 'name %d' % rng.integers(99), 'Zähler µm→', [(250., None), [1, 2, None]], (), {'a': 1, 'b': [1., float('inf')]},
            rng.random(int(rng.choice([3, 2000]))) < .5, rng.normal(size=(30, int(rng.choice([2, 80])))), list(range(int(rng.choice([3, 9000])))), ['/data/run_%06d/telescope_hits.h5' % i for i in range(int(rng.choice([2, 1200])))], float('nan')][k]


def generic(case, ctx):
    """Decorated functions with any values, several results, and several steps on one file."""
    from beam_telescope_analysis.tools.storage_utils import save_arguments, save_configuration_dict
    rng, start = ctx.rng, time.time()
    files = [ctx.path('f%d.h5' % i) for i in range(3)]
    for i, f in enumerate(files):
        gen.write_table(f, 'Hits', np.zeros(2, gen.HIT))

    def first(a, b, c=None, d=3., e='x'):
        local_value = a     # local variables are not arguments
        return files[0]

    def second(a, b, c=None, d=3., e='x'):
        return [files[0], files[1]]

    def third(a, b=1, c=None, d=3., e='x'):
        return files[1], {'offsets': [1]}

    def fourth(a, b=1, c=None, d=3., e='x'):
        return [files[2], files[0]], 5

    def fifth(a, b=1, *, c=None, d=3., **further):
        return (files[2], 3, None)
    outs = {'first': [0], 'second': [0, 1], 'third': [1], 'fourth': [2, 0], 'fifth': [2]}
    have = {i: {} for i in range(3)}
    for step in range(int(rng.integers(1, 6))):
        f = [first, second, third, fourth, fifth][int(rng.integers(5))]
        kw = {n: value(rng) for n in 'abcde' if n in 'ab' or rng.random() < .7}
        if f is fifth:
            kw.update({n: value(rng) for n in ('chunk_size', 'n_bins', 'x_0', 'further_options') if rng.random() < .6})
        g = save_arguments(f)
        a, lo, un = kinds(ctx, kw)
        r, before, k = call(ctx, g, f.__name__, kw, rng, {})
        ctx.expect(r == f(1, 2), 'return', 'return value of the step is changed', got=r)
        ctx.expect(g.__name__ == f.__name__, 'name', 'name of the step is changed')
        for i in outs[f.__name__]:
            have[i][f.__name__] = (before, defaults_of(f))
        for i in range(3):
            rec = records(files[i])
            ctx.expect(set(rec) == set(have[i]), 'lost', 'records of earlier steps are not kept, or in the wrong file', have=sorted(rec), want=sorted(have[i]))
            for n, (b, dflt) in have[i].items():
                compare(ctx, rec, n, b, dict(step=n, generic=True), dflt, start)
            ctx.expect(gen.same_array(gen.read(files[i], 'Hits'), np.zeros(2, gen.HIT)), 'data', 'data of the file is changed')
        if 0 < k < len(kw) and (a or lo or un):
            ctx.interesting(case, step)
    conf = {'k%d' % i: value(rng) for i in range(4)}
    when = [None, time.time(), time.localtime(1e9), time.gmtime(0)][int(rng.integers(4))]
    with ctx.sut('save_configuration_dict'):
        save_configuration_dict(files[0], 'conf', conf, date_created=when)
    rec = records(files[0], 'configuration')
    compare(ctx, rec, 'conf', conf, dict(step='save_configuration_dict', date=str(when)), {})
    if isinstance(when, time.struct_time):
        ctx.expect(str(rec['conf'][2]['date_created']) == time.asctime(when), 'attributes', 'date is wrong', got=rec['conf'][2])
    ctx.count(generic=1)
