"""Inputs, arguments and the directory before and after every step, and repeated steps."""
import copy
import hashlib
import os

import numpy as np

from bta import gen, steps

ID = 'C26'
RULE = 'a case is one call of one analysis step, repeated with the same input; non-trivial when the output of another call is overwritten or default file names are used'
MIN = {'input_files': 300, 'arguments': 600, 'repeated': 80, 'overwritten': 20, 'default_names': 20, 'read_only': 20, 'alignments': 3}
FUNCS = sorted(steps.ALL)


def cases(seed, tier):
    k = 5 if tier == 'quick' else 150
    c = [dict(step=s, i=i, seed=seed) for i in range(k) for s in FUNCS]
    c += [dict(step='fit_tracks_kalman', i=i, seed=seed) for i in range(2 if tier == 'quick' else 20)]
    c += [dict(step=s, i=i, seed=seed) for i in range(3 if tier == 'quick' else 30) for s in ('prealign', 'align')]
    # the long ones first
    return sorted(c, key=lambda q: q['step'] not in ('align', 'fit_tracks_kalman', 'calculate_efficiency', 'prealign'))


def warm():
    steps.warm()


def snapshot(top):
    """Content, mode and time of change of every file."""
    out = {}
    for d, _, files in os.walk(top):
        for f in files:
            p = os.path.join(d, f)
            st = os.stat(p)
            out[os.path.relpath(p, top)] = (hashlib.sha1(open(p, 'rb').read()).hexdigest(), st.st_mode, st.st_mtime_ns, st.st_ino)
    return out


def freeze(v):
    return dict(sorted((k, repr(x)) for k, x in vars(v).items())) if hasattr(v, 'dut_attributes') else copy.deepcopy(v)


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and gen.same_array(a, b)
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return a == b or (a != a and b != b)


def run(case, ctx):
    rng = ctx.rng
    os.mkdir(ctx.path('w'))
    os.chdir(ctx.path('w'))
    s = steps.make(case['step'], rng, lambda n: ctx.path('w/' + n))
    kw = dict(s.kw)
    if s.rows:
        kw['chunk_size'] = s.chunk_sizes(rng, 1)[0]
    # items that are None stand for a default value
    if s.name == 'calculate_efficiency' and kw['efficiency_regions'] is not None and rng.random() < .7:
        kw['efficiency_region_names'] = [None if rng.random() < .6 else ['center'] for _ in kw['efficiency_regions']]
        kw['efficiency_regions'] = [q if rng.random() < .7 or v is not None else None for q, v in zip(kw['efficiency_regions'], kw['efficiency_region_names'])]
    if s.name == 'align' and rng.random() < .3:
        kw['alignment_parameters'] = [[None]]
    default = bool(rng.random() < .35) and case['step'] not in ('prealign', 'align')
    if default:
        for k in s.out_key():
            kw[k] = None
    cpus = int(rng.integers(1, 4))
    os.cpu_count = lambda: cpus
    before, args = snapshot('.'), {k: freeze(v) for k, v in kw.items()}
    if rng.random() < .4:       # inputs may be read-only
        for f in s.inputs:
            os.chmod(f, 0o444)
        before = snapshot('.')
        ctx.count(read_only=1)
    det = dict(step=s.name, default=default, chunk_size=kw.get('chunk_size'))
    overwritten = not default and bool(rng.random() < .5) and case['step'] != 'align'     # a configuration that exists is continued by align
    if overwritten:     # left over from an earlier call: another step, other data
        for o in s.outputs:
            if o.endswith('.h5'):
                gen.write_table(o, 'Clusters', np.zeros(7, gen.CLUSTER))
                gen.write_table(o, 'Rest', np.zeros(3, gen.HIT), mode='a')
            else:
                open(o, 'w').write('telescope: {}\n')
    first = None
    for again in range(2):
        with ctx.sut(s.name):
            r = s.func(**kw)
        for k in kw:
            ctx.expect(equal(freeze(kw[k]), args[k]), 'arguments', 'an argument is changed', argument=k, got=repr(kw[k])[:300], want=repr(args[k])[:300], **det)
        after = snapshot('.')
        for f, v in before.items():
            ctx.expect(f in after, 'input-removed', 'an input file is removed', file=f, **det)
            ctx.expect(after[f] == v, 'input-changed', 'an input file is changed', file=f, content=after[f][0] != v[0], **det)
        res = r[0] if s.name == 'combine_files' else r
        res = [res] if isinstance(res, str) else list(res) if res is not None else []
        if default:
            outs = res
            ctx.expect(len(outs) == len(s.outputs) and not set(map(os.path.abspath, outs)) & set(map(os.path.abspath, s.inputs)), 'outputs', 'default output files are wrong', got=outs, **det)
        else:
            outs = s.outputs
            if res:
                ctx.expect(res == outs, 'outputs', 'returned file names are not the outputs', got=res, **det)
        new = set(after) - set(before)
        ctx.expect(new == {os.path.relpath(os.path.abspath(o), os.path.abspath('.')) for o in outs}, 'additional-files', 'files created that are not outputs, or outputs missing', got=sorted(new), want=outs, **det)
        got = {o: gen.nodes(o) if o.endswith('.h5') else open(o).read() for o in outs}
        if first is None:
            first = got
            if overwritten:
                for o in outs:
                    if o.endswith('.h5'):
                        ctx.expect(not any('Rest' in n for n in got[o]), 'left-over', 'content of an earlier file is kept', have=sorted(got[o]), **det)
        else:
            for o in outs:
                d = gen.diff_nodes(first[o], got[o]) if o.endswith('.h5') else (None if first[o] == got[o] else 'text differs')
                ctx.expect(d is None, 'repeat', 'repeating the step gives another result', differs=d, **det)
        ctx.ok(input_files=len(s.inputs), arguments=len(kw))
    if not default:     # a first call with another output is not influenced by what was there
        for o in s.outputs:
            os.remove(o)
        with ctx.sut(s.name):
            s.func(**kw)
        for o in s.outputs:
            got = gen.nodes(o) if o.endswith('.h5') else open(o).read()
            d = gen.diff_nodes(first[o], got) if o.endswith('.h5') else (None if first[o] == got else 'text differs')
            ctx.expect(d is None, 'repeat', 'result depends on what was in the output file', differs=d, **det)
    ctx.count(repeated=1, overwritten=overwritten, default_names=default, alignments=case['step'] == 'align')
    if default or overwritten:
        ctx.interesting(case)
    ctx.sample = det

