"""Switching plots on changes no result: every step with plots gives the same data as without them."""
import os

from bta import gen, steps
from bta.checks.c02 import compare

ID = 'C32'
RULE = 'a case is one set of inputs for one analysis step, run without plots and with plots, in one or several chunks; non-trivial when plots are written and tables or histograms are compared'
MIN = {'comparisons': 40, 'plots': 30, 'nodes': 150, 'rows': 3000, 'chunked': 6, 'efficiency': 3, 'align': 1, 'yaml': 3}
ASSUMPTIONS = ['Floating point results are compared as in C02; with one worker.']
CASE_TIMEOUT = 300.
NUMBERS = [('calculate_efficiency', 6, 60), ('align', 2, 16), ('correlate', 6, 40), ('calculate_residuals', 6, 40), ('fit_tracks', 5, 40), ('histogram_track_angle', 6, 40), ('prealign', 5, 30),
           ('mask', 4, 40), ('mask_pixels', 5, 50), ('check', 4, 40), ('check_file', 5, 50), ('cluster', 4, 40), ('cluster_hits', 5, 50)]


def cases(seed, tier):
    return [dict(step=s, i=i, seed=seed) for s, quick, thorough in NUMBERS for i in range(quick if tier == 'quick' else thorough)]


def warm():
    steps.warm()


def read(path):
    return gen.nodes(path) if path.endswith('.h5') else open(path).read()


def run(case, ctx):
    rng = ctx.rng
    s = steps.make(case['step'], rng, ctx.path)
    os.cpu_count = lambda: 1
    folder = os.path.dirname(ctx.path('x'))
    kw = dict(s.kw)
    if s.rows and case['step'] not in ('calculate_efficiency', 'align') and rng.random() < .5:
        kw['chunk_size'] = s.chunk_sizes(rng, 2)[-1]
    got = []
    for plot in (False, True):
        with ctx.sut('%s plot=%s' % (s.name, plot)):
            s.func(**dict(kw, plot=plot))
        got.append([read(o) for o in s.outputs])
        if not plot:
            before = {f: os.stat(os.path.join(folder, f)).st_mtime_ns for f in os.listdir(folder)}
    pdf = [f for f in os.listdir(folder) if f.endswith('.pdf') and before.get(f) != os.stat(os.path.join(folder, f)).st_mtime_ns]
    det = dict(step=s.name, chunk_size=kw.get('chunk_size'), rows=s.rows)
    for o, a, b in zip(s.outputs, *got):
        if isinstance(a, dict):
            d = compare(a, b)
        else:
            d = None if a == b else 'other text'
        ctx.expect(d is None, 'differs', 'the result with plots is not the result without plots', what=d, file=os.path.basename(o), **det)
    tabs = [v[0] for g in got[0] if isinstance(g, dict) for v in g.values()]
    ctx.expect(bool(pdf), 'no_plots', 'no plots are written with plot=True', files=sorted(os.listdir(folder)), **det)
    for f in pdf:
        with open(os.path.join(folder, f), 'rb') as h:
            t = h.read()
        ctx.expect(t.startswith(b'%PDF') and b'%%EOF' in t[-1024:], 'plots', 'a file with plots is not a complete PDF document', file=f, size=len(t), **det)
    ctx.ok(comparisons=len(s.outputs), plots=len(pdf), nodes=len(tabs), rows=sum(len(t) for t in tabs if t.dtype.names), chunked='chunk_size' in kw and kw['chunk_size'] < s.rows,
           efficiency=case['step'] == 'calculate_efficiency', align=case['step'] == 'align', yaml=sum(not isinstance(g, dict) for g in got[0]))
    ctx.interesting((case['step'], case['i']))
    ctx.sample = dict(step=s.name, plots=sorted(pdf), nodes=len(tabs))
