"""Combining and reducing files: exact comparison of the rows with the rows of the input files."""
import numpy as np
import tables as tb

from bta import gen
from bta.checks import fitdata

ID = 'C16'
RULE = 'a case is one list of files with one or more tables (also empty, also without event number) combined with one offset setting, or one file reduced to one number of events; non-trivial when offsets are applied or events are dropped'
MIN = {'combined_rows': 5000, 'combined_files': 200, 'empty_tables': 15, 'explicit_offsets': 30, 'reduced_files': 50, 'dropped_events': 500, 'several_chunks': 60}
PLAIN = np.dtype([('a', '<i4'), ('b', '<f8')])


def cases(seed, tier):
    n = 220 if tier == 'quick' else 10000
    return [dict(seed=seed * 8191 + i, mode=('combine', 'reduce')[i % 5 > 2]) for i in range(n)]


def warm():
    from beam_telescope_analysis.tools import data_selection  # noqa


def tracks_like(rng, n_ev, kind, sizes=None):
    ev = gen.event_numbers(rng, n_ev)
    ev = np.repeat(ev, sizes if sizes is not None else rng.integers(1, int(rng.choice([2, 3, 9])), n_ev))
    if kind == 'Hits':
        a = np.zeros(len(ev), gen.HIT)
        a['event_number'], a['column'], a['row'], a['charge'] = ev, rng.integers(1, 99, len(ev)), rng.integers(1, 99, len(ev)), rng.random(len(ev))
        return a
    return gen.random_tracks(rng, ev, 2)


def combine(case, ctx):
    from beam_telescope_analysis.tools import data_selection as ds
    rng = ctx.rng
    k = int(rng.integers(1, 6))
    names = [str(x) for x in rng.permutation(['Hits', 'Tracks_DUT0', 'Tracks_DUT3', 'Other'])[:int(rng.integers(1, 4))]]
    files, data = [], []
    for i in range(k):
        p = ctx.path('%s_run%d.h5' % ('tel', i))
        d = {}
        with tb.open_file(p, 'w'):
            pass
        for nm in names:
            if len(names) > 1 and rng.random() < .15:
                continue        # table missing in this file
            n_ev = int(rng.choice([0, 1, 7, 80], p=[.15, .15, .3, .4]))
            if nm == 'Other':
                a = np.zeros(n_ev, PLAIN)
                a['a'], a['b'] = rng.integers(-9, 9, n_ev), rng.random(n_ev)
            else:
                a = tracks_like(rng, n_ev, nm)
            d[nm] = a
            gen.write_table(p, nm, a, mode='a', title='T ' + nm)
            ctx.count(empty_tables=not n_ev)
        if rng.random() < .3:        # not a table: is not combined
            with tb.open_file(p, 'a') as f:
                f.create_carray(f.root, 'HistX', obj=np.arange(4))
        files.append(p)
        data.append(d)
    kw = {}
    take = list(names)
    if rng.random() < .4:
        take = [str(x) for x in rng.permutation(names)[:int(rng.integers(1, len(names) + 1))]]
        kw['names'] = take[0] if len(take) == 1 and rng.random() < .5 else take
    offs = None
    if rng.random() < .4:
        offs = [None if rng.random() < .3 else 0 if rng.random() < .15 else int(rng.integers(0, 10 ** 6)) * i - (int(rng.integers(0, 10 ** 6)) if rng.random() < .3 else 0) for i in range(k)]
        kw['event_number_offsets'] = offs
        ctx.count(explicit_offsets=1)
    cs = int(rng.choice([1, 3, 17, 100, 10 ** 6]))
    out = ctx.path('o.h5')
    if rng.random() < .7 or k == 1:
        kw['output_file'] = out
    else:
        out = ctx.path('tel_run_combined.h5')
    det = dict(files=[{n: len(a) for n, a in d.items()} for d in data], chunk_size=cs, kw={a: b for a, b in kw.items() if a != 'output_file'})
    with ctx.sut('combine_files'):
        got, applied = ds.combine_files(list(files), chunk_size=cs, **kw)
    ctx.expect(got == out, 'return-value', 'returned file name %s' % got, **det)
    with tb.open_file(out, 'r') as f:
        have = {x.name: x[:] for x in f.root if isinstance(x, tb.Leaf)}
    exist = {n for d in data for n in d if n in take}
    ctx.expect(set(have) == exist, 'tables', 'tables of the combined file', have=sorted(have), **det)
    for nm in exist:
        parts, last, used = [], -1, []
        for i, d in enumerate(data):
            if nm not in d:
                continue
            a = d[nm].copy()
            if nm != 'Other':
                o = offs[i] if offs is not None and offs[i] is not None else last + 1
                a['event_number'] += o
                used.append(o)
                if len(a):
                    last = int(a['event_number'][-1])
            parts.append(a)
        want = np.concatenate(parts)
        ctx.expect(gen.same_array(have[nm], want), 'rows', 'rows of %s differ: %d rows, %d expected' % (nm, len(have[nm]), len(want)), **det)
        ctx.expect((applied[nm] is None) if nm == 'Other' else [int(x) for x in applied[nm]] == used, 'offsets', 'returned offsets of %s' % nm, applied=applied[nm], used=used, **det)
        if nm != 'Other' and offs is None:
            ctx.expect(np.all(np.diff(have[nm]['event_number']) >= 0), 'order', 'event numbers of %s do not increase' % nm, **det)
        ctx.count(combined_rows=len(want), combined_files=len(parts), several_chunks=cs < len(want))
        if len(parts) > 1 and len(want):
            ctx.interesting(case, nm, used)
    if ctx.index < 3:
        ctx.sample = dict(det, applied=applied)


def reduce(case, ctx):
    from beam_telescope_analysis.tools import data_selection as ds
    rng = ctx.rng
    names = [str(x) for x in rng.permutation(['Hits', 'Tracks_DUT0', 'Tracks_DUT3'])[:int(rng.integers(1, 4))]]
    p = ctx.path('in.h5')
    data, top = {}, 1
    uneven = fitdata.uneven(rng) if rng.random() < .3 else None       # most events in the second chunk
    for nm in names:
        if uneven:
            a = tracks_like(rng, len(uneven[0]), nm, uneven[0])
        else:
            a = tracks_like(rng, int(rng.choice([0, 1, 9, 200], p=[.05, .1, .35, .5])), nm)
        gen.write_table(p, nm, a, mode='w' if nm == names[0] else 'a', title='T ' + nm)
        data[nm] = a
        top = max(top, gen.max_per_event(a))
    cs = gen.chunk_sizes(rng, max(len(a) for a in data.values()), top)[0]
    me = int(rng.choice([1, 2, 5, 30, 150, 200, 1000]))
    if uneven:
        cs, me = uneven[1], int(rng.integers(1, len(uneven[0]) + 3))
    kw = dict(output_file=ctx.path('o.h5')) if rng.random() < .6 else {}
    out = kw.get('output_file', ctx.path('in_reduced.h5'))
    det = dict(rows={n: len(a) for n, a in data.items()}, max_events=me, chunk_size=cs)
    with ctx.sut('reduce_events'):
        got = ds.reduce_events(p, me, chunk_size=cs, **kw)
    ctx.expect(got == out, 'return-value', 'returned file name %s' % got, **det)
    with tb.open_file(out, 'r') as f:
        have = {x.name: x[:] for x in f.root if isinstance(x, tb.Leaf)}
    ctx.expect(set(have) == set(data), 'tables', 'tables of the reduced file', have=sorted(have), **det)
    for nm, a in data.items():
        e = np.unique(have[nm]['event_number'])
        tot = len(np.unique(a['event_number']))
        ctx.expect(len(e) <= me, 'max-events', '%d events, at most %d requested' % (len(e), me), table=nm, **det)
        if cs > len(a):
            ctx.expect(len(e) == min(me, tot), 'max-events', '%d events of %d, %d requested' % (len(e), tot, me), table=nm, **det)
        elif tot:
            ctx.expect(len(e) > 0, 'no-events', 'no event was stored', table=nm, **det)
        want = a[np.isin(a['event_number'], e)]
        ctx.expect(gen.same_array(have[nm], want), 'rows', 'the rows of %s are not all rows of the selected events' % nm, stored=len(have[nm]), want=len(want), **det)
        ctx.count(reduced_files=1, dropped_events=tot - len(e), several_chunks=cs < len(a))
        if len(e) < tot:
            ctx.interesting(case, nm, len(e))


def run(case, ctx):
    (combine if case['mode'] == 'combine' else reduce)(case, ctx)
