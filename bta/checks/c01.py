"""Event-aligned chunk reading: every chunk handed out by the real reader is recorded and the recorded history is
checked against the set of rows the caller asked for."""
import itertools

import numpy as np
import tables as tb

ID = 'C01'
RULE = ('a case is a batch of reads of random event-sorted tables (sizes, gaps, 64-bit and negative numbers) with random chunk size > largest '
        'event and random event/index limits, or all compositions of a small table with all chunk sizes and limits; a read is '
        'non-trivial when at least two chunks were handed out')
MIN = {'reads': 500, 'multi_chunk_reads': 100, 'chunks': 500, 'range_selections': 100, 'resumed_reads': 20}
DT = np.dtype([('event_number', '<i8'), ('row_id', '<i8'), ('v', '<u2')])


def cases(seed, tier):
    n = 40 if tier == 'quick' else 600
    top = 6 if tier == 'quick' else 8
    out = [dict(kind='enum', rows=r) for r in range(0, top + 1)]
    out += [dict(kind='random', seed=seed * 100003 + i, n=40) for i in range(n)]
    return out


def warm():
    from beam_telescope_analysis.tools import analysis_utils  # noqa


def make_table(f, events, csi=False):
    if 't' in f.root:
        f.remove_node(f.root, 't')
    t = f.create_table(f.root, 't', description=DT)
    a = np.zeros(len(events), DT)
    a['event_number'] = events
    a['row_id'] = np.arange(len(events))
    a['v'] = np.arange(len(events)) % 60000
    t.append(a)
    t.flush()
    if csi:
        t.cols.event_number.create_csindex()
    return t, a


def random_events(rng):
    n_ev = int(rng.choice([0, 1, 2, 3, 5, 10, 40, 200]))
    style = rng.integers(5)
    sizes = {0: rng.integers(1, 2, n_ev), 1: rng.integers(1, 4, n_ev), 2: rng.integers(1, 12, n_ev), 3: rng.geometric(0.2, n_ev),
             4: np.where(rng.random(n_ev) < 0.1, rng.integers(10, 40, n_ev), 1)}[int(style)]
    gaps = rng.integers(1, 2, n_ev) if rng.random() < .3 else rng.integers(1, 6, n_ev)
    nums = np.cumsum(gaps)
    nums = nums + int(rng.choice([-1, -1, -1, -5, 3, 2 ** 31 - 20, 2 ** 40, -300]))
    return np.repeat(nums, sizes)


def expected(ev, kw):
    """Mask of the rows the documentation promises, and whether a missing start event may be refused."""
    n = len(ev)
    i0 = kw.get('start_index') or 0
    i1 = n if kw.get('stop_index') is None else kw['stop_index']
    s, e = kw.get('start_event_number'), kw.get('stop_event_number')
    idx = np.arange(n)
    m = (idx >= i0) & (idx < i1)
    rng_ev = ev[i0:i1]
    if len(rng_ev) == 0:
        return np.zeros(n, bool), False
    # rows of the event cut (or possibly cut) by the stop index are not handed out
    if i1 < n and not (e is not None and rng_ev[-1] >= e):
        m &= ev != rng_ev[-1]
    if not kw.get('first_event_aligned', True) and i0 != 0:
        # the event at the start index may be incomplete and is left out
        if s is None or rng_ev[0] == s:
            m &= ev != rng_ev[0]
    missing = False
    if s is not None:
        m &= ev >= s
        missing = not np.any((ev == s) & m) or (not kw.get('first_event_aligned', True) and i0 != 0 and rng_ev[0] == s)
    if e is not None:
        m &= ev < e
    return m, missing


def check_read(ctx, au, t, a, kw):
    ev = a['event_number']
    want, missing = expected(ev, kw)
    chunks, nexts, raised = [], [], None
    with ctx.sut('data_aligned_at_events', allow=(ValueError,)):
        try:
            for c, nxt in au.data_aligned_at_events(t, **kw):
                chunks.append(np.array(c))
                nexts.append(int(nxt))
                if len(chunks) > len(ev) + 5:
                    break
        except ValueError as e:
            raised = str(e)
    det = dict(events=ev.tolist()[:80], kw=kw, chunks=[c['row_id'].tolist() for c in chunks][:30], next=nexts[:30], raised=raised)
    if raised is not None:
        # only a missing start event may be refused (when that is requested), everything else here is legal
        ctx.expect(missing and kw.get('fail_on_missing_events', True), 'refused', 'legal read refused: %s' % raised, **det)
        ctx.count(refused_reads=1)
        return
    got = np.concatenate(chunks) if chunks else a[:0]
    ids = got['row_id']
    if not np.array_equal(ids, np.flatnonzero(want)):
        lost = np.setdiff1d(np.flatnonzero(want), ids)
        extra = np.setdiff1d(ids, np.flatnonzero(want))
        key = 'rows-lost' if len(lost) else 'rows-extra' if len(extra) else 'rows-duplicated-or-reordered'
        ctx.violate(key, 'rows delivered differ from the rows selected', lost=lost[:20], extra=extra[:20], **det)
    ctx.expect(got.dtype == a.dtype and np.array_equal(got, a[ids]), 'row-content', 'content of rows changed', **det)
    seen = set()
    for c, nxt in zip(chunks, nexts):
        evs = set(c['event_number'].tolist())
        ctx.expect(not (evs & seen), 'event-split', 'an event was handed out in two chunks', **det)
        ctx.expect(len(c) <= kw['chunk_size'], 'chunk-too-large', 'chunk larger than chunk_size', **det)
        if len(c):
            ctx.expect(nxt == c['row_id'][-1] + 1, 'next-index', 'reported next index is wrong', **det)
        seen |= evs
    ctx.ok(2, reads=1, chunks=len(chunks), multi_chunk_reads=len(chunks) > 1)
    if len(chunks) > 1:
        ctx.interesting(ev.tolist(), kw)
        if ctx.sample is None:
            ctx.sample = dict(rows=len(ev), kw=kw, chunk_sizes=[len(c) for c in chunks])
    return nexts


def check_range(ctx, au, a, s, e, sorted_):
    ev = a['event_number']
    m = np.ones(len(ev), bool)
    if s is not None:
        m &= ev >= s
    if e is not None:
        m &= ev < e
    with ctx.sut('get_data_in_event_range'):
        got = au.get_data_in_event_range(a, event_start=s, event_stop=e, assume_sorted=sorted_)
    det = dict(events=ev.tolist()[:60], start=s, stop=e, sorted=sorted_, n=len(got))
    if not np.any(m):
        ctx.expect(len(got) == 0, 'event-range', 'rows returned though none is in the event range', **det)
    else:
        ctx.expect(got.dtype == a.dtype and np.array_equal(got, a[m]), 'event-range', 'wrong rows for event range', want=int(m.sum()), **det)
    ctx.count(range_selections=1)


def limits(rng, ev):
    pool = [None, None]
    if len(ev):
        pool += [int(x) for x in rng.choice(ev, 3)] + [int(ev[0]), int(ev[-1]), int(ev[-1]) + 1, int(ev[0]) - 1, int(ev[-1]) + 7, int(rng.integers(ev[0] - 2, ev[-1] + 3))]
    else:
        pool += [0, 5]
    s, e = pool[rng.integers(len(pool))], pool[rng.integers(len(pool))]
    if s is not None and e is not None and e < s:
        s, e = e, s
    return s, e


def run(case, ctx):
    from beam_telescope_analysis.tools import analysis_utils as au
    f = tb.open_file('mem.h5', 'w', driver='H5FD_CORE', driver_core_backing_store=0)
    try:
        if case['kind'] == 'enum':
            n = case['rows']
            for cuts in itertools.product([0, 1, 2], repeat=max(0, n - 1)):
                ev = np.cumsum([0] + list(cuts))[:n].astype(np.int64)
                if any(c == 2 for c in cuts) and len(cuts) > 4 and ctx.tier == 'quick' and ctx.rng.random() < .8:
                    continue
                t, a = make_table(f, ev)
                top = int(np.unique(ev, return_counts=True)[1].max()) if n else 1
                for cs in range(top + 1, n + 3):
                    check_read(ctx, au, t, a, dict(chunk_size=cs))
                    for i1 in range(0, n + 1):
                        check_read(ctx, au, t, a, dict(chunk_size=cs, stop_index=i1))
                    for s in range(0, int(ev[-1]) + 2 if n else 1):
                        check_read(ctx, au, t, a, dict(chunk_size=cs, start_event_number=s, fail_on_missing_events=False))
                        check_read(ctx, au, t, a, dict(chunk_size=cs, stop_event_number=s, fail_on_missing_events=False))
                for s in [None] + list(range(-1, int(ev[-1]) + 2 if n else 1)):
                    for e in [None] + list(range(-1 if s is None else s, int(ev[-1]) + 3 if n else 1)):
                        check_range(ctx, au, a, s, e, True)
            return
        rng = ctx.rng
        for _ in range(case['n']):
            ev = random_events(rng)
            csi = rng.random() < .25
            t, a = make_table(f, ev, csi)
            top = int(np.unique(ev, return_counts=True)[1].max()) if len(ev) else 1
            for _ in range(6):
                kw = dict(chunk_size=int(rng.choice([top + 1, top + 1, top + 2, rng.integers(top + 1, top + 8), rng.integers(top + 1, max(top + 2, len(ev) + 4)), max(len(ev), top + 1), len(ev) + 1 + top, 10 ** 6])))
                s, e = limits(rng, ev)
                if rng.random() < .6:
                    if s is not None:
                        kw['start_event_number'] = s
                    if e is not None:
                        kw['stop_event_number'] = e
                if rng.random() < .4 and len(ev):
                    i0, i1 = sorted(int(x) for x in rng.integers(0, len(ev) + 1, 2))
                    if rng.random() < .7:
                        # at an event boundary
                        i0 = int(np.searchsorted(ev, ev[min(i0, len(ev) - 1)]))
                    kw['start_index'] = i0
                    if rng.random() < .5:
                        kw['stop_index'] = max(i0, i1)
                if rng.random() < .7:
                    kw['fail_on_missing_events'] = False
                if rng.random() < .2:
                    kw['first_event_aligned'] = False
                if csi:
                    kw['try_speedup'] = True
                    kw['fail_on_missing_events'] = False
                    kw.pop('first_event_aligned', None)
                nexts = check_read(ctx, au, t, a, kw)
                # resume where the reader said, after a prefix of the chunks
                if nexts and len(nexts) > 1 and 'try_speedup' not in kw:
                    k = dict(kw, start_index=nexts[int(rng.integers(len(nexts) - 1))], fail_on_missing_events=False, first_event_aligned=True)
                    check_read(ctx, au, t, a, k)
                    ctx.count(resumed_reads=1)
                if len(ev):
                    check_range(ctx, au, a, s, e, True)
                    if s is not None and e is not None:
                        p = rng.permutation(len(a))
                        check_range(ctx, au, a[p], s, e, False)
    finally:
        f.close()
