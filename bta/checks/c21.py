"""Split-map-combine: recorded histories of the real SMC (which process saw which rows when) under delays and injected faults, results against a
sequential oracle."""
import json
import multiprocessing
import os
import signal
import threading
import time

import numpy as np
import tables as tb

ID = 'C21'
RULE = ('a case is one run of SMC on a random event table with random chunk size, 1 to 8 processes, random delays per chunk (slow first chunk, reversed completion) and optionally '
        'an injected fault (exception, killed worker, bad result, writer or reader failure) at a random chunk; distinct = distinct (kind, order in which the chunks were completed)')
MIN = {'runs': 40, 'rows': 2000, 'chunks_processed': 150, 'faults': 25, 'out_of_order_completions': 5}
CASE_TIMEOUT = 60.
DT = np.dtype([('event_number', '<i8'), ('row_id', '<i8'), ('a', '<u2'), ('b', '<f8')])


def cases(seed, tier):
    n = 18 if tier == 'quick' else 150
    out = []
    for i in range(n):
        for kind in ('table', 'hist', 'multi', 'inplace'):
            out.append(dict(kind=kind, seed=seed * 1009 + i))
    for i in range(n // 2):
        for fault in ('exception', 'exception-one-core', 'kill', 'exit', 'bad-type', 'bad-number', 'unpicklable', 'no-output-dir', 'other-name', 'reader'):
            out.append(dict(kind='fault', fault=fault, seed=seed * 1009 + i))
    for i in range(2):
        out.append(dict(kind='empty', seed=seed * 1009 + i))
    return out


def warm():
    from beam_telescope_analysis.tools import smc  # noqa


def make_input(rng, path, n_rows=None, more=0):
    n = int(rng.choice([1, 7, 60, 400])) if n_rows is None else n_rows
    ev = np.sort(rng.integers(0, max(1, n // int(rng.integers(1, 4))), n))
    a = np.zeros(n, DT)
    a['event_number'], a['row_id'], a['a'], a['b'] = ev, np.arange(n), 60 * rng.random(n) ** 3, rng.random(n)
    with tb.open_file(path, 'w') as f:
        t = f.create_table(f.root, 'T', description=DT, title='tt', filters=tb.Filters(complib='blosc', complevel=int(rng.integers(1, 6))))
        t.append(a)
        t.flush()
        if more:
            f.create_array(f.root, 'Other', obj=np.arange(5))
        if more > 1:    # another table
            f.create_table(f.root, 'Z', obj=a[:n // 2])
    return a


def logged(log, delays, fault=None):
    """Prefix of every worker function: log which rows are processed, by whom, then wait or fail."""
    def pre(data):
        first = int(data['row_id'][0]) if len(data) else -1
        line = json.dumps(dict(first=first, n=len(data), ev=[int(data['event_number'][0]), int(data['event_number'][-1])] if len(data) else [], pid=os.getpid(), t=time.time()))
        fd = os.open(log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, (line + '\n').encode())
        os.close(fd)
        if isinstance(delays, dict):    # slow from some row on: results are pending when all is read
            time.sleep(delays['slow'] if first >= delays['row'] else 0.)
        else:
            time.sleep(delays[first % len(delays)] if first >= 0 else 0.)
        if fault and first <= fault['row'] < first + len(data):
            if fault['what'] == 'raise':
                raise ValueError('injected')
            if fault['what'] == 'kill':
                os.kill(os.getpid(), signal.SIGKILL)
            if fault['what'] == 'exit':
                os._exit(0)
            return 'fail'
        fd = os.open(log + '.done', os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, ('%d\n' % first).encode())
        os.close(fd)
    return pre


OUT_DT = np.dtype([('event_number', '<i8'), ('row_id', '<i8'), ('s', '<f8')])


def transform(d, k):
    r = np.zeros(len(d), OUT_DT)
    r['event_number'], r['row_id'], r['s'] = d['event_number'], d['row_id'], d['a'] * k + d['b']
    return r


def table_func(data, pre, k, odd):
    pre(data)
    r = transform(data, k)
    return r[r['row_id'] % 3 != 0] if odd else np.repeat(r, 2) if odd is None else r


def hist_func(data, pre, dim, shape, kind):
    pre(data)
    return hist(data, dim, shape, kind)


def hist(d, dim, shape, kind=np.int64):
    """Histogram; without a given shape only as large as the data of the chunk needs it."""
    c = [d['a'], (8.9 * d['b'] ** 4).astype(int), d['row_id'] % 5][:dim]
    s = shape[:dim] if shape else [int(v.max(initial=0)) + 1 for v in c]
    h = np.zeros(s, kind)
    np.add.at(h, tuple(v.astype(int) for v in c), 1)
    return h


def multi_func(data, pre, k, dim):
    pre(data)
    return transform(data, k), hist(data, dim, None), data


def children():
    n = []
    for p in os.listdir('/proc'):
        if p.isdigit():
            try:
                s = open('/proc/%s/stat' % p).read()
                if int(s.rsplit(')', 1)[1].split()[1]) == os.getpid():
                    n.append(int(p))
            except (OSError, ValueError, IndexError):
                pass
    return n


def check_log(ctx, log, a, chunk_size, complete=True):
    lines = [json.loads(l) for l in open(log)] if os.path.exists(log) else []
    seen = sorted((l['first'], l['n']) for l in lines if l['n'])
    pos, ok = 0, True
    for f, n in seen:
        ok &= f == pos
        pos = f + n
    if complete:
        ctx.expect(ok and pos == len(a), 'not-exactly-once', 'the function did not see every row exactly once', seen=seen[:40], rows=len(a))
    ctx.expect(all(n <= chunk_size for _, n in seen), 'chunk-too-large', 'chunk larger than chunk size', seen=seen[:40])
    for (f, n), (f2, n2) in zip(seen, seen[1:]):
        if f2 == f + n:
            ctx.expect(a['event_number'][f2] != a['event_number'][f2 - 1], 'event-split', 'event split between chunks', at=f2)
    done = [int(v) for v in open(log + '.done')] if os.path.exists(log + '.done') else []
    ctx.count(chunks_processed=len(lines), processes_seen=len(set(l['pid'] for l in lines)), out_of_order_completions=done != sorted(done))
    return done


def clean(ctx, before, label):
    """Nothing is left running or open after the call."""
    for _ in range(100):
        threads = [t.name for t in threading.enumerate() if t.name in ('WriterThread', 'AsyncWorkerThread', 'ReaderThread')]
        kids = [p for p in children() if p not in before]
        if not threads and not kids:
            break
        time.sleep(.02)
    ctx.expect(not threads, 'thread-left', '%s: threads still running: %s' % (label, threads))
    ctx.expect(not kids, 'process-left', '%s: %d processes left' % (label, len(kids)))


def run(case, ctx):
    from beam_telescope_analysis.tools import smc
    rng = ctx.rng
    inp, out, log = ctx.path('in.h5'), ctx.path('out.h5'), ctx.path('log')
    kind = case['kind']
    more = int(rng.integers(3))
    a = make_input(rng, inp, 0 if kind == 'empty' else int(rng.integers(40, 200)) if kind == 'fault' else None, more)
    top = int(np.unique(a['event_number'], return_counts=True)[1].max()) if len(a) else 1
    cs = int(rng.choice([top + 1, top + 3, max(top + 1, len(a) // 5), max(top + 1, len(a) // 12), len(a) + 10]))
    if kind == 'fault':
        cs = int(max(top + 1, len(a) // int(rng.integers(3, 12))))
    cores = int(rng.choice([1, 2, 3, 8]))
    style = int(rng.integers(6))
    if style >= 4 and kind not in ('fault', 'empty') and len(a) > 6:     # many chunks, few processes
        cs, cores = int(max(top + 1, min(cs, len(a) // 12))), int(rng.choice([2, 3]))
    at = len(a) * rng.uniform(.2, .8)
    delays = {0: [0.], 1: [.2, 0., 0.], 2: list(rng.random(7) * .08), 3: [.1, .05, 0.], 4: dict(row=at, slow=.25), 5: dict(row=at, slow=.4)}[style]
    kw = dict(input_filename=inp, output_filename=out, chunk_size=cs, n_cores=cores, align_at='event_number')
    kw['table'] = [None if more < 2 else 'T', 'T', ['X', 'T', 'Z']][int(rng.integers(3))]
    before = children()
    content = open(inp, 'rb').read()
    det = dict(cores=cores, chunk_size=cs, rows=len(a), delays=delays)
    if kind != 'fault':
        pre = logged(log, delays)
        dim = int(rng.integers(1, 4))
        shape = [60, 9, 5] if rng.random() < .4 else None
        odd = [True, False, None][int(rng.integers(3))]
        counts = [np.int64, np.int32, np.uint16, np.uint32, np.float64, np.float32][int(rng.integers(6))]
        filters = [None, tb.Filters(complib='zlib', complevel=3, fletcher32=True)][int(rng.integers(2))]
        opt = {} if filters is None else dict(filters=filters)
        with tb.open_file(inp, 'r') as f:
            want_filters = filters or f.root.T.filters
            before_names = set(n.name for n in f.root)
        with ctx.sut('SMC(%s)' % kind):
            if kind in ('table', 'empty'):
                smc.SMC(func=table_func, func_kwargs=dict(pre=pre, k=3, odd=odd), node_desc=dict(name='R', **opt) if rng.random() < .6 else opt or None, **kw)
            elif kind == 'hist':
                smc.SMC(func=hist_func, func_kwargs=dict(pre=pre, dim=dim, shape=shape, kind=counts), node_desc=dict(name='H', **opt), **kw)
            elif kind == 'multi':
                smc.SMC(func=multi_func, func_kwargs=dict(pre=pre, k=2, dim=dim), node_desc=[dict(name='R', **opt), dict(name='H', **opt), dict(name='Copy', title='cc', **opt)], **kw)
            elif kind == 'inplace':
                kw.update(output_filename=inp, mode='r+')
                smc.SMC(func=table_func, func_kwargs=dict(pre=pre, k=3, odd=odd), node_desc=dict(name='R', **opt) if rng.random() < .3 else opt or None, **kw)
        clean(ctx, before, kind)
        done = check_log(ctx, log, a, cs)
        if kind != 'inplace':
            ctx.expect(open(inp, 'rb').read() == content, 'input-modified', 'the input file was changed')
        with tb.open_file(inp if kind == 'inplace' else out, 'r') as f:
            names = sorted(n.name for n in f.root)
            det['nodes'] = names
            ctx.expect(not any(n.endswith('_tmp') for n in names), 'temporary-node-left', 'temporary node left in output', **det)
            new = {'multi': {'R', 'H', 'Copy'}, 'hist': {'H'}}.get(kind, {'R'} if 'R' in names else {'T'})
            ctx.expect(set(names) == (new | before_names if kind == 'inplace' else new), 'nodes', 'the output file has not the expected nodes', **det)
            for name in new:
                g = f.get_node(f.root, name).filters
                ctx.expect((g.complib, g.complevel, g.fletcher32) == (want_filters.complib, want_filters.complevel, want_filters.fletcher32), 'filters', 'filters of the output are not the ones of the input or the given ones', node=name, got=str(g), want=str(want_filters), **det)
            t = transform(a, 2 if kind == 'multi' else 3)
            if odd is True and kind in ('table', 'inplace'):
                t = t[t['row_id'] % 3 != 0]
            elif odd is None and kind in ('table', 'inplace', 'empty'):
                # every chunk is repeated row by row
                t = np.repeat(t, 2)
            if kind in ('table', 'empty', 'inplace', 'multi'):
                name = 'R' if 'R' in names else 'T'
                ctx.expect(name in names, 'no-output', 'no output table', **det)
                got = f.get_node(f.root, name)[:]
                ctx.expect(got.dtype == t.dtype and len(got) == len(t), 'row-count', 'output has %d rows, expected %d' % (len(got), len(t)), **det)
                ctx.expect(np.array_equal(got, t), 'row-order-or-content', 'output differs from sequential processing',
                           at=np.flatnonzero(got['row_id'] != t['row_id'])[:10], **det)
                ctx.ok(len(t), rows=len(t))
                if kind == 'inplace' and name == 'R':
                    ctx.expect(np.array_equal(f.root.T[:], a), 'inplace-input', 'in-place processing changed the input table')
            if kind in ('hist', 'multi'):
                ctx.expect('H' in names, 'no-output', 'no output histogram', **det)
                h, w = f.root.H[:], hist(a, dim, shape if kind == 'hist' else None, counts if kind == 'hist' else np.int64)
                ctx.expect(h.dtype == w.dtype and h.shape == w.shape and np.array_equal(h, w), 'histogram-sum', 'sum of histograms is wrong: %d entries, expected %d' % (h.sum(), w.sum()), dim=dim, shape=[h.shape, w.shape], kinds=[str(h.dtype), str(w.dtype)], **det)
                ctx.ok(1, histograms=1)
            if kind == 'multi':
                ctx.expect(np.array_equal(f.root.Copy[:], a) and f.root.Copy.title == 'cc', 'row-order-or-content', 'copied table differs', **det)
        ctx.count(runs=1)
        if len(done) > 1:
            ctx.interesting(kind, cores, done)
        if ctx.index < 4:
            ctx.sample = dict(det, completed_order=done[:20])
        return

    fault = case['fault']
    where = int(rng.integers(len(a)))
    what = dict(row=where, what='raise')
    func, fk, nd = table_func, dict(k=1, odd=False), dict(name='R')
    if fault in ('kill', 'exit'):
        what['what'] = fault
        kw['n_cores'] = int(rng.integers(2, 6))
    elif fault == 'exception-one-core':
        kw['n_cores'] = 1
    elif fault == 'exception':
        kw['n_cores'] = int(rng.integers(2, 9))
    else:
        what = None
    pre = logged(log, delays, what)
    fk['pre'] = pre
    if fault == 'bad-type':
        def func(data, pre, **k):
            pre(data)
            return None if data['row_id'][0] <= where <= data['row_id'][-1] else data
    elif fault == 'bad-number':
        def func(data, pre, **k):
            pre(data)
            return (data, data) if data['row_id'][0] <= where <= data['row_id'][-1] else data
    elif fault == 'unpicklable':
        def func(data, pre, **k):
            pre(data)
            import threading as th
            return th.Lock() if data['row_id'][0] <= where <= data['row_id'][-1] else data
    elif fault == 'no-output-dir':
        kw['output_filename'] = ctx.path('missing/dir/out.h5')
    elif fault == 'other-name':
        nd = dict(name='R', no_such_option=3)
    elif fault == 'reader':
        # a damaged data chunk in the input file
        with tb.open_file(inp, 'w') as f:
            t = f.create_table(f.root, 'T', description=DT, filters=tb.Filters(complib='zlib', complevel=5, fletcher32=True), chunkshape=(8,))
            t.append(a)
            t.flush()
        raw = bytearray(open(inp, 'rb').read())
        # damage one compressed chunk in the data region
        z = [i for i in range(len(raw) - 1) if raw[i] == 0x78 and raw[i + 1] in (0x5e, 0x9c, 0x01)]
        if not z:
            ctx.count(skipped=1)
            return
        p = z[int(rng.integers(len(z)))] + 20
        for i in range(p, min(p + 30, len(raw))):
            raw[i] ^= 0xa5
        open(inp, 'wb').write(raw)
        try:
            with tb.open_file(inp, 'r') as f:
                f.root.T[:]
        except Exception:
            pass
        else:
            ctx.count(skipped=1)
            return
    t0 = time.time()
    raised = None
    try:
        smc.SMC(func=func, func_kwargs=fk, node_desc=nd, **kw)
    except Exception as e:
        raised = e
    ctx.count(faults=1, **{'fault_' + fault.replace('-', '_'): 1})
    ctx.expect(raised is not None, 'silent-failure:' + fault, 'the call returned normally although processing failed', where=where, **det)
    if fault.startswith('exception'):
        ctx.expect(isinstance(raised, ValueError) and 'injected' in str(raised), 'wrong-exception', 'the exception of the function was not passed on: %r' % (raised,), **det)
    clean(ctx, before, fault)
    check_log(ctx, log, a, kw['chunk_size'], complete=False)
    # the machinery is usable after a failure
    if fault not in ('reader',):
        kw.update(output_filename=ctx.path('again.h5'))
        with ctx.sut('SMC after failure'):
            smc.SMC(func=table_func, func_kwargs=dict(pre=logged(ctx.path('log2'), [0.]), k=1, odd=False), node_desc=dict(name='R'), **kw)
        with tb.open_file(ctx.path('again.h5'), 'r') as f:
            ctx.expect(np.array_equal(f.root.R[:], transform(a, 1)), 'after-failure', 'output after an earlier failure is wrong')
    ctx.interesting(fault, where, cores, cs)
