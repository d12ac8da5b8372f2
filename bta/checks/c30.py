"""Raw data converters: every recorded hit arrives once, in the file of its plane, with the index convention of the analysis (starting at 1)."""
import contextlib
import importlib
import os
import sys
import types

import numpy as np
import tables as tb

from bta import gen

ID = 'C30'
RULE = 'a case is one interpreted hit table (of one reader) with a chunk size; non-trivial when it is read in several chunks or holds a decreasing event number'
MIN = {'mimosa': 100, 'fei4': 100, 'rows': 10000, 'chunked': 40, 'refused': 60, 'whole': 60, 'unknown_planes': 40}
ASSUMPTIONS = ['The external interpreters (pymosa_mimosa26_interpreter, pyBAR) are not installed: stand-ins take their place, which only write the interpreted table.']


def cases(seed, tier):
    n = 640 if tier == 'quick' else 6000
    return [dict(kind=('mimosa', 'fei4')[i % 2], mode='whole' if i % 8 in (6, 7) else 'bad' if i % 8 in (4, 5) else 'plain', seed=seed * 7919 + i) for i in range(n)]


RAW = {}      # raw data file -> table to be "interpreted"


class MimosaStandIn(object):
    def __init__(self, raw_data_file, analyzed_data_file=None, analyze_m26_header_ids=None, trigger_data_format=None, timing_offset=None, create_pdf=None, **kw):
        name = raw_data_file[0] if isinstance(raw_data_file, (list, tuple)) else raw_data_file
        self.raw, self.analyzed_data_file = name, analyzed_data_file or os.path.splitext(name)[0] + '_interpreted.h5'
        self.analyze_m26_header_ids = analyze_m26_header_ids or [1, 2, 3, 4, 5, 6]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def interpret_word_table(self):
        gen.write_table(self.analyzed_data_file, 'Hits', RAW[self.raw])


class Fei4StandIn(object):
    def __init__(self, raw_data_file, analyzed_data_file=None, create_pdf=None, **kw):
        name = sorted(raw_data_file)[0] if isinstance(raw_data_file, (list, tuple)) else raw_data_file
        self.raw, self.out = name, analyzed_data_file or os.path.splitext(name)[0] + '_interpreted.h5'
        self.interpreter = types.SimpleNamespace(set_warning_output=lambda v: None, print_summary=lambda: None)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def interpret_word_table(self):
        gen.write_table(self.out, 'Hits', RAW[self.raw])

    def plot_histograms(self):
        pass


def module(name, **content):
    if name not in sys.modules:
        try:
            importlib.import_module(name)
            return
        except ImportError:
            pass
        m = types.ModuleType(name)
        sys.modules[name] = m
        if '.' in name:
            setattr(sys.modules[name.rpartition('.')[0]], name.rpartition('.')[2], m)
    for k, v in content.items():
        setattr(sys.modules[name], k, v)


def warm():
    module('contextlib2', ExitStack=contextlib.ExitStack)
    module('pymosa_mimosa26_interpreter')
    module('pymosa_mimosa26_interpreter.data_interpreter', DataInterpreter=MimosaStandIn)
    module('pymosa_mimosa26_interpreter.raw_data_interpreter', DEFAULT_PYMOSA_M26_HEADER_IDS=[1, 2, 3, 4, 5, 6])
    for name in ('pybar', 'pybar.analysis'):
        module(name)
    module('pybar.analysis.analyze_raw_data', AnalyzeRawData=Fei4StandIn)
    from beam_telescope_analysis.converter import pymosa_converter, pybar_fei4_converter  # noqa


def run(case, ctx):
    from beam_telescope_analysis.converter import pymosa_converter, pybar_fei4_converter
    from beam_telescope_analysis.hit_analysis import default_hits_dtype
    rng, kind = ctx.rng, case['kind']
    n = int(rng.choice([1, 3, 50, 400]))
    step = rng.choice([0, 0, 1, 1, 2, 70000, 2 ** 34], n)
    ev = np.cumsum(step) + int(rng.choice([0, 0, 5]))
    if kind == 'mimosa':
        t = np.zeros(n, dtype=[('event_number', '<i8'), ('trigger_number', '<u4'), ('plane', 'u1'), ('frame', '<u4'), ('column', '<u2'), ('row', '<u2'), ('trigger_status', 'u1')])
        t['plane'] = rng.choice(np.arange(1, int(rng.choice([2, 4, 7]))), n)
        t['column'], t['row'], t['frame'] = rng.integers(0, 1152, n), rng.integers(0, 576, n), rng.integers(0, 1000, n)
        t['column'][:1], t['row'][-1:] = 1151, 575
    else:
        t = np.zeros(n, dtype=[('event_number', '<i8'), ('trigger_number', '<u4'), ('relative_BCID', 'u1'), ('LVL1ID', '<u2'), ('column', 'u1'), ('row', '<u2'), ('tot', 'u1'), ('BCID', '<u2')])
        t['column'], t['row'], t['tot'], t['relative_BCID'] = rng.integers(1, 81, n), rng.integers(1, 337, n), rng.integers(0, 15, n), rng.integers(0, 16, n)
    t['event_number'] = ev
    t['trigger_number'] = rng.integers(0, 2 ** 31, n)
    chunk = int(rng.choice([1, 2, 7, 100, n, n + 1, 1000000]))
    if n > 100 and chunk < 7:
        chunk = 13
    f = ctx.path('in.h5')
    det = dict(kind=kind, rows=n, chunk_size=chunk)
    bad = case['mode'] == 'bad' and n > 1
    if bad:
        k = int(rng.integers(1, n))
        t['event_number'][k:] += t['event_number'][k - 1] - t['event_number'][k] - int(rng.integers(1, 3))
        if t['event_number'].min() < 0:
            t['event_number'] -= t['event_number'].min()
        if rng.random() < .6:
            chunk = k if k >= 7 or n < 7 else int(rng.choice([v for v in range(1, k + 1) if k % v == 0]))   # the decrease is between two chunks
            det['chunk_size'] = chunk
    gen.write_table(f, 'Hits', t)
    text = open(f, 'rb').read()
    ids = [1, 2, 3, 4, 5, 6]
    kw = {} if chunk == 1000000 else dict(chunk_size=chunk)
    if kind == 'mimosa':
        if rng.random() < .6:
            ids = [int(v) for v in rng.choice(np.arange(1, 9), int(rng.integers(1, 5)), replace=False)]
            kw['analyze_m26_header_ids'] = ids
        names = [ctx.path('in_header_id_%d.h5' % i) for i in ids]
        if rng.random() < .5:
            names = [ctx.path('plane%d.h5' % k) for k in range(len(ids))]
            kw['output_filenames'] = list(names)
        want = []
        for i in ids:
            sel = t[t['plane'] == i]
            w = np.zeros(len(sel), dtype=default_hits_dtype)
            w['event_number'], w['column'], w['row'] = sel['event_number'], sel['column'] + 1, sel['row'] + 1
            want.append(w)
        convert = pymosa_converter.format_hit_table
        if len(set(t['plane']) - set(ids)):
            ctx.count(unknown_planes=1)
    else:
        names = [ctx.path('in_formatted_fei4.h5')]
        if rng.random() < .5:
            names = [ctx.path('out.h5')]
            kw['output_filename'] = names[0]
        w = np.zeros(n, dtype=default_hits_dtype)
        for a, b in (('event_number', 'event_number'), ('frame', 'relative_BCID'), ('column', 'column'), ('row', 'row'), ('charge', 'tot')):
            w[a] = t[b]
        want = [w]
        convert = pybar_fei4_converter.format_hit_table
    if bad:
        try:
            convert(f, **kw)
        except RuntimeError:
            ctx.ok(1, refused=1)
        else:
            ctx.violate('decreasing', 'decreasing event numbers are accepted', row=k, **det)
        ctx.interesting('bad', kind, n, chunk)
        return
    if kind == 'mimosa' and rng.random() < .3:
        try:
            convert(f, **dict(kw, output_filenames=[ctx.path('x%d.h5' % i) for i in range(len(ids) + 1)]))
        except ValueError:
            ctx.ok(1, refused=1)
        else:
            ctx.violate('names', 'wrong number of output files is accepted', **det)
    if case['mode'] == 'whole':
        # with the interpreter in front
        raw = ctx.path('raw.h5')
        open(raw, 'w').close()
        RAW[raw] = t
        kw.pop('chunk_size', None)
        if kind == 'mimosa':
            if 'output_filenames' not in kw:
                names = [ctx.path('raw_interpreted_header_id_%d.h5' % i) for i in ids]
            with ctx.sut('process_dut'):
                got = pymosa_converter.process_dut(raw, **kw)
        else:
            if 'output_filename' not in kw:
                names = [ctx.path('raw_interpreted_formatted_fei4.h5')]
            arg = raw if rng.random() < .5 else [ctx.path('rawz.h5'), raw]
            with ctx.sut('process_dut'):
                got = [pybar_fei4_converter.process_dut(arg, **kw)]
        ctx.count(whole=1)
    else:
        with ctx.sut('format_hit_table'):
            got = convert(f, **kw)
        got = got if kind == 'mimosa' else [got]
    ctx.expect([os.path.abspath(g) for g in got] == [os.path.abspath(v) for v in names], 'names', 'names of the output files', got=got, want=names, **det)
    for name, w in zip(names, want):
        with tb.open_file(name) as h:
            r = h.root.Hits[:]
        ctx.expect(r.dtype == w.dtype, 'columns', 'columns of the hit table', got=str(r.dtype), **det)
        ctx.expect(len(r) == len(w) and np.array_equal(r, w), 'rows', 'hits of the output file are not those of the plane', got=r[:5], want=w[:5], n=[len(r), len(w)], name=os.path.basename(name), **det)
        ctx.ok(1, rows=len(w))
    ctx.expect(open(f, 'rb').read() == text, 'input', 'input file was changed', **det)
    ctx.count(**{kind: 1})
    if chunk < n and case['mode'] != 'whole':
        ctx.count(chunked=1)
        ctx.interesting(kind, n, chunk, ids)
    if ctx.index == 0:
        ctx.sample = dict(det, first=want[0][:3])
