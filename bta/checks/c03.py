"""Native and jitted kernels: oracle comparison in-process with canaries around the results, the same workload under
AddressSanitizer+UBSan (native code) and with numba bounds checking (jitted code)."""
import json
import os
import subprocess
import sys

ID = 'C03'
RULE = ('a case is a batch of random kernel calls (sorted event arrays incl. empty, strided, negative, 64 bit; histogram indices in and out of range) '
        'in-process, under ASan+UBSan, or with numba bounds checking; the batch is non-trivial if it contains common events and multi-count bins')
MIN = {'event_kernel_calls': 2000, 'empty_event_arrays': 50, 'guarded_calls': 1000, 'refused_out_of_range': 50, 'jit_calls': 1000,
       'asan_runs': 1, 'boundscheck_runs': 1}
ASSUMPTIONS = ['ASan red zones do not see accesses that land inside another live allocation', 'g++ -fsanitize=address,undefined at -O1']
CASE_TIMEOUT = 240.
_LIB = {}


def cases(seed, tier):
    q = tier == 'quick'
    out = [dict(kind='asan', seed=seed * 1000 + i, n=400 if q else 4000) for i in range(2 if q else 8)]
    out += [dict(kind='boundscheck', seed=seed * 1000 + i, n=150 if q else 1500) for i in range(2 if q else 8)]
    out += [dict(kind='native', seed=seed * 1000 + i, n=150) for i in range(16 if q else 400)]
    return out


def warm():
    from bta import env, kernels
    from beam_telescope_analysis.tools import analysis_utils as au
    from beam_telescope_analysis import analysis_functions as af
    _LIB['plain'] = af.__file__
    _LIB['asan'] = env.build_extension(os.environ['BTAV_SCRATCH'], sanitize=True)
    try:
        kernels.run(['jit', 'lookup'], 1, 2, {}, au, af)
    except Exception:
        pass


def sub(ctx, args, label, **extra_env):
    env = dict(os.environ)
    env.update(extra_env)
    env['PYTHONPATH'] = os.environ['VERIF_ROOT']
    env['NUMBA_CACHE_DIR'] = ctx.path('numba')
    r = subprocess.run([sys.executable, '-W', 'ignore'] + args, env=env, capture_output=True, text=True, cwd=ctx.dir, timeout=230)
    err = r.stderr
    if 'ERROR: AddressSanitizer' in err or 'runtime error:' in err:
        at = err.find('ERROR: AddressSanitizer') if 'ERROR: AddressSanitizer' in err else err.find('runtime error:')
        ctx.violate('sanitizer:%s' % label, err[max(0, at - 100):at + 1500])
    line = [l for l in r.stdout.splitlines() if l.startswith('RESULT ')]
    if not line:
        if r.returncode < 0:
            ctx.violate('crash:%s' % label, 'killed by signal %d: %s' % (-r.returncode, err[-800:]))
        if '/beam_telescope_analysis/' in err and 'Error' in err:
            ctx.violate('exception:%s' % label, err[-1500:])
        raise RuntimeError('no result from subprocess: %s' % err[:1500])
    res = json.loads(line[-1][7:])
    if not res['ok']:
        ctx.violate(res['key'], '%s (%s)' % (res['msg'], label), info=res['detail'])
    ctx.ok(sum(res['stat'].values()), **res['stat'])


def run(case, ctx):
    from bta import kernels
    if case['kind'] == 'asan':
        # libstdc++ has to be there from the start, else ASan cannot intercept C++ exceptions
        asan = ' '.join(subprocess.run(['g++', '-print-file-name=' + so], capture_output=True, text=True).stdout.strip() for so in ('libasan.so', 'libstdc++.so'))
        sub(ctx, ['-m', 'bta.kernels', _LIB['asan'], 'events,hist,guard', str(case['seed']), str(case['n'])], 'native code under ASan/UBSan',
            LD_PRELOAD=asan, ASAN_OPTIONS='detect_leaks=0:halt_on_error=1:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1')
        ctx.count(asan_runs=1)
        ctx.interesting(case)
    elif case['kind'] == 'boundscheck':
        sub(ctx, ['-m', 'bta.kernels', _LIB['plain'], 'jit,lookup', str(case['seed']), str(case['n'])], 'jitted code with bounds checking',
            NUMBA_BOUNDSCHECK='1')
        ctx.count(boundscheck_runs=1)
        ctx.interesting(case)
    elif case['kind'] == 'boundscheck-tracks':
        sub(ctx, ['-m', 'bta.jit_tracks', _LIB['plain'], str(case['seed']), str(case['n'])], 'jitted track code with bounds checking', NUMBA_BOUNDSCHECK='1')
        ctx.count(boundscheck_track_runs=1)
        ctx.interesting(case)
    else:
        from beam_telescope_analysis.tools import analysis_utils as au
        from beam_telescope_analysis import analysis_functions as af
        stat = {}
        try:
            with ctx.sut('kernel', allow=(kernels.Bad,)):
                kernels.run(['events', 'hist', 'jit', 'lookup', 'guard'], case['seed'], case['n'], stat, au, af)
                if case['seed'] % 5 == 0:
                    kernels.run(['saturation'], case['seed'], 1, stat, au, af)
        except kernels.Bad as e:
            ctx.violate(e.key, str(e), **e.detail)
        ctx.ok(sum(stat.values()), **stat)
        if stat.get('pairs', 0) > 20:
            ctx.interesting(case)
            ctx.sample = stat
