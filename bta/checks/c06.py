"""Telescope configuration: histories of add/modify/replace/save/load on real files against a model of the telescope."""
import copy

import numpy as np
import yaml

ID = 'C06'
RULE = 'a case is a history of 4 to 15 operations on a telescope (add, modify, replace, save, save keeping other entries, load); non-trivial: at least two saves and two sensor types'
MIN = {'loads': 100, 'saves': 100, 'keep_others': 30, 'refused': 200, 'empty': 60}
TYPES = ['RectangularPixelDut', 'RectangularPixelDutWithDoubleColumns', 'FEI4', 'RD53A', 'RD53A_8x8', 'ITkPix', 'ITkPix_8x8', 'TJMonopix1', 'TJMonopix1_2x2', 'PSI46',
         'Mimosa26', 'DepfetH5z85', 'DepfetH5z55', 'Timepix3', 'ScatteringPlane', 'Diamond3DpCVD', 'DiamondPseudo3DpCVD']
BASE = ['name', 'translation_x', 'translation_y', 'translation_z', 'rotation_alpha', 'rotation_beta', 'rotation_gamma', 'x_limit', 'y_limit', 'material_budget', 'intrinsic_resolution']
MATRIX = ['column_size', 'row_size', 'n_columns', 'n_rows']
DIM = dict(FEI4=(250., 50., 80, 336), RD53A=(50., 50., 400, 192), RD53A_8x8=(50., 50., 400, 192), ITkPix=(50., 50., 400, 384),
           ITkPix_8x8=(50., 50., 400, 384), TJMonopix1=(40., 36., 112, 224), TJMonopix1_2x2=(40., 36., 112, 224), PSI46=(150., 100., 52, 80),
           Mimosa26=(18.4, 18.4, 1152, 576), DepfetH5z85=(50., 85., 64, 64), DepfetH5z55=(50., 55., 64, 64), Timepix3=(55., 55., 256, 256),
           Diamond3DpCVD=(250., 50., 80, 336), DiamondPseudo3DpCVD=(250., 50., 80, 336))


def cases(seed, tier):
    return [dict(seed=seed * 104729 + i) for i in range(160 if tier == 'quick' else 4000)]


def warm():
    from beam_telescope_analysis.telescope import telescope  # noqa


def number(rng):
    v = [0., -0., 1e-7, 1e22, 3.14159, rng.normal(), rng.normal() * 10. ** int(rng.integers(-12, 12)), float(rng.integers(-9, 9)), 1 / 3., np.nextafter(1, 2), np.pi]
    v = float(v[int(rng.integers(len(v)))])
    form = int(rng.integers(4))
    return v if form < 2 else np.float64(v) if form == 2 else str(v) if False else v


def limit(rng):
    if rng.random() < .4:
        return None
    v = [number(rng), number(rng)]
    form = int(rng.integers(3))
    return v if form == 0 else tuple(v) if form == 1 else np.array(v)


def norm(key, v):
    """Value the attribute is documented to take."""
    if key in ('x_limit', 'y_limit'):
        return None if v is None else (min(float(a) for a in v), max(float(a) for a in v))
    if key == 'intrinsic_resolution':
        return None if v is None else (float(v[0]), float(v[1]))
    if key == 'material_budget':
        return 0. if v is None else float(v)
    if key == 'name':
        return str(v)
    if key in ('n_columns', 'n_rows'):
        return int(v)
    if key == 'sensor_position':
        return (int(v[0]), int(v[1]))
    return float(v)


def value(rng, key):
    if key == 'name':
        return str(rng.choice(['DUT', 'a: b', '1', 'null', '- x', 'tel # 1', 'ümläut', 'yes', '1e3', '', 'x\ny', "quote's", '{}', '0x10', 'M26_%d' % rng.integers(9)]))
    if key in ('x_limit', 'y_limit'):
        return limit(rng)
    if key == 'intrinsic_resolution':
        return None if rng.random() < .4 else (number(rng), number(rng))
    if key == 'material_budget':
        return number(rng)
    if key in ('n_columns', 'n_rows'):
        return int(rng.integers(1, 2000)) if rng.random() < .7 else np.int64(rng.integers(1, 2000))
    if key == 'sensor_position':
        return [int(rng.integers(1, 60)), int(rng.integers(1, 250))]
    if key in ('column_size', 'row_size'):
        return float(rng.uniform(.1, 500))
    return number(rng)


def keys_of(kind):
    k = list(BASE)
    if kind.startswith('Rectangular'):
        k += MATRIX
    if kind.startswith('Diamond'):
        k.append('sensor_position')
    return k


def make(rng, kind):
    """Arguments and the model of the sensor."""
    kw, model = {}, {}
    for k in keys_of(kind):
        optional = k in ('x_limit', 'y_limit', 'material_budget', 'intrinsic_resolution', 'name')
        if optional and rng.random() < .4:
            model[k] = None if k not in ('material_budget',) else 0.
            if k == 'intrinsic_resolution' and kind == 'Mimosa26':
                model[k] = (3.5, 3.5)
            continue
        kw[k] = value(rng, k)
        model[k] = norm(k, kw[k])
    if kind in DIM:
        model.update(zip(MATRIX, DIM[kind]))
    return kw, model


def eq(a, b):
    return type(a) is type(b) and (a == b if not isinstance(a, float) else (a == b and np.signbit(a) == np.signbit(b)))


def check_telescope(ctx, tel, model, key, where):
    ids = sorted(model['dut'])
    ctx.expect(sorted(tel.dut) == ids and len(tel) == len(ids), key + ':ids', '%s: sensors %s, expected %s' % (where, sorted(tel.dut), ids))
    ctx.expect([d.name for d in tel] == [model['dut'][i][1]['name'] for i in ids] and tel.dut_names == [model['dut'][i][1]['name'] for i in ids], key + ':order', '%s: sensors not in order of their number' % where)
    for i in ids:
        kind, par = model['dut'][i]
        ctx.expect(type(tel[i]).__name__ == kind, key + ':type', '%s: sensor %d is a %s, expected %s' % (where, i, type(tel[i]).__name__, kind))
        for k, v in par.items():
            got = getattr(tel[i], k)
            ctx.expect(eq(got, v), key + ':parameter:' + k, '%s: %s of sensor %d (%s) is %r, expected %r' % (where, k, i, kind, got, v))
    for k, v in model['tel'].items():
        ctx.expect(eq(getattr(tel, k), v), key + ':telescope', '%s: telescope %s is %r, expected %r' % (where, k, getattr(tel, k), v))


def plain(o):
    if isinstance(o, dict):
        return {k: plain(v) for k, v in o.items()}
    return [plain(v) for v in o] if isinstance(o, (list, tuple)) else o


def content(model):
    return dict(dict(model['tel']), DUT={i: plain(dict({k: v for k, v in p.items() if k in keys_of(kind)}, dut_type=kind)) for i, (kind, p) in model['dut'].items()})


def run(case, ctx):
    from beam_telescope_analysis.telescope import dut as dm
    from beam_telescope_analysis.telescope.telescope import Telescope
    rng = ctx.rng
    tattr = ['translation_x', 'translation_y', 'translation_z', 'rotation_alpha', 'rotation_beta', 'rotation_gamma']
    tkw = {k: number(rng) for k in tattr if rng.random() < .4}
    with ctx.sut('new telescope'):
        tel = Telescope(**tkw)
    model = dict(dut={}, tel={k: float(tkw.get(k, 0.)) for k in tattr})
    files = {}      # file -> (model, other entries)
    ops, kinds = [], set()

    def add(i):
        kind = str(rng.choice(TYPES))
        kw, par = make(rng, kind)
        if 'name' not in kw:
            par['name'] = 'DUT%d' % i
        before = copy.deepcopy(kw)
        with ctx.sut('add_dut'):
            tel.add_dut(kind if rng.random() < .7 else getattr(dm, kind), i, **kw)
        ctx.expect(repr(before) == repr(kw), 'arguments-changed', 'add_dut changed its arguments')
        model['dut'][i] = (kind, par)
        kinds.add(kind)

    for i in (range(int(rng.integers(1, 13))) if rng.random() < .8 else [int(v) for v in rng.choice(40, 5, replace=False)]):
        add(i)
    for _ in range(int(rng.integers(4, 15))):
        op = str(rng.choice(['modify', 'modify', 'replace', 'add', 'save', 'save', 'keep', 'load', 'bad', 'from_dut', 'tel']))
        ops.append(op)
        ids = sorted(model['dut'])
        i = int(rng.choice(ids))
        kind, par = model['dut'][i]
        if op == 'modify':
            k = str(rng.choice(keys_of(kind)))
            v = value(rng, k)
            with ctx.sut('set attribute'):
                setattr(tel[i], k, v)
            par[k] = norm(k, v)
        elif op == 'tel':
            k = str(rng.choice(tattr))
            v = number(rng)
            with ctx.sut('set telescope attribute'):
                setattr(tel, k, v)
            model['tel'][k] = float(v)
        elif op == 'replace':
            add(i)
        elif op == 'add':
            add(int(rng.integers(0, 60)))
        elif op == 'from_dut':
            # copy of a sensor with another place, as used in scripts
            if not kind.startswith('Diamond'):
                z = number(rng)
                with ctx.sut('from_dut'):
                    new = type(tel[i]).from_dut(tel[i], translation_z=z)
                    tel[i] = new
                model['dut'][i] = (kind, dict(par, translation_z=float(z)))
        elif op == 'bad':
            bad = [('no_such', 1), ('translation_x', 'abc'), ('rotation_alpha', None), ('x_limit', 5.), ('intrinsic_resolution', 4.), ('intrinsic_resolution', (1.,)), ('y_limit', ('a', 'b')), ('__dict__x', 1), ('material_budget', 'x')]
            if kind in DIM:
                bad += [('n_columns', 5), ('column_size', 3.)]
            for k, v in bad:
                try:
                    setattr(tel[i], k, v)
                except (ValueError, TypeError, IndexError, AttributeError):
                    ctx.ok(1, refused=1)
                else:
                    ctx.violate('invalid-accepted:' + k, 'sensor of type %s accepted %s=%r' % (kind, k, v))
            for f in (lambda: tel.add_dut('FEI4', '1', translation_x=0), lambda: tel.add_dut('NoSuchDut', 99), lambda: tel.__setitem__(3, 'x'), lambda: tel.add_dut(7, 99)):
                try:
                    f()
                except Exception:
                    ctx.ok(1, refused=1)
                else:
                    ctx.violate('invalid-accepted:dut', 'telescope accepted an invalid sensor')
            check_telescope(ctx, tel, model, 'refused-but-changed', 'after refused input')
        elif op in ('save', 'keep'):
            path = ctx.path('tel_%d.yaml' % rng.integers(3))
            keep = op == 'keep'
            if keep and path not in files or rng.random() < .2:
                # the file has foreign entries
                other = {'OTHER': {'a': 1, 'b': [1., 2.]}, 'NOTE': 'x', 'TELESCOPE': {'comment': 'keep me', 'DUT': {77: {'dut_type': 'FEI4'}}}}
                with open(path, 'w') as f:
                    yaml.safe_dump(other, f)
                files[path] = None, {'OTHER': other['OTHER'], 'NOTE': 'x'}, {'comment': 'keep me'}
            with ctx.sut('save_configuration'):
                tel.save_configuration(path, keep_others=keep)
            old = files.get(path) if keep else None
            o, t = (old[1], old[2]) if old else ({}, {})
            files[path] = copy.deepcopy(model), o, t
            got = yaml.safe_load(open(path))
            want = dict(o, TELESCOPE=dict(t, **content(model)))
            ctx.expect(got == want, 'file-content', 'content of the saved configuration', got=got, want=want, keep_others=keep)
            ctx.ok(0, saves=1, keep_others=keep and bool(o))
        elif op == 'load':
            for path, (m, o, t) in list(files.items()):
                if m is None:
                    continue
                text = open(path).read()
                with ctx.sut('load_configuration'):
                    new = Telescope(path)
                check_telescope(ctx, new, m, 'loaded', 'loaded telescope')
                ctx.expect(open(path).read() == text, 'load-writes', 'loading changed the file')
                with ctx.sut('save_configuration'):
                    new.save_configuration(ctx.path('again.yaml'))
                got = yaml.safe_load(open(ctx.path('again.yaml')))
                ctx.expect(got == {'TELESCOPE': content(m)}, 'save-after-load', 'saving a loaded telescope writes different content', got=got, want=content(m))
                ctx.count(loads=1)
                if rng.random() < .3:
                    tel, model = new, copy.deepcopy(m)
                    if rng.random() < .5:
                        with ctx.sut('save without name'):
                            tel.save_configuration()      # writes to the file last used
                    files[path] = (copy.deepcopy(m),) + (({}, {}) if 'OTHER' not in yaml.safe_load(open(path)) else (o, t))
        check_telescope(ctx, tel, model, 'state', 'after %s' % op)
    # a telescope without sensors, next to other entries or in a new file
    path = ctx.path('empty.yaml')
    there = rng.random() < .7
    if there:
        with open(path, 'w') as f:
            yaml.safe_dump({'OTHER': [1, 2], 'TELESCOPE': {'DUT': {3: {'dut_type': 'FEI4'}}, 'comment': 'c'}}, f)
    with ctx.sut('save_configuration'):
        Telescope(**tkw).save_configuration(path, keep_others=True)
        again = Telescope(path)
    base = {k: float(tkw.get(k, 0.)) for k in tattr}
    got, want = yaml.safe_load(open(path)), {'OTHER': [1, 2], 'TELESCOPE': dict(base, DUT={}, comment='c')} if there else {'TELESCOPE': dict(base, DUT={})}
    ctx.expect(got == want, 'empty', 'saved telescope without sensors', got=got, want=want)
    check_telescope(ctx, again, dict(dut={}, tel=base), 'empty', 'telescope without sensors')
    ctx.count(empty=1)
    if len(kinds) > 1 and ops.count('save') + ops.count('keep') > 1:
        ctx.interesting(ops, sorted(kinds))
    if ctx.index == 0:
        ctx.sample = dict(ops=ops, kinds=sorted(kinds))
