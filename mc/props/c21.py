"""C21: reading forecast files and writing grid files."""
import hashlib
import itertools
import os

import numpy as np
import xarray as xr
from netCDF4 import Dataset

from mc import env
from PyAnEn import IO, Grid

BOUNDS = {'quick': 'all 3^6 combinations of (dimension absent, without, with companion variable) for the six dimensions (lengths 1 to 12), root / group / nested group, decoded or not; all pairs of names over an 11 word alphabet with 2 paddings; '
                   'all matrices up to 2x2 over 11 special values and up to 1x4 over 5, 5 element types, memory layouts, rows and columns to 5000; all rank names of an alphabet, to 5000 stations and rank 10^7; 6 time variables x 7 stored units x number types x attributes',
          'thorough': 'as quick with all orders of definition, 2x3 matrices over 5 values, dimension lengths 1..3 and missing value attributes'}

DIMS = ['num_flts', 'num_parameters', 'num_stations', 'num_test_times', 'num_search_times', 'num_times']
COMPANION = {'num_flts': 'FLTs', 'num_parameters': 'ParameterNames', 'num_test_times': 'test_times',
             'num_search_times': 'search_times', 'num_times': 'Times', 'num_stations': 'StationNames'}
LEN = {'num_flts': 3, 'num_parameters': 2, 'num_stations': 4, 'num_test_times': 5, 'num_search_times': 6, 'num_times': 7}
TIME_DIMS = ('num_test_times', 'num_search_times', 'num_times')
GROUPS = [None, 'Forecasts', 'Outer/Inner']
WORDS = ['', 'a', 'ab', 'a b', 'Temperature', 'x1', ' c', 'a_', '_', 'x.0-', 'A']
SPECIAL = [0.0, -0.0, float('nan'), float('inf'), float('-inf'), 0.1, 1 / 3, -1e300, 5e-324, 123456789.123456789, -7.0]


def cases(tier):
    for combo in itertools.product((0, 1, 2), repeat=len(DIMS)):
        if tier == 'quick':
            yield {'part': 'open', 'combo': list(combo), 'reverse': False, 'k': 0}
        else:
            for reverse in (False, True):
                for k in (0, 1):
                    yield {'part': 'open', 'combo': list(combo), 'reverse': reverse, 'k': k}
        if 1 not in combo:          # every dimension of length one, and long ones
            for k in (2, 3):
                yield {'part': 'open', 'combo': list(combo), 'reverse': False, 'k': k}
    for pad in ('\0', ' '):
        for w in WORDS:
            yield {'part': 'names', 'pad': pad, 'first': w}
    for n in (1, 2, 3, 5):
        yield {'part': 'stations', 'n': n}
    for name in ('Rank0.nc', 'Rank3.nc', 'Rank03.nc', 'AnEn_Rank12_out.nc', 'pre5_Rank7.nc', 'Rank10.v2.nc'):
        yield {'part': 'rank', 'name': name}
    yield {'part': 'ranksort'}
    yield {'part': 'rankbad'}
    for i in range(len(SPECIAL)):
        yield {'part': 'matrix', 'shape': [2, 2], 'first': i, 'small': False}
    for shape in ([1, 1], [1, 2], [2, 1], [1, 3], [3, 1]):
        yield {'part': 'matrix', 'shape': shape, 'first': None, 'small': False}
    for shape in ([1, 4], [4, 1]) + (([2, 3], [3, 2]) if tier != 'quick' else ()):
        yield {'part': 'matrix', 'shape': shape, 'first': None, 'small': True}
    yield {'part': 'layout'}
    yield {'part': 'overwrite'}
    for shape in ([3, 499], [2, 500], [1, 1000], [2, 1001], [1, 5000], [1001, 2], [5000, 1], [40, 300], [300, 40]) + (([1, 20001], [20001, 1], [600, 700]) if tier != 'quick' else ()):
        yield {'part': 'large', 'shape': shape}
    for var in TIMES:
        for units in UNITS:
            yield {'part': 'units', 'var': var, 'units': units}
    for n in (13, 50, 100, 101, 150, 999, 1000, 1200, 5000) + ((20000, 100000) if tier != 'quick' else ()):
        yield {'part': 'manystations', 'n': n}


TIMES = {'test_times': 'num_test_times', 'search_times': 'num_search_times', 'Times': 'num_times',
         'num_test_times': 'num_test_times', 'num_search_times': 'num_search_times', 'num_times': 'num_times'}
UNITS = [None, 'seconds since 1970-01-01', 'hours since 1970-01-01', 'seconds since 1900-01-01 00:00:00', 'days since 2000-01-01', 's', '']


def run_case(case, ck):
    globals()['run_' + case['part']](case, ck)


# --- opening ------------------------------------------------------------------------------------------------

def values_of(dim, n, k):
    rng = np.arange(n)
    if dim == 'num_flts':
        return (rng * 3600.0 * (1 + k)).astype('f8')
    if dim == 'num_parameters':
        return ['par%d' % (i * 7 % 5 + k) * (1 + i) for i in rng]
    if dim == 'num_stations':
        return ['st' + 'x' * int(n - i) + str(i + k) for i in rng]
    base = {'num_test_times': 1500000000, 'num_search_times': 1400000000, 'num_times': 946684800}[dim]
    return (base + rng[::-1] * 86400 + 3600 * rng + k).astype('i8')


def put_names(g, var, dim, names, width, pad='\0', attrs=()):
    v = g.createVariable(var, 'S1', (dim, 'num_chars'))
    mat = np.array([[c.encode() for c in nm.ljust(width, pad)] for nm in names], dtype='S1').reshape(len(names), width)
    v[:] = mat
    for a in attrs:
        v.setncattr(*a)


def write(path, group, combo, k, reverse):
    """Writes the file and returns what was stored: {name: (dims, values)}"""
    stored, attrs = {}, {}
    order = list(zip(DIMS, combo))
    if reverse:
        order.reverse()
    with Dataset(path, 'w') as nc:
        g = nc if group is None else nc.createGroup(group)
        if group is not None:                                   # decoys: same names elsewhere in the file
            nc.createDimension('num_flts', 2)
            nc.createVariable('FLTs', 'f8', ('num_flts',))[:] = [-1.0, -2.0]
            nc.createDimension('num_stations', 1)
            nc.createVariable('Xs', 'f8', ('num_stations',))[:] = [-99.0]
        g.setncattr('title', 'file %d' % k)
        present = [d for d, c in order if c]
        if 'num_parameters' in present or 'num_stations' in present:
            g.createDimension('num_chars', 40)
        length = {d: LEN[d] if k == 0 else 1 + (LEN[d] + k) % 3 if k == 1 else 1 if k == 2 else 5 + LEN[d] for d in DIMS}
        for d in present:
            g.createDimension(d, length[d])
        for d, c in order:
            if not c:
                continue
            n = length[d]
            vname = 'data_' + d
            v = g.createVariable(vname, 'f8', (d,))
            v[:] = 0.1 * np.arange(n) - DIMS.index(d)
            v.setncattr('note', 'about ' + d)
            stored[vname] = ((d,), np.array(v[:]))
            if c == 2:
                vals = values_of(d, n, k)
                name = COMPANION[d]
                if d in ('num_parameters', 'num_stations'):
                    put_names(g, name, d, vals, 40)
                else:
                    g.createVariable(name, vals.dtype, (d,))[:] = vals
                stored[name] = ((d,), vals)
        if len(present) > 1:
            shape = tuple(length[d] for d in present)
            arr = (np.arange(int(np.prod(shape))) * 17 % 1009).astype('f4').reshape(shape)
            arr.flat[0], arr.flat[-1] = np.nan, -1.5e30
            g.createVariable('Cube', 'f4', tuple(present))[:] = arr
            stored['Cube'] = (tuple(present), arr)
        if 'num_stations' in present:
            for nm, s in (('Xs', -1.0), ('Ys', 1.0)):
                xy = s * (50 + np.arange(length['num_stations']) * 3 % 7 / 3)
                g.createVariable(nm, 'f8', ('num_stations',))[:] = xy
                stored[nm] = (('num_stations',), xy)
        g.createVariable('scalar', 'i4', ())[...] = 42 + k
        stored['scalar'] = ((), np.int32(42 + k))
    return stored


def same(got, want):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return False
    if want.dtype.kind in 'US':
        return [str(x) for x in got.ravel()] == [str(x) for x in want.ravel()]
    return got.dtype == want.dtype and np.array_equal(got, want, equal_nan=want.dtype.kind == 'f')


def run_open(case, ck):
    d = env.scratch('nc')
    for group in GROUPS:
        path = os.path.join(d, 'f.nc')
        stored = write(path, group, case['combo'], case['k'], case['reverse'])
        before = hashlib.sha256(open(path, 'rb').read()).hexdigest()
        for decode in (False, True):
            with IO.open_dataset(path, group=group, decode=decode) as ds:
                ds.load()
                ck.step()
                one_open(ck, case, ds, stored, decode)
            ck.state(group, decode)
            ck.outcome((tuple(case['combo']), decode, tuple(sorted(ds.variables))))
        ck.check(hashlib.sha256(open(path, 'rb').read()).hexdigest() == before, 'reading changed the file')
        os.unlink(path)
    ck.trace('open', case)


def one_open(ck, case, ds, stored, decode):
    dims = {d for d, c in zip(DIMS, case['combo']) if c}
    rename = 'num_test_times' in dims and 'num_times' not in dims
    new = lambda n: 'num_times' if rename and n == 'num_test_times' else n
    ck.check(ds.attrs.get('title') == 'file %d' % case['k'], 'attributes of the file', got=ds.attrs)
    for name, (vdims, vals) in stored.items():
        ck.check(name in ds, 'a variable is missing', name=name, got=list(ds.variables))
        ck.check(ds[name].dims == tuple(new(x) for x in vdims), 'dimensions of a variable', name=name, got=ds[name].dims)
        check_values(ck, name, ds[name].values, vals, decode and name in ('test_times', 'search_times', 'Times'))
        if name.startswith('data_'):
            ck.check(ds[name].attrs.get('note') == 'about ' + vdims[0], 'attributes of a variable', name=name, got=ds[name].attrs)
        if name in ('test_times', 'search_times', 'Times'):
            check_units(ck, name, ds[name], decode)
    want = {new(d) for d in dims}
    got = set(ds.sizes) - {'num_chars'}
    ck.check(got == want, 'dimensions', got=sorted(got), want=sorted(want))
    for d, c in zip(DIMS, case['combo']):
        if d == 'num_stations' or c != 2:
            if c and d != 'num_stations':
                ck.check(new(d) not in ds.coords, 'a coordinate without companion variable', dim=d)
            continue
        ck.check(new(d) in ds.coords and ds.coords[new(d)].dims == (new(d),), 'coordinate of a dimension', dim=d, got=list(ds.coords))
        check_values(ck, new(d), ds.coords[new(d)].values, stored[COMPANION[d]][1], decode and d in TIME_DIMS)
        if d in TIME_DIMS:
            check_units(ck, new(d), ds[new(d)], decode)
    extra = set(ds.variables) - set(stored) - {new(d) for d, c in zip(DIMS, case['combo']) if c == 2}
    ck.check(not extra, 'variables that were not stored', got=sorted(extra))


def check_values(ck, name, got, want, as_time):
    if as_time:
        ck.check(np.asarray(got).dtype.kind == 'M', 'times are not decoded', name=name, dtype=np.asarray(got).dtype)
        got, want = np.asarray(got).astype('M8[s]').astype('i8'), np.asarray(want).astype('i8')
    ck.check(same(got, want), 'values differ from the stored ones', name=name, got=got, want=want)


def check_units(ck, name, var, decode):
    units = var.encoding.get('units') if decode else var.attrs.get('units')
    ck.check(str(units).startswith('seconds since 1970-01-01'), 'units of times', name=name, got=units)


def run_names(case, ck):
    path = os.path.join(env.scratch('nc'), 'n.nc')
    pad = case['pad']
    for second in WORDS:
        for third in (None, 'zz', WORDS[2]):
            names = [case['first'], second] + ([third] if third is not None else [])
            for width in sorted({max(1, max(map(len, names))), 12}):
                with Dataset(path, 'w') as nc:
                    nc.createDimension('num_chars', width)
                    nc.createDimension('num_parameters', len(names))
                    nc.createDimension('num_stations', len(names))
                    put_names(nc, 'ParameterNames', 'num_parameters', names, width, pad)
                    put_names(nc, 'StationNames', 'num_stations', names[::-1], width, pad)
                for decode in (False, True):
                    with IO.open_dataset(path, decode=decode) as ds:
                        got = [str(x) for x in ds['ParameterNames'].values], [str(x) for x in ds['num_parameters'].values], [str(x) for x in ds['StationNames'].values]
                    ck.step()
                    want = [n.ljust(width) for n in names] if pad == ' ' else names
                    ck.check(got == (want, want, want[::-1]), 'names', got=got, want=want, width=width)
                    ck.state(second, third, width, decode)
                    ck.outcome(tuple(names))
    ck.trace('names', case)


def run_stations(case, ck):
    n = case['n']
    path = os.path.join(env.scratch('nc'), 's.nc')
    orders = list(itertools.permutations(range(n))) if n <= 3 else [tuple((i * 3) % n for i in range(n)), tuple(range(n))[::-1]]
    for order in orders:
        for group in GROUPS:
            for names in (('Xs', 'Ys'), ('lon', 'lat')):
                x, y = 10.0 + np.array(order) / 3, -np.array(order[::-1]) * 0.1
                with Dataset(path, 'w') as nc:
                    g = nc if group is None else nc.createGroup(group)
                    g.createDimension('num_stations', n)
                    for nm, v in (('Xs', x), ('Ys', y)):
                        g.createVariable(nm, 'f8', ('num_stations',))[:] = v if names[0] == 'Xs' else v + 1000
                    if names[0] != 'Xs':
                        g.createVariable(names[0], 'f8', ('num_stations',))[:] = x
                        g.createVariable(names[1], 'f8', ('num_stations',))[:] = y
                kw = {} if group is None else {'group': group}
                if names[0] != 'Xs':
                    kw.update(var_x=names[0], var_y=names[1])
                gx, gy = Grid.read_station_coordinates(path, **kw)
                ck.step()
                ck.check(same(gx, x) and same(gy, y), 'station coordinates', got=(gx, gy), want=(x, y), group=group)
                ck.state(order, group, names)
                ck.outcome(order)
    # different lengths
    with Dataset(path, 'w') as nc:
        nc.createDimension('num_stations', n)
        nc.createDimension('num_other', n + 1)
        nc.createVariable('Xs', 'f8', ('num_stations',))[:] = 1.0
        nc.createVariable('Ys', 'f8', ('num_other',))[:] = 1.0
    refused(ck, lambda: Grid.read_station_coordinates(path), 'coordinates of different lengths are accepted')
    ck.trace('stations', case)


def refused(ck, f, what, **kw):
    try:
        f()
    except Exception:
        ck.step()
        return
    ck.fail(what, **kw)


def ranked(name, n):
    ds = xr.Dataset({'v': (('num_stations', 'num_times'), np.arange(2.0 * n).reshape(n, 2))})
    ds.encoding['source'] = '/data/Rank999/' + name
    return getattr(IO, '__add_coords__')(ds)


def run_rank(case, ck):
    import re
    start = int(re.search(r'Rank(\d+)', case['name']).group(1))
    for n in range(1, 13):
        ds = ranked(case['name'], n)
        ck.step()
        c = np.asarray(ds.coords['num_stations'].values, dtype=float)
        ck.check(c.shape == (n,), 'one index per station', got=c.shape)
        ck.check(np.all(c >= start) and np.all(c < start + 1), 'indices outside the range of the rank', got=c, rank=start)
        ck.check(np.all(np.diff(c) > 0), 'indices do not keep the order of the stations', got=c)
        ck.check(same(ds['v'].values, np.arange(2.0 * n).reshape(n, 2)), 'values of the stations')
        ck.state(n)
        ck.outcome((case['name'], n))
    ck.trace('rank', case)


def run_ranksort(case, ck):
    """concatenation of the files in any order, then sorting by index"""
    for sizes in itertools.product((1, 2, 3), repeat=3):
        for ranks in itertools.permutations((0, 2, 10)):
            parts = {r: ranked('AnEn_Rank%02d.nc' % r, n) for r, n in zip(ranks, sizes)}
            idx = [(float(c), r, i) for r in ranks for i, c in enumerate(parts[r].coords['num_stations'].values)]
            ck.step(3)
            ck.check([x[1:] for x in sorted(idx)] == sorted(x[1:] for x in idx), 'indices do not sort by rank and position', got=idx)
            ck.state(sizes, ranks)
            ck.outcome(sizes)
    ck.trace('ranksort', case)


def run_rankbad(case, ck):
    for name in ('file.nc', 'rank3.nc', 'Rank.nc', '12.nc'):
        refused(ck, lambda: ranked(name, 3), 'a file name without rank is accepted', name=name)
        ck.state(name)
    ds = xr.Dataset({'v': (('other',), np.arange(3.0))})
    ds.encoding['source'] = 'Rank1.nc'
    refused(ck, lambda: getattr(IO, '__add_coords__')(ds), 'a file without stations is accepted')
    ck.trace('rankbad', case)


# --- writing ------------------------------------------------------------------------------------------------

def parse(ck, text, shape, **kw):
    rows = text.split('\n')
    ck.check(rows[0] == '[%d, %d]' % shape, 'dimension line', got=rows[0], **kw)
    ck.check(rows[1] == '(' and rows[-1] == ')' and len(rows) == shape[0] + 3, 'brackets and number of lines', got=text, **kw)
    out = []
    for r in rows[2:-1]:
        ck.check(r.startswith('(') and r.endswith('),'), 'form of a row', got=r, **kw)
        out.append(r[1:-2].split(', '))
        ck.check(len(out[-1]) == shape[1], 'number of values in a row', got=r, **kw)
    return out


def exact(text, value):
    """the text denotes this very value"""
    if np.isnan(value):
        return text == 'nan'
    if np.asarray(value).dtype.kind in 'iu':
        return float(text) == float(value) and int(float(text)) == int(value) if abs(int(value)) < 2 ** 53 else int(text) == int(value)
    back = np.asarray(value).dtype.type(text)
    return back == value and np.signbit(back) == np.signbit(value)


def write_one(ck, path, mat, overwrite=True, **kw):
    keep = mat.copy()
    Grid.write_matrix(path, mat, overwrite=overwrite)
    ck.step()
    ck.check(np.array_equal(keep, mat, equal_nan=True), 'the matrix was changed')
    with open(path) as f:
        cells = parse(ck, f.read(), mat.shape, **kw)
    for i in range(mat.shape[0]):
        for j in range(mat.shape[1]):
            ck.check(exact(cells[i][j], mat[i, j]), 'a value is not exact', got=cells[i][j], want=repr(mat[i, j]), at=(i, j), **kw)
    ck.outcome((mat.shape, str(mat.dtype), mat.tobytes()))


def run_matrix(case, ck):
    path = os.path.join(env.scratch('txt'), 'm.txt')
    shape = tuple(case['shape'])
    alpha = [0.1, -0.0, float('nan'), -2.5e-7, float('inf')] if case['small'] else SPECIAL
    n = shape[0] * shape[1]
    head = [] if case['first'] is None else [SPECIAL[case['first']]]
    for i, rest in enumerate(itertools.product(alpha, repeat=n - len(head))):
        write_one(ck, path, np.array(head + list(rest)).reshape(shape))
        ck.state(i)
    ck.trace('matrix', case)


def run_layout(case, ck):
    path = os.path.join(env.scratch('txt'), 'l.txt')
    for shape in itertools.product((1, 2, 3, 11), (1, 2, 3, 23)):
        base = np.arange(shape[0] * shape[1]) * 7.0 / 3 - 2
        for dtype in ('f8', 'f4', 'i8', 'i4', 'u1'):
            m = np.abs(base).astype(dtype).reshape(shape) if dtype == 'u1' else base.astype(dtype).reshape(shape)
            for lay in ('C', 'F', 'T', 'rev', 'step', 'readonly'):
                a = {'C': lambda: m.copy(), 'F': lambda: np.asfortranarray(m), 'T': lambda: m.T, 'rev': lambda: m[::-1, ::-1],
                     'step': lambda: np.repeat(np.repeat(m, 2, 0), 3, 1)[::2, ::3], 'readonly': lambda: m.copy()}[lay]()
                if lay == 'readonly':
                    a.flags.writeable = False
                write_one(ck, path, a, layout=lay, dtype=dtype)
                ck.state(shape, dtype, lay)
    for v in (2 ** 62 + 1, -2 ** 63, 2 ** 53 + 1):
        write_one(ck, path, np.array([[v, 0], [1, -v if v > 0 else 1]], dtype='i8'))
    ck.trace('layout', case)


def run_overwrite(case, ck):
    d = env.scratch('txt')
    mats = [np.array([[1.0]]), np.array([[2.0, 3.5], [4.0, np.nan]]), np.arange(60.0).reshape(6, 10), np.zeros((1, 3))]
    for i, j in itertools.product(range(len(mats)), repeat=2):
        for second in (None, False, True):
            for third in (None, False, True):
                path = os.path.join(d, 'o.txt')
                if os.path.exists(path):
                    os.unlink(path)
                Grid.write_matrix(path, mats[i])
                content = open(path).read()
                ck.step()
                for mode, m in ((second, mats[j]), (third, mats[(i + j + 1) % len(mats)])):
                    if mode:
                        write_one(ck, path, m)
                        content = open(path).read()
                    else:
                        kw = {} if mode is None else {'overwrite': False}
                        refused(ck, lambda: Grid.write_matrix(path, m, **kw), 'an existing file is overwritten without permission')
                        ck.check(open(path).read() == content, 'an existing file was changed without permission')
                ck.state(i, j, second, third)
    for shape in ((3,), (), (1, 2, 3)):
        for exists in (False, True):
            path = os.path.join(d, 'p.txt')
            if exists:
                Grid.write_matrix(path, mats[0], overwrite=True)
                content = open(path).read()
            elif os.path.exists(path):
                os.unlink(path)
            refused(ck, lambda: Grid.write_matrix(path, np.zeros(shape), overwrite=True), 'an array that is not a matrix is accepted', shape=shape)
            ck.check(os.path.exists(path) == exists and (not exists or open(path).read() == content), 'a refused array changed the file', shape=shape)
            ck.state(shape, exists)
    ck.trace('overwrite', case)


def run_large(case, ck):
    """long rows and columns, in the element types, with and without missing values"""
    path = os.path.join(env.scratch('txt'), 'big.txt')
    shape = tuple(case['shape'])
    n = shape[0] * shape[1]
    base = (np.arange(n) * 7919 % 104729 / 3.0 - 9999.9) * 10.0 ** (np.arange(n) % 7 - 3)
    for dtype in ('f8', 'f4', 'i8', 'i4'):
        m = base.astype(dtype).reshape(shape)
        write_one(ck, path, m, dtype=dtype)
        ck.state(dtype)
        if dtype[0] == 'f':
            m.flat[::17] = np.nan
            m.flat[3 % n::29] = np.inf
            m.flat[n // 2] = 1e-30
            write_one(ck, path, m, dtype=dtype)
            write_one(ck, path, np.asfortranarray(m), dtype=dtype)
    ck.trace('large', case)


def run_units(case, ck):
    """times are in seconds since 1970 whatever the file says, including times before 1970 and after 2038"""
    path = os.path.join(env.scratch('nc'), 't.nc')
    var, dim = case['var'], TIMES[case['var']]
    for dtype, vals in (('i8', [-86400 * 400, -1, 0, 1, 1500000000, 4102444800]), ('i4', [-5, 0, 2 ** 31 - 1, 7, 7, 3]),
                        ('f8', [0.5, -0.25, 1.5e9 + 0.125, 3e9, 2.0, 1.0])):
        for extra in ({}, {'long_name': 'when'}, {'calendar': 'standard'}):
            for group in GROUPS:
                with Dataset(path, 'w') as nc:
                    g = nc if group is None else nc.createGroup(group)
                    g.createDimension(dim, len(vals))
                    v = g.createVariable(var, dtype, (dim,))
                    v[:] = np.array(vals, dtype=dtype)
                    if case['units'] is not None:
                        v.setncattr('units', case['units'])
                    for k, x in extra.items():
                        v.setncattr(k, x)
                    g.createVariable('data', 'f8', (dim,))[:] = np.arange(len(vals))
                for decode in (False, True):
                    with IO.open_dataset(path, group=group, decode=decode) as ds:
                        ds.load()
                    ck.step()
                    new = 'num_times' if dim == 'num_test_times' else dim
                    ck.check(ds['data'].dims == (new,) and ds['data'].values.tolist() == list(range(len(vals))), 'values or dimension', got=ds['data'].dims)
                    for name in {var if var in COMPANION.values() else new, new}:
                        ck.check(name in ds.variables, 'times are lost', name=name, got=list(ds.variables))
                        check_units(ck, name, ds[name], decode)
                        got = np.asarray(ds[name].values)
                        if decode:
                            ck.check(got.dtype.kind == 'M', 'times are not decoded', name=name, dtype=got.dtype)
                            ck.check(all(abs(int(a) - x * 1e9) < 2000 for a, x in zip(got.astype('M8[ns]').astype('i8'), vals)), 'decoded times', name=name, got=got, want=vals)
                        else:
                            ck.check(got.dtype == np.dtype(dtype) and got.tolist() == vals, 'stored times', name=name, got=got, want=vals)
                            ck.check('long_name' not in extra or ds[name].attrs.get('long_name') == 'when', 'attributes of times', got=ds[name].attrs)
                    ck.state(dtype, group, decode, str(extra))
    ck.outcome((var, case['units']))
    ck.trace('units', case)


def run_manystations(case, ck):
    n = case['n']
    for rank in (0, 1, 9, 100, 4095, 99999, 123456, 10000000):
        ds = ranked('Out_Rank%d.nc' % rank, n)
        ck.step()
        c = np.asarray(ds.coords['num_stations'].values, dtype=float)
        ck.check(c.shape == (n,) and np.all(c >= rank) and np.all(c < rank + 1), 'indices outside the range of the rank', rank=rank, got=c[[0, -1]])
        ck.check(np.all(np.diff(c) > 0), 'indices do not keep the order of the stations', rank=rank, got=c[:5])
        ck.check(same(ds['v'].values, np.arange(2.0 * n).reshape(n, 2)), 'values of the stations')
        ck.state(rank)
    ck.outcome(n)
    ck.trace('manystations', case)
