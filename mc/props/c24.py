"""C24: combining the files of a parallel run.

The real IO.open_mfdataset and the real xarray.open_mfdataset run; dask, which is not installed, is replaced by a
controlled stand-in: files are read without chunks, and delayed tasks run in an order chosen by the explorer."""
import itertools
import os
import sys
import types

import numpy as np
import xarray as xr
from netCDF4 import Dataset
from xarray.backends import api

from mc import env, execs
from PyAnEn import IO

BOUNDS = {'quick': 'all sets of 1-3 of the ranks 0, 1, 2, 9, 10, 11, 100, four spellings of the file names, 1-3 stations per file, all orders of the path list and patterns; root, group and nested group, with and without locations and times in the group; decoded or not; all orders in which three files can be opened; to 1200 stations per file, ranks to 10^6, 101 files, other stored units',
          'thorough': 'as quick with 4 files and all station counts'}
ASSUMPTIONS = ['dask is replaced by a stand-in that executes delayed tasks eagerly in the explored order and loads data without chunks']

RANKS = (0, 1, 2, 9, 10, 11, 100)
NAMES = ['AnEn_Rank%d.nc', 'AnEn_Rank%05d.nc', '%dout_Rank%d_x.nc', 'Rank3_run/Rank17/AnEn_Rank%d.nc']
GROUPS = [None, 'Analogs', 'Outer/Inner']


class Delayed:
    def __init__(self, f, a, k):
        self.f, self.a, self.k, self.done = f, a, k, False

    def ready(self):
        return all(x.done for x in list(self.a) + list(self.k.values()) if isinstance(x, Delayed))

    def run(self):
        get = lambda x: x.value if isinstance(x, Delayed) else x
        self.value = self.f(*[get(x) for x in self.a], **{k: get(x) for k, x in self.k.items()})
        self.done = True


def tasks_of(x, out):
    if isinstance(x, Delayed):
        for y in list(x.a) + list(x.k.values()):
            tasks_of(y, out)
        if x not in out:
            out.append(x)
    elif isinstance(x, (list, tuple)):
        for y in x:
            tasks_of(y, out)
    return out


CHOOSER = None
RAN = [0]


def compute(*args, **kw):
    todo = tasks_of(args, [])
    while todo:
        # only opening the files is reordered: everything else follows as soon as it can
        free = [t for t in todo if t.ready()]
        quick = [t for t in free if not getattr(t.f, 'MC', False)]
        t = quick[0] if quick else free[CHOOSER.choose(len(free)) if CHOOSER else 0]
        t.run()
        RAN[0] += 1
        todo.remove(t)
    force = lambda x: x.value if isinstance(x, Delayed) else type(x)(force(y) for y in x) if isinstance(x, (list, tuple)) else x
    return tuple(force(a) for a in args)


def install():
    if 'dask' in sys.modules and not getattr(sys.modules['dask'], 'MC', False):
        raise RuntimeError('dask is installed: the stand-in is not meant for this')
    m = types.ModuleType('dask')
    m.MC = True
    m.delayed = lambda f, **kw: (lambda *a, **k: Delayed(f, a, k))
    m.compute = compute
    sys.modules['dask'] = m
    if not getattr(api.open_dataset, 'MC', False):
        real = api.open_dataset

        def open_dataset(path, chunks=None, **kw):
            return real(path, chunks=None, **kw)
        open_dataset.MC = True
        api.open_dataset = open_dataset


def cases(tier):
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for ranks in itertools.combinations(RANKS, n):
            for name in range(len(NAMES)):
                if name == 1 and max(ranks) < 9:
                    continue
                yield {'part': 'sets', 'ranks': list(ranks), 'name': name}
    for ranks in ([0, 2, 10], [11, 9, 100]):
        for group in range(len(GROUPS)):
            yield {'part': 'orders', 'ranks': ranks, 'group': group}
    for group in range(len(GROUPS)):
        for own_xy in (False, True):
            for own_t in (False, True):
                for both in (False, True):
                    if group == 0 and not (own_xy and own_t):
                        continue
                    yield {'part': 'contents', 'group': group, 'own_xy': own_xy, 'own_t': own_t, 'both': both}
    yield {'part': 'single'}
    for counts in ([12, 150, 1200], [11, 1, 101], [1000, 999, 3], [300, 2, 10]):
        for ranks in ([0, 1, 2], [10, 9, 100], [100000, 3, 99999], [1234567, 1234568, 1234566]):
            yield {'part': 'many', 'ranks': ranks, 'counts': counts}
    for n in (12, 101) if tier == 'quick' else (12, 101, 400):
        yield {'part': 'files', 'n': n}
    for units in (None, 'hours since 1970-01-01', 'seconds since 1900-01-01', ''):
        yield {'part': 'units', 'units': units}


def xy(rank, n):
    return 1000.0 * rank + np.arange(n)[::-1] / 3, -np.arange(n) * 0.25 - rank


def cube(rank, n):
    return (rank * 1000 + np.arange(2 * 3 * n)).astype('f8').reshape(2, 3, n)


T0 = np.array([1500000000, 1500086400, 1500172800], dtype='i8')
FLT = np.array([0, 10800], dtype='i8')


def write(path, rank, n, group, own_xy=True, own_t=True, both=False):
    with Dataset(path, 'w') as nc:
        nc.createDimension('num_stations', n)
        nc.createDimension('num_flts', 2)
        nc.createDimension('num_test_times', 3)
        if both:
            nc.createDimension('num_times', 4)
        g = nc.createGroup(group) if group else nc
        x, y = xy(rank, n)
        for where in {id(nc): nc, id(g): g}.values():
            if where is nc or own_xy:
                where.createVariable('Xs', 'f8', ('num_stations',))[:] = x
                where.createVariable('Ys', 'f8', ('num_stations',))[:] = y
            if where is nc or own_t:
                where.createVariable('FLTs', 'i8', ('num_flts',))[:] = FLT
                where.createVariable('test_times', 'i8', ('num_test_times',))[:] = T0
                if both:
                    where.createVariable('Times', 'i8', ('num_times',))[:] = [5, 6, 7, 8]
        g.createVariable('Analogs', 'f8', ('num_flts', 'num_test_times', 'num_stations'))[:] = cube(rank, n)
        g.createVariable('First', 'f4', ('num_stations', 'num_flts'))[:] = cube(rank, n)[:, 0].T
        if both:
            g.createVariable('Extra', 'f8', ('num_times', 'num_stations'))[:] = rank + np.arange(4 * n).reshape(4, n)


def verify(ck, ds, parts, decode, both, detail):
    parts = sorted(parts)
    n = sum(k for _, k in parts)
    tdim = 'num_test_times' if both else 'num_times'
    ck.check(ds.sizes['num_stations'] == n, 'number of stations', got=ds.sizes, **detail)
    ck.check(ds['Analogs'].dims == ('num_flts', tdim, 'num_stations'), 'dimensions', got=ds['Analogs'].dims, **detail)
    ck.check(('num_test_times' in ds.sizes) == both, 'name of the time dimension', got=dict(ds.sizes), **detail)
    want = np.concatenate([cube(r, k) for r, k in parts], axis=-1)
    ck.check(np.array_equal(ds['Analogs'].values, want), 'stations are not in the order of ranks', got=ds['Analogs'].values[0, 0], want=want[0, 0], **detail)
    ck.check(np.array_equal(ds['First'].values, want[:, 0].T.astype('f4')), 'stations of another variable are not in the order of ranks', got=ds['First'].values[:, 0], **detail)
    for v, i in (('Xs', 0), ('Ys', 1)):
        w = np.concatenate([xy(r, k)[i] for r, k in parts])
        ck.check(v in ds and ds[v].dims == ('num_stations',) and np.array_equal(ds[v].values, w), 'locations do not belong to the stations', variable=v, got=ds[v].values if v in ds else None, want=w, **detail)
    c = np.asarray(ds['num_stations'].values, dtype=float)
    ck.check(np.all(np.diff(c) > 0), 'station index does not increase', got=c, **detail)
    ck.check(np.array_equal(np.floor(c + 1e-9), np.concatenate([[r] * k for r, k in parts])), 'station index does not tell the rank', got=c, **detail)
    ck.check('num_flts' in ds.coords and np.array_equal(np.asarray(ds.coords['num_flts'].values).astype('i8'), FLT), 'lead times', got=ds.coords, **detail)
    ck.check(tdim in ds.coords, 'no times', **detail)
    t = np.asarray(ds.coords[tdim].values)
    if decode:
        ck.check(t.dtype.kind == 'M', 'times are not decoded', dtype=t.dtype, **detail)
        t = t.astype('M8[s]')
    else:
        ck.check(ds[tdim].attrs.get('units') == 'seconds since 1970-01-01', 'units of the times', got=ds[tdim].attrs, **detail)
    ck.check(np.array_equal(t.astype('i8'), T0), 'times', got=t, **detail)
    if both:
        ck.check(np.array_equal(ds['Extra'].values, np.concatenate([r + np.arange(4 * k).reshape(4, k) for r, k in parts], axis=-1)), 'stations of another variable', **detail)
    ck.outcome((tuple(parts), decode, both))


def open_all(ck, paths, parts, group, decode=False, both=False, parallel=False, **detail):
    keep = list(paths) if isinstance(paths, list) else paths
    ds = IO.open_mfdataset(paths, group=group, parallel=parallel, decode=decode)
    try:
        ds.load()
        ck.step()
        verify(ck, ds, parts, decode, both, dict(detail, group=group, decode=decode))
    finally:
        ds.close()
    ck.check(keep == paths, 'the list of paths was changed', **detail)


def make_files(d, ranks, counts, name, group, **kw):
    out = []
    for r, n in zip(ranks, counts):
        pat = NAMES[name]
        p = os.path.join(d, pat % ((r,) if pat.count('%') == 1 else (7, r)))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        write(p, r, n, group, **kw)
        out.append(p)
    return out


def run_case(case, ck):
    install()
    globals()['run_' + case['part']](case, ck)


def run_sets(case, ck):
    global CHOOSER
    CHOOSER = None
    ranks = case['ranks']
    counts_all = list(itertools.product((1, 2, 3), repeat=len(ranks)))
    if ck.quick and len(counts_all) > 9:
        counts_all = counts_all[sum(ranks) % 3::9]
    for counts in counts_all:
        d = env.scratch('mf')
        group = GROUPS[(sum(counts) + len(ranks)) % 2]
        paths = make_files(d, ranks, counts, case['name'], group, own_xy=group is None, own_t=group is None)
        parts = list(zip(ranks, counts))
        open_all(ck, os.path.join(os.path.dirname(paths[0]), '*.nc'), parts, group, names=NAMES[case['name']])
        for order in itertools.permutations(paths):
            if list(order) != paths[::-1] and (len(order) > 3 or counts != counts_all[0] and len(order) > 2):
                continue
            open_all(ck, list(order), parts, group, names=NAMES[case['name']])
            ck.state(counts, order)
    ck.trace('sets', case)


def run_orders(case, ck):
    """delayed: every order in which the files can be opened"""
    global CHOOSER
    d = env.scratch('mf')
    group = GROUPS[case['group']]
    counts = [2, 3, 1]
    paths = make_files(d, case['ranks'], counts, 0, group, own_xy=group is None, own_t=group is None)
    parts = list(zip(case['ranks'], counts))

    def run(ch):
        global CHOOSER
        CHOOSER = ch
        try:
            open_all(ck, list(paths), parts, group, parallel=True)
        finally:
            CHOOSER = None
    n = 0
    RAN[0] = 0
    for trace, _ in execs.enumerate_choices(run):
        ck.state(tuple(trace))
        n += 1
    ck.check(n == (6 if group is None else 36), 'harness: %d orders' % n)
    ck.check(RAN[0] > 0, 'harness: nothing was opened through the stand-in')
    ck.trace('orders', dict(case, executions=n))


def run_contents(case, ck):
    group = GROUPS[case['group']]
    for ranks, counts in (([0, 2, 10], [2, 1, 3]), ([5], [3]), ([10, 9], [1, 1])):
        d = env.scratch('mf')
        paths = make_files(d, ranks, counts, 0, group, own_xy=case['own_xy'], own_t=case['own_t'], both=case['both'])
        for decode in (False, True):
            open_all(ck, list(paths), list(zip(ranks, counts)), group, decode=decode, both=case['both'], contents=case)
            ck.state(ranks, decode)
    ck.trace('contents', case)


def run_single(case, ck):
    """one file opened alone and as a run of one file agree; other preprocessing can be supplied"""
    d = env.scratch('mf')
    path = os.path.join(d, 'x_Rank3.nc')
    write(path, 3, 4, None)
    with IO.open_dataset(path) as a:
        a.load()
    b = IO.open_mfdataset([path], parallel=False)
    b.load()
    b.close()
    for v in ('Analogs', 'Xs', 'Ys', 'First'):
        ck.check(np.array_equal(a[v].values, b[v].values), 'one file differs when opened alone', variable=v)
    plain = os.path.join(d, 'plain.nc')
    write(plain, 4, 2, None)
    seen = []

    def pre(ds):
        seen.append(os.path.basename(ds.encoding['source']))
        return ds.assign_coords(num_stations=np.arange(2) + 70)
    c = IO.open_mfdataset([plain], parallel=False, preprocess=pre)
    ck.check(seen and set(seen) == {'plain.nc'} and c['num_stations'].values.tolist() == [70, 71], 'other preprocessing is not used', seen=seen)
    c.close()
    for bad in ('norank.nc',):
        p = os.path.join(d, bad)
        write(p, 1, 2, None)
        try:
            IO.open_mfdataset([p], parallel=False)
        except Exception:
            pass
        else:
            ck.fail('a file name without rank is accepted')
    home = os.environ.get('HOME')
    os.environ['HOME'] = d
    try:
        e = IO.open_mfdataset('~/x_Rank*.nc', parallel=False)
        ck.check(e.sizes['num_stations'] == 4, 'home directory in a pattern')
        e.close()
        e = IO.open_mfdataset(['~/x_Rank3.nc'], parallel=False)
        ck.check(e.sizes['num_stations'] == 4, 'home directory in a path')
        e.close()
    finally:
        if home is None:
            del os.environ['HOME']
        else:
            os.environ['HOME'] = home
    ck.step(6)
    ck.state('single')
    ck.trace('single', case)


def run_many(case, ck):
    """many stations per file, large ranks"""
    global CHOOSER
    CHOOSER = None
    for group in (None, 'Analogs'):
        for counts in (case['counts'], case['counts'][::-1]):
            d = env.scratch('mf')
            paths = make_files(d, case['ranks'], counts, 0, group, own_xy=group is None, own_t=group is None)
            parts = list(zip(case['ranks'], counts))
            open_all(ck, list(paths), parts, group)
            open_all(ck, paths[::-1], parts, group)
            open_all(ck, os.path.join(os.path.dirname(paths[0]), '*.nc'), parts, group)
            ck.state(group, tuple(counts))
    ck.trace('many', case)


def run_files(case, ck):
    """many files"""
    global CHOOSER
    CHOOSER = None
    n = case['n']
    ranks = [(i * 7) % n for i in range(n)] if n % 7 else list(range(n))
    counts = [1 + i % 3 for i in range(n)]
    for group in (None, 'Analogs'):
        for name in (0, 1):
            d = env.scratch('mf')
            paths = make_files(d, ranks, counts, name, group, own_xy=group is None, own_t=group is None)
            parts = list(zip(ranks, counts))
            open_all(ck, list(paths), parts, group)
            open_all(ck, os.path.join(os.path.dirname(paths[0]), '*.nc'), parts, group)
            ck.state(group, name)
    ck.trace('files', case)


def run_units(case, ck):
    """times are in seconds since 1970 whatever the files say"""
    global CHOOSER
    CHOOSER = None
    for group in GROUPS:
        for both in (False, True):
            d = env.scratch('mf')
            ranks, counts = [3, 11, 0], [2, 1, 2]
            paths = make_files(d, ranks, counts, 0, group, both=both)
            for p in paths:
                with Dataset(p, 'a') as nc:
                    for g in {id(x): x for x in (nc, nc[group] if group else nc)}.values():
                        if case['units'] is not None:
                            g.variables['test_times'].setncattr('units', case['units'])
            for decode in (False,) if case['units'] else (False, True):
                open_all(ck, list(paths), list(zip(ranks, counts)), group, decode=decode, both=both, units=case['units'])
                ck.state(group, both, decode)
    ck.trace('units', case)
