"""C21: the real reader library (lib/python/picopic of the tree under check) over data files of the real writer.
Usage: reader_check.py EXE REPO [--thorough] [--replay CASE] --scratch DIR"""
import sys
sys.dont_write_bytecode = True
import contextlib, hashlib, io, itertools, json, math, os, subprocess, traceback, types
from concurrent.futures import ProcessPoolExecutor
import numpy as np

EXE, REPO = sys.argv[1:3]
ARG = sys.argv[3:]
THOROUGH = '--thorough' in ARG
REPLAY = ARG[ARG.index('--replay') + 1] if '--replay' in ARG else None
SCRATCH = ARG[ARG.index('--scratch') + 1]


# ---------------------------------------------------------------- stand-in of h5py over the dumped files
class Dataset:
    def __init__(self, f, d):
        self.f, self.shape = f, tuple(d['dims'])
        self.a = np.array(d['data'], dtype='float64').reshape(self.shape)

    def __len__(self):
        return self.shape[0]

    def __getitem__(self, k):
        if self.f.closed:
            raise ValueError('Invalid location identifier')
        if isinstance(k, (int, np.integer)) and not -self.shape[0] <= k < self.shape[0]:
            raise ValueError('Index (%d) out of range' % k)
        return self.a[k].copy() if isinstance(self.a[k], np.ndarray) else self.a[k]


class Attrs(dict):
    pass


class Group:
    def __init__(self, attrs):
        self.attrs = attrs


class File:
    opened = []

    def __init__(self, path, mode='r'):
        if mode != 'r':
            raise OSError('data file must be opened for reading only')
        self.j, self.closed, self.filename, self.cache = json.load(open(path)), False, path, {}
        File.opened.append(self)

    def __getitem__(self, p):
        if self.closed:
            raise ValueError('Not a location (invalid object ID)')
        if p == '/':
            return Group(Attrs(self.j['attrs']))
        p = p.strip('/')
        if p not in self.j['datasets']:
            raise KeyError("Unable to open object (object '%s' doesn't exist)" % p)
        if p not in self.cache:
            self.cache[p] = Dataset(self, self.j['datasets'][p])
        return self.cache[p]

    def close(self):
        self.closed = True


fake = types.ModuleType('h5py')
fake.File = File
sys.modules['h5py'] = fake
for name, names in {'pygments': ['highlight'], 'pygments.lexers': ['JsonLexer'], 'pygments.formatters': ['Terminal256Formatter'], 'pygments.styles': ['STYLE_MAP']}.items():
    m = types.ModuleType(name)
    for x in names:
        setattr(m, x, {} if x == 'STYLE_MAP' else (lambda *a, **k: a[0] if a else None))
    sys.modules[name] = m
sys.path.insert(0, os.path.join(REPO, 'lib', 'python'))

VIOL, STAT, SAMP, STATES = [], {}, [], set()


def count(k, n=1):
    STAT[k] = STAT.get(k, 0) + n


class Bad(Exception):
    pass


def same(what, got, want):
    count('transitions')
    g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if g.shape != w.shape:
        raise Bad('%s has shape %s, written %s' % (what, g.shape, w.shape))
    if not np.array_equal(g, w, equal_nan=True):
        i = tuple(int(x) for x in np.argwhere(~((g == w) | (np.isnan(g) & np.isnan(w))))[0]) if g.shape else ()
        raise Bad('%s%s is %r, written %r' % (what, list(i), float(g[i]), float(w[i])))


def path(p):
    c = p['component'] + ('/' + p['specie'] if 'specie' in p else '')
    if p['shape'] == 'rec':
        return c, '%s/rec/%d-%d_%d-%d' % (c, p['start']['r'], p['end']['r'], p['start']['z'], p['end']['z'])
    if p['shape'] == 'col':
        return c, '%s/col/%d' % (c, p['z'])
    if p['shape'] == 'row':
        return c, '%s/row/%d' % (c, p['r'])
    return c, '%s/dot/%d_%d' % (c, p['r'], p['z'])


FIELD = ['E/r', 'E/phi', 'E/z', 'H/r', 'H/phi', 'H/z', 'J/r', 'J/phi', 'J/z']


def written(raw, p, cfg):
    """What the simulation wrote: the coded value of every node for fields, the data set for maps of species."""
    nr, nz = cfg['geometry']['grid']['radius'], cfg['geometry']['grid']['longitude']
    frames = (7 - 1) // p['schedule'] + 1
    c, dp = path(p)
    r, z = {'rec': lambda: (range(p['start']['r'], p['end']['r']), range(p['start']['z'], p['end']['z'])), 'col': lambda: (range(nr), [p['z']]),
            'row': lambda: ([p['r']], range(nz)), 'dot': lambda: ([p['r']], [p['z']])}[p['shape']]()
    if c in FIELD:
        a = np.array([[[f * p['schedule'] * 1e6 + FIELD.index(c) * 1e4 + i * 100 + k + 0.5 for k in z] for i in r] for f in range(frames)])
    else:
        d = raw['datasets'][dp]
        a = np.array(d['data']).reshape(frames, len(r), len(z))
    return a if p['shape'] == 'rec' else a.reshape(frames, len(r) * len(z)) if p['shape'] != 'dot' else a.reshape(frames)


def ranges(n):
    return [(a, b) for a in range(n + 1) for b in list(range(a, n + 1)) + [None]]


def probe_case(rd, raw, p, cfg):
    w = written(raw, p, cfg)
    n = len(w)
    c, dp = path(p)
    STATES.add(dp)
    sh = p['shape']
    if sh == 'rec':
        rect = [p['start']['r'], p['start']['z'], p['end']['r'], p['end']['z']]
        for f in range(n):
            same('%s rec(%d)' % (dp, f), rd.rec(c, rect, f), w[f])
            for z in range(w.shape[2]):
                same('%s col_rec(z=%d, %d)' % (dp, z, f), rd.col_rec(c, z, rect, f), w[f][:, z])
            for r in range(w.shape[1]):
                same('%s row_rec(r=%d, %d)' % (dp, r, f), rd.row_rec(c, r, rect, f), w[f][r])
                for z in range(w.shape[2]):
                    same('%s dot_rec(r=%d, z=%d, %d)' % (dp, r, z, f), rd.dot_rec(c, r, z, rect, f), w[f][r][z])
        for a, b in ranges(n):
            same('%s rec_range(%s, %s)' % (dp, a, b), rd.rec_range(c, rect, a, b), w[a:b])
            for z in range(w.shape[2]):
                same('%s col_rec_range(z=%d, %s, %s)' % (dp, z, a, b), rd.col_rec_range(c, z, rect, a, b), w[a:b, :, z])
            for r in range(w.shape[1]):
                same('%s row_rec_range(r=%d, %s, %s)' % (dp, r, a, b), rd.row_rec_range(c, r, rect, a, b), w[a:b, r, :])
                for z in range(w.shape[2]):
                    same('%s dot_rec_range(r=%d, z=%d, %s, %s)' % (dp, r, z, a, b), rd.dot_rec_range(c, r, z, rect, a, b), w[a:b, r, z])
        same('%s rec_range()' % dp, rd.rec_range(c, rect), w)
        return
    at = {'col': lambda: [p['z']], 'row': lambda: [p['r']], 'dot': lambda: [p['r'], p['z']]}[sh]()
    one, many = getattr(rd, sh), getattr(rd, sh + '_range')
    for f in range(n):
        same('%s %s(%d)' % (dp, sh, f), one(c, *at, f), w[f])
    for a, b in ranges(n):
        same('%s %s_range(%s, %s)' % (dp, sh, a, b), many(c, *at, a, b), w[a:b])
    same('%s %s_range()' % (dp, sh), many(c, *at), w)


def eq(what, a, b):
    count('transitions')
    if a != b:
        raise Bad('%s is %r, configured %r' % (what, a, b))


def meta_case(m, cfg, base):
    g, t = cfg['geometry'], cfg['time']
    eq('size', m.geometry_size, [g['size']['radius'], g['size']['longitude']])
    eq('grid', m.geometry_grid, [g['grid']['radius'], g['grid']['longitude']])
    eq('domains', m.geometry_domains, [g['domains_amount']['radius'], g['domains_amount']['longitude']])
    eq('pml', m.geometry_pml, [g['pml'][k] for k in ('left_wall', 'right_wall', 'outer_wall', 'sigma_1', 'sigma_2')])
    eq('time', m.time, [t['start'], t['end'], t['step']])
    eq('species', [(s.name, s.charge, s.mass, list(s.density), s.temperature) for s in m.species], [(s['name'], s['charge'], s['mass'], [s['density']] * 2, s['temperature']) for s in cfg['particles']])
    eq('beams', [(b.name, b.charge, b.mass, b.velocity, b.start_time, b.bunch_density, b.bunch_amount, b.bunch_length, b.bunch_radius, b.bunches_distance) for b in m.beams],
       [(b['name'], b['charge'], b['mass'], b['velocity'], b['start_time']) + tuple(b['bunch'][k] for k in ('density', 'amount', 'length', 'radius', 'distance')) for b in cfg['beams']])
    eq('amount of probes', len(m.probes), len(cfg['data']['probes']))
    for a, p in zip(m.probes, cfg['data']['probes']):
        eq('probe', (a.shape, a.component, a.schedule, a.specie), (p['shape'], p['component'], p['schedule'], p.get('specie')))
        s = {'rec': lambda: [p['start']['r'], p['start']['z'], p['end']['r'], p['end']['z']], 'col': lambda: [a.size[0], p['z']] + a.size[2:], 'row': lambda: [p['r']] + a.size[1:], 'dot': lambda: [p['r'], p['z']] + a.size[2:]}[p['shape']]()
        eq('probe size', a.size, s)
    eq('config path', os.path.realpath(m.config_path), os.path.realpath(base))
    dr = cfg['data']['data_root']
    eq('data path', m.data_path, dr if dr.startswith('/') else os.path.normpath(os.path.join(base, dr)))
    eq('compression', (m.use_compression, m.compression_level), (cfg['data']['compression']['use'], cfg['data']['compression']['level']))
    pl = cfg['data']['plot']
    eq('plot', (m.plot_cmap, m.plot_ticks_x, m.plot_ticks_y, m.plot_ticks_z, m.plot_cbar, m.figure_color, m.figure_width, m.figure_height, m.figure_dpi, m.figure_font_family, m.figure_font_size, m.figure_font_name, m.video_codec, m.video_fps, m.video_bitrate),
       (pl['subplot']['cmap'],) + tuple(pl['subplot']['ticks'][k] for k in ('x_amount', 'y_amount', 'z_amount', 'cbar_amount')) + tuple(pl['figure'][k] for k in ('color', 'width', 'height', 'dpi')) + tuple(pl['figure']['font'][k] for k in ('family', 'size', 'name')) + tuple(pl['video'][k] for k in ('codec', 'fps', 'bitrate')))


def near(what, a, b):
    count('transitions')
    if not abs(a - b) <= 1e-12 * abs(b):
        raise Bad('%s is %r, expected %r' % (what, a, b))


def conv_case(cfg, nr, nz, R, Z):
    from picopic.meta_reader import MetaReader
    c = json.loads(json.dumps(cfg))
    c['geometry']['grid'] = dict(radius=nr, longitude=nz)
    c['geometry']['size'] = dict(radius=R, longitude=Z)
    c['base_path'] = '/'
    m = MetaReader(c)
    for i in range(nr + 1):
        near('radius of row %d' % i, m.get_radius_by_row(i), i * R / nr)
        eq('row of the radius of row %d' % i, m.get_row_by_radius(m.get_radius_by_row(i)), i)
        eq('row of the radius near row %d' % i, (m.get_row_by_radius((i + 0.49) * R / nr), m.get_row_by_radius((i - 0.49) * R / nr)), (i, i))
        STATES.add(('r', nr, i))
    for k in range(nz + 1):
        near('longitude of column %d' % k, m.get_longitude_by_col(k), k * Z / nz)
        eq('column of the longitude of column %d' % k, m.get_col_by_longitude(m.get_longitude_by_col(k)), k)
        eq('column of the longitude near column %d' % k, (m.get_col_by_longitude((k + 0.49) * Z / nz), m.get_col_by_longitude((k - 0.49) * Z / nz)), (k, k))
        STATES.add(('z', nz, k))


def time_case(cfg, dt, n):
    from picopic.meta_reader import MetaReader
    c = json.loads(json.dumps(cfg))
    c['time']['step'] = dt
    c['base_path'] = '/'
    m = MetaReader(c)
    for d in (1, 2, 3, 5, 7, 10, 100, 255, 1000):
        for f in list(range(n)) + [10 ** 6 - 1, 10 ** 6]:
            near('time of frame %d' % f, m.get_timestamp_by_frame_number(f, d), f * d * dt)
            eq('frame at the time of frame %d' % f, m.get_frame_number_by_timestamp(m.get_timestamp_by_frame_number(f, d), d), f)
            eq('frame near the time of frame %d' % f, (m.get_frame_number_by_timestamp((f + 0.49) * d * dt, d), m.get_frame_number_by_timestamp((f - 0.49) * d * dt, d)), (f, f))
            STATES.add(('t', dt, d, f))


def access_case(d, raw, cfg, mode):
    """Ways of opening: directory, file, context manager; cached; verbose. Wrong requests are refused."""
    from picopic.h5_reader import H5Reader
    File.opened.clear()
    where = d if mode % 2 else os.path.join(d, 'data.h5')
    if mode == 6:
        for bad in (os.path.join(d, 'nothing'), os.path.join(d, 'nothing', 'data.h5')):
            try:
                with contextlib.redirect_stderr(io.StringIO()):
                    H5Reader(bad)
            except FileNotFoundError:
                count('transitions')
                continue
            raise Bad('missing file %s is opened' % bad)
        return
    kw = dict(use_cache=mode in (2, 3), verbose=mode in (4, 5))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        with H5Reader(where, **kw) as rd:
            rd = rd or None
            for p in cfg['data']['probes'][::37 if mode < 4 else 11]:
                probe_case(rd, raw, p, cfg)
            for absent in ('E/r/absent', 'Q'):
                for q in (lambda: rd.rec(absent, [0, 0, 1, 1], 0), lambda: rd.col(absent, 0, 0), lambda: rd.row(absent, 0, 0), lambda: rd.dot(absent, 0, 0, 0)):
                    count('transitions')
                    try:
                        q()
                    except Exception:
                        continue
                    raise Bad('data of absent component is returned')
            for p in cfg['data']['probes'][::29]:
                c, dp = path(p)
                n = (7 - 1) // p['schedule'] + 1
                for f in (n, n + 1, n + 100):
                    count('transitions')
                    try:
                        if p['shape'] == 'rec':
                            rd.rec(c, [p['start']['r'], p['start']['z'], p['end']['r'], p['end']['z']], f)
                        else:
                            getattr(rd, p['shape'])(c, *{'col': [p.get('z')], 'row': [p.get('r')], 'dot': [p.get('r'), p.get('z')]}[p['shape']], f)
                    except Exception:
                        continue
                    raise Bad('%s frame %d is returned, which does not exist' % (dp, f))
    for f in File.opened:
        if not f.closed:
            raise Bad('data file is left open')


def tool_case(d, cfg, meta):
    import importlib.util
    s = importlib.util.spec_from_file_location('parse_metadata', os.path.join(REPO, 'tools', 'parse_metadata.py'))
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)

    def call(*a):
        o = io.StringIO()
        old = sys.argv
        sys.argv = ['parse_metadata.py'] + list(a)
        try:
            with contextlib.redirect_stdout(o):
                m.main()
        finally:
            sys.argv = old
        count('transitions')
        return json.loads(o.getvalue())
    for w in (d, os.path.join(d, 'data.h5')):
        all_ = call(w)
        all_.pop('base_path', None)
        eq('metadata', all_, meta)
        eq('build options', call(w, '--bo'), meta['build_options'])
        eq('comment', call(w, '-c'), meta['comment'])
        for k in meta:
            eq('subtree ' + k, call(w, '--subtree', '[%s]' % k), meta[k])
            if isinstance(meta[k], dict):
                for q in meta[k]:
                    eq('subtree %s %s' % (k, q), call(w, '--subtree', '[%s][%s]' % (k, q)), meta[k][q])


def cases(dirs):
    for n, d in enumerate(dirs):
        cfg = json.load(open(os.path.join(d, 'config.json')))
        np_ = len(cfg['data']['probes'])
        for b in range(0, np_, 40):
            yield 'file %d probes %d-%d' % (n, b, min(b + 40, np_) - 1), ('probes', d, b, b + 40)
        yield 'file %d metadata' % n, ('meta', d)
        for m in range(7):
            yield 'file %d access %d' % (n, m), ('access', d, m)
        yield 'file %d tool' % n, ('tool', d)
    top = 600 if THOROUGH else 130
    for nr in range(1, top):
        for R, Z in ((1.0, 1.0), (0.1, 0.3), (0.25 / 3, 7.7), (1e-3, 123.456), (math.pi, 1e-9)):
            yield 'conversion %d %g %g' % (nr, R, Z), ('conv', dirs[0], nr, nr * 2 + 1, R, Z)
    for dt in (1e-12, 1e-13, 3e-13, 7e-14, 1e-12 / 3, 1.1e-11, 2.0 ** -40, 1.0, 0.1):
        yield 'time %.17g' % dt, ('time', dirs[0], dt, 4000 if THOROUGH else 400)


def run_one(c):
    name, j = c
    VIOL.clear(), STAT.clear(), STATES.clear()
    d = j[1]
    raw = json.load(open(os.path.join(d, 'data.h5')))
    cfg = json.load(open(os.path.join(d, 'config.json')))
    try:
        if j[0] == 'probes':
            from picopic.h5_reader import H5Reader
            rd = H5Reader(d)
            for p in cfg['data']['probes'][j[2]:j[3]]:
                probe_case(rd, raw, p, cfg)
        elif j[0] == 'meta':
            from picopic.h5_reader import H5Reader
            from picopic.meta_reader import MetaReader
            meta_case(H5Reader(d).meta, cfg, d)
            meta_case(MetaReader(os.path.join(d, 'config.json')), cfg, d)
        elif j[0] == 'access':
            access_case(d, raw, cfg, j[2])
        elif j[0] == 'tool':
            tool_case(d, cfg, json.loads(raw['attrs']['metadata']))
        elif j[0] == 'conv':
            conv_case(cfg, *j[2:])
        else:
            time_case(cfg, *j[2:])
    except Bad as e:
        return name, j[0], str(e), dict(STAT), len(STATES)
    except (Exception, SystemExit) as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return name, j[0], 'exception %s: %s at %s:%s' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno), dict(STAT), len(STATES)
    return name, j[0], None, dict(STAT), len(STATES)


def main():
    r = subprocess.run([EXE, SCRATCH] + (['thorough'] if THOROUGH else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        # the writer itself failed on the way: a defect of the writer, not of this machinery
        print('VIOL\twriter\tfile -\twriting of the data files ended with %d: %s' % (r.returncode, (r.stderr.strip().splitlines() or ['-'])[-1][:200]))
        print('STAT\tcases\t1')
        return
    dirs = [os.path.join(SCRATCH, 'd%d' % i) for i in range(int(r.stdout.split()[-1]))]
    cs = [c for c in cases(dirs) if not REPLAY or c[0] == REPLAY]
    tot, states = {}, 0
    with ProcessPoolExecutor(1 if REPLAY else 8) as ex:
        for name, key, bad, st, ns in ex.map(run_one, cs, chunksize=4):
            if bad:
                print('VIOL\t%s\t%s\t%s' % (key, name, bad.replace('\t', ' ').replace('\n', ' ')))
            for k, v in st.items():
                tot[k] = tot.get(k, 0) + v
            states += ns
    tot['cases'], tot['states'] = len(cs), states
    for k, v in tot.items():
        print('STAT\t%s\t%d' % (k, v))
    print('SAMPLE\t%d data files of the real writer, %d comparisons of returned arrays and values' % (len(dirs), tot.get('transitions', 0)))


main()
