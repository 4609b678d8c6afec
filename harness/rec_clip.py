"""C24: clipping, extrusion and files of triangle meshes."""
from geo import *
import rec_topology as RT
import itertools, struct, tempfile, shutil

rng = random.Random(SEED * 7919 + 24)


def cuts():
    d = os.environ.get('VERIF_GEN', '')
    out = []
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if f.startswith('cuts-'):
            out += [json.loads(x) for x in open(os.path.join(d, f))]
    out.sort(key=lambda x: json.dumps(x, sort_keys=True))
    return out


def klass(d):
    from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian2, ComplexTriangularEuclidian3
    return {2: ComplexTriangularEuclidian2, 3: ComplexTriangularEuclidian3}[d]


def mesh(rec, cells, pos, dtype=float):
    """the complex under test; its topology is adopted as the handle T"""
    C = klass(np.shape(pos)[1])(vertices=np.array(pos, dtype), triangles=np.array(cells))
    rec.emit('adopt', h='T', topo=topo(C.topology))
    return C


def clip(rec, C, pos, support, direction):
    form = rng.choice((tuple, list, np.array))
    for mode in (True, False):
        h = (np.array(pos) - support).dot(direction)
        used = {v for t in np.asarray(C.topology.corners[2]) for v in t}
        if mode and not any(all(h[v] <= 0 for v in t) or any(h[v] < 0 for v in t) for t in np.asarray(C.topology.corners[2])):
            continue        # nothing would be left
        kw = {} if mode and rng.random() < .5 else dict(clip=mode)
        rec.call('clip', lambda: C.clip(form(support), form(direction), **kw), lambda r: dict(topo=topo(r.topology), out=points(r.vertices)),
                 of='T', pos=ints(pos), support=ints(support), direction=ints(direction), clip=mode)


def lifted(h, direction, support):
    """positions with the given heights; direction has an entry one"""
    d = len(direction)
    one = list(direction).index(1)
    out = []
    for x in h:
        p = [rng.randint(-3, 3) for _ in range(d)]
        p[one] = 0
        p[one] = x - sum(a * b for a, b in zip(p, direction))
        out.append([a + b for a, b in zip(p, support)])
    return out


def programs(rec):
    cs = cuts()
    if not THOROUGH:
        cs = rng.sample(cs, min(420, len(cs)))
    for c in cs:
        d = 3 if len(c['cells']) > 2 else rng.choice((2, 3))
        direction = rng.choice([(1, 0), (0, 1), (1, 2), (-2, 1), (1, -1)] if d == 2 else [(0, 0, 1), (1, 0, 0), (0, 1, 0), (1, 1, 2), (-1, 1, 0), (2, -1, 1)])
        support = [rng.randint(-4, 4) for _ in range(d)]
        cells = [[v - 1 for v in t] for t in c['cells']]
        for _ in range(50):
            pos = lifted(c['h'], direction, support)
            if len(set(map(tuple, pos))) == len(pos) and nondegenerate(cells, pos):
                break
        else:
            continue
        rec.case('cut-%d' % rec.n_cases)
        cells = M._scramble_s(cells, rng, True)
        clip(rec, mesh(rec, cells, pos, rng.choice((int, float))), pos, support, direction)


def planes(rec):
    def lines(d):
        while True:
            v = [rng.randint(-2, 2) for _ in range(d)]
            if any(v):
                return v
    for i in range(150 if THOROUGH else 40):
        cells, pos = kuhn(rng, 2, (rng.randint(1, 3), rng.randint(1, 3)), rng.choice((1, .7)))
        pos = np.array(pos)
        support = pos[rng.randrange(len(pos))] + [rng.randint(-1, 1), rng.randint(-1, 1)]
        rec.case('planar-%d' % i)
        C = mesh(rec, cells, pos, rng.choice((int, float)))
        clip(rec, C, pos, support, lines(2))
    for id, k, n, cs in (x[:4] for x in RT.closed_meshes()):
        if k != 'simplicial' or n != 2 or len(cs) > 60:
            continue
        for _ in range(6 if THOROUGH else 2):
            pos = place(rng, cs, 3, span=4)
            if pos is None:
                continue
            rec.case('surface-%s-%d' % (id, rec.n_cases))
            C = mesh(rec, M.turn_s(cs, rng), pos)
            clip(rec, C, pos, [rng.randint(0, 4) for _ in range(3)], lines(3))
    # cuts along whole faces, from either side
    for i in range(60 if THOROUGH else 16):
        cs, pos = blocks()
        pos = np.array(pos) * [rng.randint(1, 3) for _ in range(3)]
        cs, pos = permuted(cs, pos, rng)
        rec.case('faces-%d' % i)
        C = mesh(rec, M.turn_s(cs, rng), pos, rng.choice((int, float)))
        for axis in rng.sample(range(3), 2):
            for s in (1, -1):
                at = rng.choice((min(pos[:, axis]), max(pos[:, axis]), pos[rng.randrange(len(pos)), axis]))
                support = [rng.randint(-2, 4) for _ in range(3)]
                support[axis] = int(at)
                clip(rec, C, pos, support, [s * rng.choice((1, 2)) if a == axis else 0 for a in range(3)])
    for i in range(40 if THOROUGH else 12):
        # a face of any closed surface, its plane
        id, k, n, cs = rng.choice([x[:4] for x in RT.closed_meshes() if x[1] == 'simplicial' and x[2] == 2 and len(x[3]) <= 30])
        pos = place(rng, cs, 3, span=3)
        if pos is None:
            continue
        rec.case('facet-%s-%d' % (id, i))
        cs = M.turn_s(cs, rng)
        C = mesh(rec, cs, pos)
        a, b, c = (np.array(pos[v]) for v in cs[rng.randrange(len(cs))])
        normal = np.cross(b - a, c - a)
        normal = normal // np.gcd.reduce(normal)
        for s in (1, -1):
            clip(rec, C, pos, ints(rng.choice((a, b, c))), ints(s * normal))
    # planar cuts along edges
    for i in range(40 if THOROUGH else 12):
        cells, pos = kuhn(rng, 2, (rng.randint(1, 3), rng.randint(1, 3)), rng.choice((1, .7)))
        pos = np.array(pos)
        cells = M.turn_s(cells, rng)
        rec.case('along-%d' % i)
        C = mesh(rec, cells, pos, rng.choice((int, float)))
        t = rng.choice(cells)
        a, b = (pos[v] for v in rng.sample(list(t), 2))
        for s in (1, -1):
            clip(rec, C, pos, ints(a), ints(s * np.array([b[1] - a[1], a[0] - b[0]])))


def blocks():
    """boundary of some boxes, split in triangles"""
    shape = [rng.randint(1, 2) for _ in range(3)]
    sel = {b for b in itertools.product(*[range(s) for s in shape]) if rng.random() < .7} or {(0, 0, 0)}
    cells, pts = M.kuhn(shape, sel)
    seen = {}
    for c in cells:
        sg = det([[a - b for a, b in zip(pts[v], pts[c[0]])] for v in c[1:]])
        for j in range(4):
            f = list(c[:j] + c[j + 1:])
            if (j % 2 == 0) != (sg > 0):
                f[0], f[1] = f[1], f[0]
            seen.setdefault(frozenset(f), []).append(tuple(f))
    return M.used([fs[0] for fs in seen.values() if len(fs) == 1], pts)


def extrusions(rec):
    for i in range(120 if THOROUGH else 40):
        shape = (rng.randint(1, 3), rng.randint(1, 3))
        cells, pos = kuhn(rng, 2, shape, rng.choice((1, 1, .7)))
        if rng.random() < .3:
            cells = [c[::-1] for c in cells]
        kind = rng.choice(('flat', 'flat', 'lumpy', 'part'))
        pos = np.concatenate([np.array(pos), np.zeros((len(pos), 1), int)], axis=1)
        rec.case('extrude-%s-%d' % (kind, i))
        if kind == 'lumpy':
            pos[:, 2] = [rng.randint(0, 2) for _ in pos]
        if kind == 'part' and len(cells) > 2:
            # a part of a larger mesh, cut out by the library itself
            W = klass(3)(vertices=pos, triangles=np.array(cells))
            keep = np.array([rng.random() < .6 for _ in cells])
            if not keep.any():
                keep[0] = True
            C = W.select_subset(keep)
            rec.emit('adopt', h='T', topo=topo(C.topology))
            pos = np.array(C.vertices)
        elif rng.random() < .4:
            # made coherent by the library itself
            C = klass(3)(vertices=pos, triangles=np.array([c[::rng.choice((1, -1))] for c in cells]))
            C = C.copy(topology=C.topology.fix_orientation())
            rec.emit('adopt', h='T', topo=topo(C.topology))
        else:
            C = mesh(rec, M.turn_s(cells, rng), pos, rng.choice((int, float)))
        h = rng.choice((1, 2, 5, -3))
        shift = np.array([rng.randint(-2, 2), rng.randint(-2, 2), h])
        other = pos + shift + (np.array([[0, 0, rng.randint(0, 3)] for _ in pos]) if kind == 'lumpy' else 0)
        rec.call('extrude', lambda: C.extrude(C.copy(vertices=other.astype(np.asarray(C.vertices).dtype))),
                 lambda r: dict(topo=topo(r.topology), out=ints(r.vertices)), of='T', pos=ints(pos), other=ints(other), flat=0 if kind == 'lumpy' else h)


def units(a, unit):
    return ints(np.asarray(a, float) * unit)


def files(rec):
    K = klass(3)
    tmp = tempfile.mkdtemp(prefix='verif-stl-')
    try:
        named = [(id, cs) for id, k, n, cs in (x[:4] for x in RT.closed_meshes()) if k == 'simplicial' and n == 2 and len(cs) <= 80]
        named += [('grid%d' % i, kuhn(rng, 2, (rng.randint(1, 4), rng.randint(1, 3)), .8)[0]) for i in range(20 if THOROUGH else 8)]
        for id, cs in named:
            for rep in range(4 if THOROUGH else 2):
                cs2 = M.turn_s(cs, rng)
                pos = place(rng, cs2, 3, span=5)
                if pos is None:
                    continue
                pos = pos * rng.choice((1, 3, 8, 11)) + rng.choice((0, -13, 40))     # in units
                unit = rng.choice((8, 8, 2. ** 20, 2. ** -7))     # units to a one
                rec.case('file-%s-%d' % (id, rec.n_cases))
                C = mesh(rec, cs2, pos / unit)
                path = os.path.join(tmp, 'a%d.stl' % rec.n_cases)

                def write():
                    C.save_STL(path)
                    return open(path, 'rb').read()

                def parse(b):
                    n = struct.unpack_from('<I', b, 80)[0]
                    rows = [struct.unpack_from('<12fH', b, 84 + 50 * i) for i in range(min(n, (len(b) - 84) // 50))]
                    return dict(size=len(b), count=n, normals=[[int(round(x * 1000)) for x in r[:3]] for r in rows],
                                soup=[[units(r[3 * j:3 * j + 3], unit) for j in (1, 2, 3)] for r in rows])
                rec.call('stlwrite', write, parse, of='T', pos=ints(pos))
                soup = [[ints(pos[v]) for v in t] for t in cs2]

                def proj(r):
                    return dict(topo=topo(r.topology), out=units(r.vertices, unit))
                rec.call('stlread', lambda: K.load_STL(path), proj, soup=soup)
                # a file some other program wrote
                extra = rng.choice((b'', b'', b'trailing bytes'))
                with open(path, 'wb') as f:
                    f.write(bytes(rng.randrange(256) for _ in range(80)) + struct.pack('<I', len(soup)))
                    for t in soup:
                        f.write(struct.pack('<12fH', *([0., 0., 0.] + [x / unit for p in t for x in p]), rng.randrange(65536)))
                    f.write(extra)
                rec.call('stlread', lambda: K.load_STL(path), proj, soup=soup)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main(rec):
    programs(rec)
    planes(rec)
    extrusions(rec)
    files(rec)


run(main)
