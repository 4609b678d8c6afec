"""C12: permutations, combinations, simplex and cube parities."""
import itertools, random, sys
from lib import *
import meshes as M
PID = sys.argv[2]
rng = random.Random(SEED * 1000003 + 12)


def main(rec):
    from pycomplex.math.combinatorial import permutations, combinations
    from pycomplex.topology.simplicial import relative_simplex_parity
    from pycomplex.topology.cubical import relative_cube_parity
    import pycomplex.topology.cubical as TC

    def listed(g):
        g = list(g)
        return dict(parity=[int(p) for p, _ in g], out=[list(map(int, x)) for _, x in g])
    for n in range(1, 7 if THOROUGH else 6):
        lists = [list(range(n)), rng.sample(range(50), n), list(range(n))[::-1]]
        for j, L in enumerate(lists):
            rec.case('perms-%d-%d' % (n, j))
            rec.call('perms', lambda: permutations(list(L)), listed, L=L)
            # the generator may be consumed in an interleaved way
            def interleaved():
                a, b = permutations(list(L)), permutations(list(L))
                out = []
                for x in a:
                    next(b, None)
                    out.append(x)
                return out
            rec.call('perms', interleaved, listed, L=L)
    for n in range(1, 9 if THOROUGH else 7):
        for k in range(0, n + 1):
            for j, L in enumerate([list(range(n)), rng.sample(range(50), n)]):
                rec.case('combs-%d-%d-%d' % (n, k, j))
                rec.call('combs', lambda: combinations(list(L), k), listed, L=L, k=k)
    for n in range(0, 6 if THOROUGH else 5):
        rows = list(itertools.permutations(range(n + 1)))
        rng.shuffle(rows)
        for i in range(0, len(rows), 240):
            chunk = rows[i:i + 240]
            rec.case('simplex-%d-%d' % (n, i))
            for dt in (np.int64, np.int8):
                rec.call('simplexparity', lambda: relative_simplex_parity(np.array(chunk, dtype=dt)),
                         lambda p: dict(parity=ints(p)), rows=chunk)
    # every arrangement of the corners, one call each
    for n in (1, 2, 3):
        def one(row):
            try:
                return int(relative_cube_parity(np.array(row).reshape((1,) + (2,) * n))[0])
            except ValueError:
                return -1
        chunk, i = [], 0
        for row in itertools.permutations(range(2 ** n)):
            chunk.append(row)
            if len(chunk) == 720 or row == tuple(range(2 ** n))[::-1]:
                rec.case('cube-%d-%d' % (n, i))
                rec.call('cubeparity', lambda: [one(r) for r in chunk], lambda p: dict(parity=p), n=n, rows=chunk)
                chunk, i = [], i + 1
    for n in (1, 2, 3, 4):
        sym = set()
        base = tuple(range(2 ** n))
        while len(sym) < {1: 2, 2: 8, 3: 48, 4: 384}[n]:
            sym.add(M.present(base, n, rng))
        sym = sorted(sym)
        rng.shuffle(sym)
        for i in range(0, len(sym), 48):
            rec.case('cubes-%d-%d' % (n, i))
            rows = sym[i:i + 48]
            for dt in (np.int64, np.int8):
                rec.call('cubebatch', lambda: relative_cube_parity(np.array(rows, dtype=dt).reshape((-1,) + (2,) * n)),
                         lambda p: dict(parity=ints(p)), n=n, rows=rows)
        if n > 1:
            for i in range(30):
                rows = [list(r) for r in rng.sample(sym, min(5, len(sym)))]
                r = rows[rng.randrange(len(rows))]
                a, b = rng.sample(range(2 ** n), 2)
                r[a], r[b] = r[b], r[a]
                rec.case('mixed-%d-%d' % (n, i))
                rec.call('cubebatch', lambda: relative_cube_parity(np.array(rows).reshape((-1,) + (2,) * n)),
                         lambda p: dict(parity=ints(p)), n=n, rows=rows)
        if hasattr(TC, 'permutation_map'):
            for rot in (True, False):
                rec.case('table-%d-%s' % (n, rot))
                rec.call('symmetrytable', lambda: TC.permutation_map(n, rotations=rot),
                         lambda r: dict(parity=ints(r[0]), rows=ints(r[1])), n=n, rotations=rot)


if __name__ == '__main__':
    run(main)
