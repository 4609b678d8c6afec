"""Recording side of the conformance checks: runs the real library (from /repo) and writes one
ndjson event per public call, with its arguments and the projection of its result.
Only the public interface is used.  All indices in events are 1-based (TLA+ sequences)."""
import sys, os, json, signal, contextlib, traceback, random, warnings, io
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')
from fractions import Fraction

SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


signal.signal(signal.SIGALRM, _alarm)


class Inexact(Exception):
    """A number the specification says is rational with a known denominator is not."""


class Recorder(object):
    """Round-robins whole cases over `shards` files, so that TLC can validate them in parallel."""
    def __init__(self, outdir, shards=8):
        self.files = [open(os.path.join(outdir, 'trace%02d.ndjson' % i), 'w') for i in range(shards)]
        self.size = [0] * shards
        self.cur = 0
        self.case_id = None
        self.n_cases = 0
        self.n_events = 0

    def case(self, case_id):
        self.cur = self.size.index(min(self.size))
        self.case_id = case_id
        self.n_cases += 1
        self._write(dict(op='case', case=case_id))

    def _write(self, ev):
        s = json.dumps(ev, separators=(',', ':'), default=_np)
        self.files[self.cur].write(s + '\n')
        self.size[self.cur] += len(s)
        self.n_events += 1

    def emit(self, op, **kw):
        self._write(dict(kw, op=op, case=self.case_id))

    def call(self, op, fn, project=None, limit=60, **kw):
        """Run fn(); log `op` with project(result) merged in, or with the exception it raised.
        Returns the result or None."""
        try:
            with quiet(limit):
                r = fn()
                d = project(r) if project else {}
        except (Exception, Timeout, SystemExit, AssertionError) as e:
            self._write(dict(kw, op=op, case=self.case_id, raised=type(e).__name__,
                             message=('%s' % e)[:200], where=where(e)))
            return None
        self._write(dict(kw, op=op, case=self.case_id, **d))
        return r

    def close(self):
        for f in self.files:
            f.close()


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for fr in reversed(tb):
        if REPO in fr.filename:
            return '%s:%d' % (os.path.relpath(fr.filename, REPO), fr.lineno)
    return str(tb[-1])[:120] if tb else ''


@contextlib.contextmanager
def quiet(limit=60):
    signal.alarm(limit)
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        yield
    finally:
        signal.alarm(0)
        sys.stdout = out


def _np(o):
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    raise TypeError(type(o))


# --- projections -----------------------------------------------------------------------------

def sp(M):
    """Sparse (or dense) integer operator -> [r, c, cols] with 1-based (row, coefficient) entries.
    Entries must be integers; anything else raises Inexact (and is reported as such)."""
    import scipy.sparse
    M = scipy.sparse.coo_matrix(M)
    M = scipy.sparse.csc_matrix((M.data.astype(np.float64), (M.row, M.col)), shape=M.shape)
    M.sum_duplicates()
    M.eliminate_zeros()
    M.sort_indices()
    d = np.rint(M.data)
    if not np.array_equal(d, M.data):
        raise Inexact('non-integer coefficients')
    cols = []
    for j in range(M.shape[1]):
        a, b = M.indptr[j], M.indptr[j + 1]
        cols.append([[int(r) + 1, int(x)] for r, x in zip(M.indices[a:b], d[a:b])])
    return dict(r=int(M.shape[0]), c=int(M.shape[1]), cols=cols)


def rat(x, den=None, maxden=10000, tol=1e-7):
    """float -> [num, den], the exact rational intended; raises Inexact when there is none within tol."""
    x = float(x)
    if not np.isfinite(x):
        raise Inexact('not finite')
    f = Fraction(x).limit_denominator(den or maxden)
    if abs(float(f) - x) > tol * max(1, abs(x)):
        raise Inexact('%r is not a small rational' % x)
    return [f.numerator, f.denominator]


def rats(a, **kw):
    a = np.asarray(a)
    if a.ndim == 0:
        return rat(a, **kw)
    return [rats(b, **kw) for b in a]


def spr(M, **kw):
    """Sparse operator with rational coefficients -> rows: [r, c, rows] row-wise entries (col, num, den)."""
    import scipy.sparse
    M = scipy.sparse.csr_matrix(scipy.sparse.coo_matrix(M), dtype=np.float64)
    M.sum_duplicates()
    M.eliminate_zeros()
    M.sort_indices()
    rows = []
    for i in range(M.shape[0]):
        a, b = M.indptr[i], M.indptr[i + 1]
        rows.append([[int(c) + 1] + rat(x, **kw) for c, x in zip(M.indices[a:b], M.data[a:b])])
    return dict(r=int(M.shape[0]), c=int(M.shape[1]), rows=rows)


def ints(a):
    """integer-valued array -> nested lists of ints"""
    a = np.asarray(a)
    if a.dtype.kind == 'f':
        b = np.rint(a)
        if not np.array_equal(a, b):
            raise Inexact('non-integer values')
        a = b
    return a.astype(np.int64).tolist()


def kind_of(T):
    from pycomplex.topology.cubical import TopologyCubical
    return 'cubical' if isinstance(T, TopologyCubical) else 'simplicial'


def topo(T):
    """The public presentation of a topology: its elements and its boundary operators."""
    n = T.n_dim
    E = [(np.asarray(e).reshape(len(e), -1) + 1) for e in T.elements]
    if [len(e) for e in E] != [int(q) for q in T.n_elements]:
        raise AssertionError('n_elements disagrees with elements')
    return dict(kind=kind_of(T), n=int(n), E=[ints(e) for e in E], B=[sp(m) for m in T.matrices])


def cells(a):
    a = np.asarray(a)
    return ints(a.reshape(len(a), -1) + 1)


def run(main):
    """Entry point of every recorder: argv[1] = output directory."""
    out = sys.argv[1]
    rec = Recorder(out, shards=int(os.environ.get('VERIF_SHARDS', '8')))
    try:
        main(rec)
    except Exception as e:
        # a failure in a place the recorder does not guard is still an answer of the code under test
        rec.emit('escaped', raised=type(e).__name__, message=str(e)[:300], where=where(e),
                 tb=traceback.format_exc()[-1500:])
    rec.close()
    json.dump(dict(cases=rec.n_cases, events=rec.n_events), open(os.path.join(out, 'summary.json'), 'w'))
