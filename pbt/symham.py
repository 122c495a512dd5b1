"""Hamiltonians with prescribed symmetries, conserved quantities and symmetry-related blocks, and the oracle for their symmetries.

Everything is done on plain data {(powers or hopping vector, powers of parameters): matrix}; hopping vectors are integers with respect to the lattice
vectors B.  Whether an operation is a symmetry is decided by linear algebra on the coefficients: a unitary U with U A_i = B_i U for all coefficients exists
exactly if a generic solution X of X A_i = B_i X, X A_i^+ = B_i^+ X is invertible.
"""
from .families import *

LATS = {1: ['one'], 2: ['sq', 'hex2'], 3: ['cu', 'hex3']}
SIZE = {'one': 2, 'sq': 8, 'hex2': 12, 'cu': 48, 'hex3': 24}
_h = math.sqrt(3) / 2
BAS = {'one': np.eye(1), 'sq': np.eye(2), 'cu': np.eye(3), 'hex2': np.array([[1, -0.5], [0, _h]]), 'hex3': np.array([[1, -0.5, 0], [0, _h, 0], [0, 0, 1]])}
_s3 = sympy.sqrt(3) / 2
BASX = {'hex2': [[1, -sympy.Rational(1, 2)], [0, _s3]], 'hex3': [[1, -sympy.Rational(1, 2), 0], [0, _s3, 0], [0, 0, 1]]}


# ---------------------------------------------------------------- data

def subst_poly(p, M):
    """Monomial prod k_i^p_i with k -> M k, as {powers: coefficient}."""
    out = {(0,) * len(p): 1.0}
    for i, e_ in enumerate(p):
        for _ in range(e_):
            new = {}
            for q, x in out.items():
                for j in range(len(p)):
                    if abs(M[i, j]) > 1e-12:
                        r = q[:j] + (q[j] + 1,) + q[j + 1:]
                        new[r] = new.get(r, 0) + x * M[i, j]
            out = new
    return out


def act_data(data, op, kind, lat, U=None):
    """Data of the transformed Hamiltonian; U overrides that of op, None for no unitary part."""
    out = {}
    Ri = np.linalg.inv(op.R)
    s = -1 if op.c else 1
    if kind == 'bloch':
        B = BAS[lat]
        Rn = np.round(np.linalg.inv(B) @ op.R @ B).astype(int)
    for (k, c), M in data.items():
        N = M.conj() if op.c else M
        if op.a:
            N = -N
        if U is not None:
            N = U @ N @ U.conj().T
        if kind == 'bloch':
            new = {tuple((Rn @ np.array(k, int)).tolist()): 1.0}
        else:
            new = subst_poly(k, s * Ri)
        for q, x in new.items():
            if abs(x) > 1e-12:
                out[(q, c)] = out.get((q, c), 0) + x * N
    return out


def clean(data, tol=1e-9):
    return {k: v for k, v in data.items() if np.max(np.abs(v)) > tol}


def dist(d1, d2, n):
    z = np.zeros((n, n))
    return max([np.max(np.abs(d1.get(k, z) - d2.get(k, z))) for k in set(d1) | set(d2)] + [0])


def model_of(data, kind, lat, mom, n, cls='Model', fmt='arr'):
    out = {}
    ms = [sympy.Symbol(m, commutative=False) for m in mom]
    for (k, c), M in data.items():
        f = sympy.Integer(1)
        for s, e_ in zip(('a', 'b'), c):
            f = f * sympy.Symbol(s) ** e_
        if kind == 'bloch':
            X = BASX.get(lat)
            vec_ = [sum(X[i][j] * k[j] for j in range(len(k))) for i in range(len(k))] if X else list(k)
            ks = [sympy.Symbol(m) for m in mom]
            ex = sympy.expand(sum(v * q for v, q in zip(vec_, ks)))
            if ex != 0:
                f = f * sympy.Symbol('e', positive=True) ** sympy.expand(sympy.I * ex)
        else:
            for s, e_ in zip(mom, k):
                f = f * sympy.Symbol(s) ** e_
        out[f] = fmt_value(np.asarray(M, complex), fmt)
    return (BlochModel if cls == 'BlochModel' else Model)(out, momenta=mom, shape=(n, n), format=FMT_CLASS[fmt])


# ---------------------------------------------------------------- operations with unitary part

def gen_op(g, lat, blocks):
    """[i, c, a, s]: a representation of operation i of the point group on the given spins."""
    i, c, a, s = g
    spec = ['rep', [lat, i % SIZE[lat], 'int'], bool(c), bool(a), s]
    d = {'one': 1, 'sq': 2, 'hex2': 2, 'cu': 3, 'hex3': 3}[lat]
    return Op(R_num(spec[1]), c, a, sym_U(spec, blocks, None, d))


def phase_key(o):
    U = o.U.ravel()
    i = int(np.argmax(np.abs(U) > 0.05))
    return o.key(4) + tuple(np.round(U * (abs(U[i]) / U[i]), 4).view(float) + 0.0)


def closure_ops(ops, cap=100, key=phase_key):
    els = {key(o): o for o in ops}
    todo = list(els.values())
    while todo:
        x = todo.pop()
        for g in ops:
            y = x * g
            k = key(y)
            if k not in els:
                if len(els) >= cap:
                    return None
                els[k] = y
                todo.append(y)
    return list(els.values())


# ---------------------------------------------------------------- generated Hamiltonians

SCALES = [[1, 1], [1, 1], [0.02, 1], [1, 0.004], [20, 1], [0.004, 1]]      # size of the terms with one more power of a or b


@st.composite
def ham_specs(draw, nmax=6, kinds=('poly', 'bloch'), dims=(1, 2, 2, 3), lats=None):
    dim = draw(st.sampled_from(dims))
    lat = draw(st.sampled_from(lats or LATS[dim]))
    dim = {'one': 1, 'sq': 2, 'hex2': 2, 'cu': 3, 'hex3': 3}[lat]
    kind = draw(st.sampled_from(kinds))
    parts = []
    n = 0
    for _ in range(draw(st.sampled_from([1, 1, 2, 2, 3]))):
        blocks = draw(st.sampled_from([[1], [1], [0], [0, 0], [2], [1, 0], [3], [1, 1]]))
        mult = draw(st.sampled_from([1, 1, 1, 2, 2, 3, 4]))
        orbit = draw(st.sampled_from([None, None, [draw(st.integers(0, 47)), draw(st.booleans()), draw(st.booleans()), draw(seeds)]]))
        size = sum(t + 1 for t in blocks) * mult
        if n + size > nmax:
            if n:
                break
            blocks, mult, size = [1], 1, 2
        terms = []
        for _ in range(draw(st.integers(1, 3))):
            if kind == 'poly':
                p = [0] * dim
                for _ in range(draw(st.integers(0, 2))):
                    p[draw(st.integers(0, dim - 1))] += 1
            else:
                p = [draw(st.sampled_from([0, 1, 0, -1, 1, 2])) for _ in range(dim)]
            terms.append([p, [draw(st.sampled_from([0, 0, 1])), draw(st.sampled_from([0, 0, 1]))], draw(seeds)])
        parts.append({'blocks': blocks, 'mult': mult, 'orbit': orbit, 'terms': terms, 'copy': draw(st.integers(0, 4)) == 0})
        n += size
    gens = draw(st.lists(st.tuples(st.integers(0, 47), st.booleans(), st.booleans(), seeds).map(list), min_size=0, max_size=2))
    return {'dim': dim, 'lat': lat, 'kind': kind, 'parts': parts, 'gens': gens, 'nmax': nmax, 'vseed': draw(maybe_seeds), 'scale': draw(st.sampled_from(SCALES)),
            'mom': draw(st.sampled_from([['k_x', 'k_y', 'k_z'], ['k_x', 'k_y', 'k_z'], ['k_z', 'k_x', 'k_y'], ['q', 'p', 'k']]))[:dim]}


class Ham:
    def __init__(self, spec):
        self.spec = spec
        lat, kind = spec['lat'], spec['kind']
        self.lat, self.kind, self.mom, self.dim = lat, kind, spec['mom'], spec['dim']
        pieces = []         # (data, size, multiplicity)
        total = 0
        for part in spec['parts']:
            b = part['blocks']
            n = sum(t + 1 for t in b)
            if total + n * part['mult'] > spec['nmax'] and total:
                break
            data = {}
            for p, c, s in part['terms']:
                M = mat(s, n, kind='any')
                if kind == 'poly':
                    M = M + M.conj().T
                    data[(tuple(p), tuple(c))] = data.get((tuple(p), tuple(c)), 0) + M
                else:
                    k, mk = (tuple(p), tuple(c)), (tuple(-x for x in p), tuple(c))
                    data[k] = data.get(k, 0) + M
                    data[mk] = data.get(mk, 0) + M.conj().T
            ops = [gen_op(g, lat, b) for g in spec['gens']]
            if ops:
                grp = closure_ops(ops, 100)
                if grp is None:
                    grp = closure_ops(ops[:1], 100)
                if grp:
                    new = {}
                    for o in grp:
                        for k, M in act_data(data, o, kind, lat, o.U).items():
                            new[k] = new.get(k, 0) + M / len(grp)
                    data = new
            images = [data]
            if part['orbit'] is not None:
                i, c, a, s = part['orbit']
                g = Op(R_num([lat, i % SIZE[lat], 'int']), c, a, None)
                x = g
                while len(images) < 6 and (x.c or x.a or not close(x.R, np.eye(self.dim))):
                    images.append(act_data(data, x, kind, lat))
                    x = x * g
                if (len(images) * part['mult'] * n + total) > spec['nmax']:
                    images = images[:1]
            for im in images:
                pieces.append((im, n, part['mult']))
                total += n * part['mult']
        self.n = N = total
        self.pieces = pieces
        V = np.eye(N) if spec['vseed'] is None else mat(spec['vseed'], N, kind='unitary')
        self.V = V
        self.data = {}
        off = 0
        for data, n, m in pieces:
            for k, M in data.items():
                A = np.zeros((N, N), complex)
                A[off:off + n * m, off:off + n * m] = np.kron(M, np.eye(m))
                self.data[k] = self.data.get(k, 0) + V @ A @ V.conj().T
            off += n * m
        self.data = clean(self.data, 1e-8)
        # parts below this size are neither zero nor clearly nonzero
        self.clear = all(np.max(np.abs(M)) > 1e-4 for M in self.data.values())

    def model(self, cls='Model', fmt='arr'):
        # symmetries do not depend on the size of terms with different parameters; the oracle works with terms of similar size
        x, y = getattr(self, 'spec', {}).get('scale', [1, 1])
        data = {(k, c): M * (x ** min(c[0], 1) * y ** min(c[1], 1)) for (k, c), M in self.data.items()}
        return model_of(data, self.kind, self.lat, self.mom, self.n, cls, fmt)

    def symmetric_under(self, op, U, tol=1e-7):
        return dist(act_data(self.data, op, self.kind, self.lat, U), self.data, self.n) <= tol * (1 + max([np.max(np.abs(M)) for M in self.data.values()] + [0]))

    def commutant(self):
        """Orthonormal basis (complex) of all matrices commuting with all coefficients; None if unclear."""
        return intertwiners([M for M in self.data.values()], [M for M in self.data.values()], self.n)

    def is_symmetry(self, op):
        """True, False or None (unclear): some unitary part makes op a symmetry."""
        img = act_data(self.data, op, self.kind, self.lat)
        z = np.zeros((self.n, self.n))
        keys = set(img) | set(self.data)
        X = intertwiners([img.get(k, z) for k in keys], [self.data.get(k, z) for k in keys], self.n)
        if X is None:
            return None
        if len(X) == 0:
            return False
        best = 0
        for t in range(3):
            r = rs(97, t, len(X))
            c = r.normal(size=len(X)) + 1j * r.normal(size=len(X))
            Y = np.tensordot(c, X, (0, 0))
            sv = la.svdvals(Y)
            best = max(best, sv[-1] / sv[0])
        if best > 1e-3:
            return True
        return False if best < 1e-7 else None


def intertwiners(As, Bs, n, gap=(1e-8, 1e-3)):
    """Orthonormal basis of X with X A_i = B_i X and X A_i^+ = B_i^+ X."""
    if n == 0:
        return None
    rows = []
    I = np.eye(n)
    for A, B in zip(As, Bs):
        A, B = np.asarray(A, complex), np.asarray(B, complex)
        for a, b in ((A, B), (A.conj().T, B.conj().T)):
            rows.append(np.kron(I, a.T) - np.kron(b, I))
    if not rows:
        return np.eye(n * n).reshape(n * n, n, n)
    M = np.vstack(rows)
    _, s, vh = np.linalg.svd(M, full_matrices=True)
    s = np.concatenate([s, np.zeros(len(vh) - len(s))])
    if np.any((s > gap[0]) & (s < gap[1])):
        return None
    return vh[s <= gap[0]].conj().reshape(-1, n, n)
