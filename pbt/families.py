"""Symmetries with a meaningful unitary action, and the oracle for spaces of symmetric Hamiltonians.

The oracle knows a basis of the space of candidate Hamiltonians as numerical functions of k.  The symmetric ones are the real
null space of the linear conditions g.H(k) - H(k) = 0 at random points k, found by SVD; its dimension is used only if there is
a clear gap in the singular values.
"""
from .lib import *


def rotvec(R):
    """Rotation vector of a proper rotation matrix."""
    from scipy.spatial.transform import Rotation
    return Rotation.from_matrix(R).as_rotvec()


def proper(R):
    """(proper rotation in 3D, improper in 3D) of an orthogonal matrix in any dimension."""
    d = len(R)
    if d == 3:
        det = np.linalg.det(R)
        return R * np.sign(det), det < 0
    R3 = np.eye(3)
    R3[:d, :d] = R
    R3[2, 2] = 1
    if d == 1:
        R3 = np.diag([R[0, 0], R[0, 0], 1])
    else:
        R3[2, 2] = np.linalg.det(R) if d == 2 else 1
    return R3, False


def reps(blocks, vseed):
    """Angular momentum matrices for a list of 2s, in a random basis if vseed."""
    J = np.array([la.block_diag(*[spin(t / 2)[i] for t in blocks]) for i in range(3)])
    n = J.shape[1]
    V = np.eye(n) if vseed is None else mat(vseed, n, kind='unitary')
    return J, V


def signs(blocks, seed):
    r = rs(seed, 5)
    return np.concatenate([[r.choice([-1, 1])] * (t + 1) for t in blocks]) if blocks else np.array([])


def expm_h(v, J):
    H = np.tensordot(np.asarray(v, float), J, (0, 0))
    w, X = np.linalg.eigh(H)
    return (X * np.exp(-1j * w)) @ X.conj().T


@st.composite
def block_specs(draw, nmax=4):
    n = min(draw(st.sampled_from([2, 3, 2, 4, 1, 3, 2])), nmax)
    blocks, left = [], n
    while left:
        t = draw(st.integers(0, left - 1))
        blocks.append(t)
        left -= t + 1
    return blocks


@st.composite
def sym_specs(draw, dim, blocks, cont=True, exact=True, floats=True, rand=True, lattice=None, onlylocal=False, flags=True, nice=False):
    """[kind, Rspec or axis, c, a, seed]; kind rep | rand | local (continuous) | rot (continuous) | dlocal (discrete local)."""
    kinds = ['rep', 'rep', 'rep', 'dlocal'] + (['rand'] if rand else []) + (['local'] if cont else [])
    if cont and dim >= 2 and not onlylocal:
        kinds.append('rot')
    kind = draw(st.sampled_from(kinds))
    if kind in ('local', 'rot'):
        axis = [0, 0, 1] if dim == 2 or nice else draw(st.lists(st.integers(-2, 2), min_size=3, max_size=3).filter(any))
        return [kind, axis, False, False, draw(seeds)]
    R = draw(R_specs(dim, exact, floats, lattice)) if kind != 'dlocal' and dim else ['id', 0, 'sympy' if exact and not floats else 'int']
    c, a = draw(st.sampled_from([(0, 0), (0, 0), (0, 0), (1, 0), (1, 0), (1, 1), (0, 1)])) if flags else (0, 0)
    return [kind, R, bool(c), bool(a), draw(seeds)]


def sym_R(spec, dim):
    R = spec[1]
    if R[0] == 'id':
        return np.eye(dim, dtype=int)
    return R_num(R)


def sym_U(spec, blocks, vseed, dim):
    kind, R, c, a, seed = spec
    J, V = reps(blocks, vseed)
    n = len(V)
    if kind == 'local':
        # Hermitian, with few different eigenvalues
        st_ = rs(seed, 9).randint(3)
        if st_ == 0:
            return V @ np.diag(signs(blocks, seed)) @ V.conj().T
        if st_ == 1:
            return V @ np.tensordot(rs(seed).randint(-1, 2, 3).astype(float), J, (0, 0)) @ V.conj().T
        return mat(seed, n, kind='herm')
    if kind == 'rot':
        return V @ np.tensordot(np.array(R, float), J, (0, 0)) @ V.conj().T
    if kind == 'rand':
        return mat(seed, n, kind='unitary')
    Rm = sym_R(spec, dim)
    R3, imp = proper(Rm) if dim else (np.eye(3), False)
    if kind == 'dlocal':
        th = rs(seed, 11).choice([math.pi, math.pi / 2, 2 * math.pi / 3, 2 * math.pi, 0.0])
        U = expm_h([0, 0, th], J)
        if rs(seed, 12).randint(2):
            U = U * signs(blocks, seed)
    else:
        U = expm_h(rotvec(R3), J)
        if imp:
            U = U * signs(blocks, seed)
    if c:
        U = U @ expm_h([0, math.pi, 0], J)
    if a:
        U = U * signs(blocks, seed + 1)
    if rs(seed, 13).randint(3) == 0:
        U = U * np.exp(1j * rs(seed, 14).choice([math.pi / 2, math.pi, 0.7]))
    return V @ U @ (V.T if c else V.conj().T)


def sym_make(spec, blocks, vseed, dim, form=None):
    kind, R, c, a, seed = spec
    U = sym_U(spec, blocks, vseed, dim)
    if kind == 'local':
        Rm = [None, np.zeros((dim, dim))][seed % 2] if dim else None
        return ContinuousGroupGenerator(Rm, U)
    if kind == 'rot':
        return ContinuousGroupGenerator(rot_gen(R, dim), U)
    if R[0] == 'id':
        Rm = sympy.ImmutableMatrix(sympy.eye(dim)) if R[2] == 'sympy' and dim else np.eye(dim, dtype=int)
    else:
        Rm = R_make(R)
    return PointGroupElement(Rm, c, a, U)


def rot_gen(axis, dim):
    return np.tensordot(np.array(axis, float), L3, (0, 0))[:dim, :dim]


class Sym:
    """Reference of a symmetry given by a spec: residual(F, dF, k) must vanish for symmetric Hamiltonians."""

    def __init__(self, spec, blocks, vseed, dim):
        self.U = sym_U(spec, blocks, vseed, dim)
        self.cont = spec[0] in ('local', 'rot')
        if self.cont:
            self.R = rot_gen(spec[1], dim) if spec[0] == 'rot' else np.zeros((dim, dim))
        else:
            self.op = Op(sym_R(spec, dim).reshape(dim, dim), spec[2], spec[3], self.U)

    @classmethod
    def of(cls, g, dim):
        s = cls.__new__(cls)
        s.U = np.array(g.U, complex)
        s.cont = isinstance(g, ContinuousGroupGenerator)
        if s.cont:
            s.R = np.zeros((dim, dim)) if g.R is None else np.array(g.R, complex)
        else:
            s.op = Op(rnum(g.R).reshape(dim, dim), g.conjugate, g.antisymmetry, s.U)
        return s

    def residual(self, F, dF, k):
        if self.cont:
            f = F(k)
            r = 1j * (f @ self.U - self.U @ f)
            if np.any(self.R):
                v = 1j * self.R @ np.asarray(k, complex)
                r = r + np.tensordot(v, dF(k), (0, 0))
            return r
        return self.op.act(F, k) - F(k)


def bdg(sym, phase, n):
    """Symmetry extended to particle-hole space."""
    s = Sym.__new__(Sym)
    s.cont = sym.cont
    U = sym.U
    if s.cont:
        s.U, s.R = la.block_diag(U, -U.conj() + phase * np.eye(n)), sym.R
    else:
        s.U = la.block_diag(U, phase * U.conj())
        s.op = Op(sym.op.R, sym.op.c, sym.op.a, s.U)
    return s


def herm_basis(n):
    out = []
    for i in range(n):
        for j in range(i, n):
            A = np.zeros((n, n), complex)
            A[i, j] = A[j, i] = 1
            out.append(A)
            if i != j:
                B = np.zeros((n, n), complex)
                B[i, j], B[j, i] = 1j, -1j
                out.append(B)
    return np.array(out)


class Poly:
    """Monomials times matrices."""

    def __init__(self, powers, mats):
        self.p, self.m = np.array(powers, int).reshape(len(powers), -1), np.asarray(mats)

    def _out(self, x):
        return (x[:, None, None, None] * self.m[None]).reshape((-1,) + self.m.shape[1:])

    def F(self, k):
        k = np.asarray(k, complex)
        return self._out(np.prod(k[None] ** self.p, axis=1))

    def dF(self, k):
        k = np.asarray(k, complex)
        out = []
        for i in range(self.p.shape[1]):
            q = self.p.copy()
            q[:, i] = np.maximum(q[:, i] - 1, 0)
            out.append(self._out(self.p[:, i] * np.prod(k[None] ** q, axis=1)))
        return np.array(out)

    @property
    def size(self):
        return len(self.p) * len(self.m)


def powers(dim, degree, allowed=None):
    """Exponents of total degree; allowed: None or list of maximal power or list of powers per direction."""
    out = []
    for p in np.ndindex(*[degree + 1] * dim):
        if sum(p) != degree:
            continue
        if allowed is not None and not all((x <= a) if isinstance(a, int) else (x in a) for x, a in zip(p, allowed)):
            continue
        out.append(tuple(p))
    return out


def invariant_space(F, dF, size, syms, dim, npts, seed, gap=(1e-8, 1e-3)):
    """(dimension, orthonormal coefficient basis (rows)) of the invariant real combinations, None if there is no clear gap."""
    if size == 0:
        return 0, np.zeros((0, 0))
    if not syms:
        return size, np.eye(size)
    rows = []
    for i in range(npts):
        k = rs(seed, i, 31).uniform(-1, 1, dim)
        for s in syms:
            r = s.residual(F, dF, k)
            rows.append(realify(r.reshape(size, -1)).T)
    M = np.vstack(rows)
    # columns are basis functions; normalize the scale
    M = M / math.sqrt(npts)
    _, sv, vh = np.linalg.svd(M, full_matrices=True)
    sv = np.concatenate([sv, np.zeros(len(vh) - len(sv))])
    if np.any((sv > gap[0]) & (sv < gap[1])):
        return None
    return int(np.sum(sv <= gap[0])), vh[sv <= gap[0]]


def model_fun(m, mom, vals, shape):
    """Function of k of a Model."""
    return lambda k: evalm(m, at_k(vals, mom, k), shape)


def numeric_poly(m, mom, shape):
    """Fast function of k for a Model with monomial keys and no other symbols; also returns the derivative and the degrees."""
    gens = [sympy.Symbol(s) if isinstance(s, str) else s for s in mom]
    ps, ms = [], []
    for k, v in m.items():
        p = sympy.Poly(sympy.sympify(str(k)), *[sympy.Symbol(g.name) for g in gens]) if gens else None
        if gens:
            req(len(p.terms()) == 1 and not p.free_symbols_in_domain, f'key {k} is not a monomial of {mom}')
            (e_, c), = p.terms()
        else:
            e_, c = (), sympy.sympify(str(k))
        v = np.asarray(dense(v), complex)
        req(v.shape == tuple(shape), f'value of shape {v.shape}, expected {tuple(shape)}')
        ps.append(e_)
        ms.append(complex(c) * v)

    def F(k):
        k = np.asarray(k, complex)
        out = np.zeros(shape, complex)
        for p, v in zip(ps, ms):
            out = out + np.prod(k ** np.array(p, int)) * v
        return out

    def dF(k):
        k = np.asarray(k, complex)
        out = np.zeros((len(k),) + tuple(shape), complex)
        for p, v in zip(ps, ms):
            for i in range(len(k)):
                if p[i]:
                    q = np.array(p, int)
                    q[i] -= 1
                    out[i] += p[i] * np.prod(k ** q) * v
        return out
    return F, dF, ps, ms


def independent(rows, tol=1e-6):
    """Real vectors are linearly independent, by a clear margin."""
    if not len(rows):
        return True
    rows = np.asarray(rows)
    rows = rows / np.maximum(np.linalg.norm(rows, axis=1, keepdims=True), 1e-300)
    if len(rows) > rows.shape[1]:
        return False
    return la.svdvals(rows)[-1] > tol
