"""C18: utilities for Hamiltonian families."""
import contextlib
import io

from qsymm.hamiltonian_generator import (check_symmetry, constrain_family, display_family, hamiltonian_from_family, make_basis_pretty,
                                         remove_duplicates, round_family, subtract_family, symmetrize_monomial)

from .families import *
from .lib import _exact

P = Property('C18', 'cases: families of polynomial and Bloch Hamiltonians that are integer combinations of given terms, symmetries as for C15; '
             'oracle: real linear algebra on values at random points; non-trivial: stated with every law (the result is neither empty nor all of the input)')

GAP = (1e-8, 1e-3)


# ---------------------------------------------------------------- families from specs

@st.composite
def key_specs(draw, dim, kind, full):
    """List of [p, c, h] of different terms; full: closed under the symmetries."""
    if full:
        if kind == 'poly':
            deg = draw(st.integers(0, 2 if dim < 3 else 1))
            ks = [[list(p), [0, 0, 0], None] for d in ([deg] if draw(st.booleans()) else range(deg + 1)) for p in powers(dim, d)]
        else:
            h = draw(st.sampled_from([2, 1, 4]))
            vs = [[h * x for x in v] for v in ([[s if i == j else 0 for j in range(dim)] for i in range(dim) for s in (1, -1)])]
            if draw(st.booleans()):
                vs.append([0] * dim)
            ks = [[[0] * dim, [0, 0, 0], v] for v in vs]
        if draw(st.integers(0, 3)) == 0:
            c = [1, draw(st.integers(0, 2)), 0]
            ks = [[p, c, h] for p, _, h in ks]
        return ks
    out, seen = [], set()
    for _ in range(draw(st.integers(1, 4))):
        p = [0] * dim
        if kind != 'bloch' and dim:
            for _ in range(draw(st.integers(0, 2))):
                p[draw(st.integers(0, dim - 1))] += 1
        h = [draw(st.sampled_from([0, 2, -2, 1])) for _ in range(dim)] if kind != 'poly' else None
        c = [draw(st.sampled_from([0, 0, 1, 2])), draw(st.sampled_from([0, 0, 1])), 0]
        i = (tuple(p), tuple(c), tuple(h or [0] * dim))
        if i not in seen:
            seen.add(i)
            out.append([p, c, h])
    return out


@st.composite
def fams(draw, members=None, full=False, kinds=('poly', 'poly', 'bloch', 'mixed'), shape=None, mats=None, dims=(1, 2, 3), key=None, mix=True):
    dim = draw(st.sampled_from(dims))
    kind = draw(st.sampled_from(kinds)) if dim else 'poly'
    cls = draw(st.sampled_from(['Model', 'BlochModel'])) if kind == 'bloch' else 'Model'
    n = draw(st.integers(1, 3)) if shape is None else shape
    ks = draw(key_specs(dim, kind, full))
    if full:
        m = len(ks) * n * n
    else:
        m = draw(st.integers(1, 6))
    terms = [[draw(st.integers(0, len(ks) - 1)), draw(seeds)] for _ in range(0 if full else m)]
    rows = members if members is not None else draw(st.integers(1, 6))
    if full:
        C = 'mix' if mix and draw(st.booleans()) else 'id'
    else:
        C = [[draw(st.sampled_from([0, 0, 1, -1, 2, 1, -2])) for _ in range(m)] for _ in range(rows)]
    return {'dim': dim, 'kind': kind, 'cls': cls, 'n': n, 'keys': ks, 'terms': terms, 'C': C, 'mats': mats or draw(st.sampled_from(['herm', 'any', 'int'])),
            'mom': draw(st.sampled_from([['k_x', 'k_y', 'k_z'], ['k_x', 'k_y', 'k_z'], ['k_z', 'k_x', 'k_y'], ['ell', 'p_1', 'kk']]))[:dim], 'seed': draw(seeds)}


def mixing(seed, m):
    """Integer matrix of determinant 1."""
    A = np.eye(m, dtype=int)
    r = rs(seed, m, 3)
    for _ in range(2 * m):
        i, j = r.randint(0, m, 2)
        if i != j:
            A[i] += r.choice([-1, 1]) * A[j]
    return A if np.linalg.cond(A) < 1e3 else np.eye(m, dtype=int)


class Fam:
    def __init__(self, case):
        self.case, self.n, self.mom = case, case['n'], case['mom']
        ks = [Term(k + [0]) for k in case['keys']]
        n = self.n
        if case['terms']:
            kind = {'herm': 'herm', 'any': 'any', 'int': 'int'}[case['mats']]
            self.cand = [(ks[j], np.round(mat(s, n, kind='any' if kind == 'int' else kind)) if kind == 'int' else mat(s, n, kind=kind)) for j, s in case['terms']]
        else:
            H = herm_basis(n)
            self.cand = [(k, h) for k in ks for h in H]
        m = len(self.cand)
        C = case['C']
        self.C = np.eye(m, dtype=int) if isinstance(C, str) and C == 'id' else mixing(case['seed'], m) if isinstance(C, str) else np.array(C, int).reshape(-1, m)
        self.names = list(self.mom) + list(PARAMS)

    def data(self, row):
        """{(powers, coefficients, hopping): matrix}"""
        out = {}
        for x, (k, M) in zip(row, self.cand):
            if x:
                i = (tuple(k.p), tuple(k.c), None if k.h is None else tuple(k.h))
                out[i] = out.get(i, 0) + x * M
        return out

    def of_data(self, data):
        data = {Term([list(p), list(c), None if h is None else list(h), 0]).key(self.mom): M for (p, c, h), M in data.items()}
        cls = BlochModel if self.case['cls'] == 'BlochModel' else Model
        return cls(data, momenta=self.mom, shape=(self.n, self.n), format=np.ndarray)

    def model(self, row):
        data = {}
        for x, (k, M) in zip(row, self.cand):
            if x:
                ky = k.key(self.mom)
                data[ky] = data.get(ky, 0) + x * M
        cls = BlochModel if self.case['cls'] == 'BlochModel' else Model
        return cls(data, momenta=self.mom, shape=(self.n, self.n), format=np.ndarray)

    def models(self):
        return [self.model(r) for r in self.C]

    def F(self, vals):
        """Values of all members at vals: (members, n, n)."""
        c = np.array([k.coef(self.mom, vals) * M for k, M in self.cand])
        return np.tensordot(self.C, c, (1, 0))

    def at(self, k, pv):
        """Allows complex momenta."""
        v = dict(pv)
        v.update(zip(self.mom, k))
        return self.F(v)

    def points(self, count):
        out = []
        for i in range(count):
            v = values(self.case['seed'] + 7919 * i, self.names)
            out.append(v)
        return out

    def vectors(self, pts):
        """Real vectors of all members."""
        return np.hstack([realify(self.F(v).reshape(len(self.C), self.n ** 2)) for v in pts])

    def reduce(self):
        """Leave out dependent members."""
        V, keep = self.vectors(self.points(self.npts())), []
        for i in range(len(V)):
            if rank(V[keep + [i]]) == len(keep) + 1:
                keep.append(i)
        self.C = self.C[keep]

    def npts(self):
        return 2 * len(self.case['keys']) + 3


def vectors_of(models, fam, pts):
    if not len(models):
        return np.zeros((0, 2 * fam.n ** 2 * len(pts)))
    return np.array([np.concatenate([realify(evalm(m, v, (fam.n, fam.n)).reshape(-1)) for v in pts]) for m in models]).reshape(len(models), -1)


def rank(V, gap=GAP):
    """Rank, None if unclear."""
    if V.size == 0:
        return 0
    s = la.svdvals(V)
    s0 = max(s[0], 1e-3)
    if np.any((s > gap[0] * s0) & (s < gap[1] * s0)):
        return None
    return int(np.sum(s >= gap[1] * s0))


def same_kind(models, fam, what):
    cls = BlochModel if fam.case['cls'] == 'BlochModel' else Model
    for m in models:
        req(type(m) is cls and names(m) == tuple(fam.mom) and tuple(m.shape) == (fam.n, fam.n),
            f'{what}: member is {type(m).__name__} with momenta {names(m)} and shape {m.shape}')


def labels(rec, case):
    rec.label(case['cls'] + ' ' + case['kind'], f"{case['dim']}D")


# ---------------------------------------------------------------- constrain_family, check_symmetry

@st.composite
def constrained(draw, nice=False):
    full = draw(st.sampled_from([True, True, False]))
    blocks = draw(block_specs(2 if full else 3))
    n = sum(t + 1 for t in blocks)
    f = draw(fams(full=full, shape=n, kinds=('poly', 'poly', 'bloch'), dims=(1, 2, 2, 3), mats=None))
    dim = f['dim']
    bloch = f['kind'] != 'poly'
    ss = draw(st.lists(sym_specs(dim, blocks, exact=False, cont=not bloch), min_size=0 if draw(st.integers(0, 9)) == 0 else 1, max_size=2))
    if bloch:
        # rotations that map the hoppings to each other
        ss = [[k, (R if R[0] in ('one', 'sq', 'cu') else [{1: 'one', 2: 'sq', 3: 'cu'}[dim], R[1] % 48, 'float']) if k not in ('local', 'rot', 'dlocal') else R, c, a, s]
              for k, R, c, a, s in ss]
        if draw(st.integers(0, 4)) == 0:
            ss.append(['local', [0, 0, 1], False, False, draw(seeds)])
    if dim == 3:
        ss = [[k, R if k != 'rep' and k != 'rand' else ['cu', R[1] % 48, 'int'], c, a, s] for k, R, c, a, s in ss]
    return {'f': f, 'blocks': blocks, 'vseed': draw(maybe_seeds), 'syms': ss, 'sparse': draw(st.integers(0, 5)) == 0,
            'form': draw(st.sampled_from(['list', 'tuple', 'iter'])), 'rot': 0}


def resid(refs, fam, v):
    """Residuals of all symmetries for all members at a point: (members, ...)."""
    k0 = np.array([v[m] for m in fam.mom])
    F = lambda k: fam.at(k, v)     # noqa

    def dF(k):
        h = 0.4
        out = []
        for i in range(len(k)):
            e = np.zeros(len(k))
            e[i] = h
            out.append((8 * (F(k + e) - F(k - e)) - (F(k + 2 * e) - F(k - 2 * e))) / (12 * h))    # exact for these degrees
        return np.array(out)
    return [s.residual(F, dF, k0) for s in refs]


class One:
    """A Model as function."""

    def __init__(self, m, f):
        self.m, self.mom, self.n = m, f.mom, f.n

    def at(self, k, v):
        return evalm(self.m, {**v, **dict(zip(self.mom, k))}, (self.n, self.n))


def prepared(case):
    f = Fam(case['f'])
    d = f.case['dim']
    gs = [sym_make(s, case['blocks'], case['vseed'], d) for s in case['syms']]
    gs = [ContinuousGroupGenerator(None, g.U) if isinstance(g, ContinuousGroupGenerator) and f.case['kind'] != 'poly' else g for g in gs]
    refs = [Sym(s, case['blocks'], case['vseed'], d) for s in case['syms']]
    return f, gs, refs


@P.law(constrained(), 600)
def constrain(case, rec):
    """constrain_family gives a basis of the symmetric real combinations of the family, also for no or only continuous symmetries; non-trivial: some but
    not all combinations are symmetric."""
    f, gs, refs = prepared(case)
    f.reduce()
    pts = f.points(f.npts())
    V = f.vectors(pts)
    if not len(V):
        req(list(constrain_family(gs, [])) == [], 'constraining an empty family gives something')
        return rec.trivial()
    labels(rec, case['f'])
    ms = f.models()
    snaps = [snapshot(m) for m in ms]
    arg = {'list': gs, 'tuple': tuple(gs), 'iter': iter(gs)}[case['form']]
    got = constrain_family(arg, ms if case['form'] != 'tuple' else tuple(ms), **({'sparse_linalg': True} if case['sparse'] else {}))
    for m, s in zip(ms, snaps):
        unchanged(m, s, 'constrain_family')
    got = list(got)
    same_kind(got, f, 'constrain_family')
    rows = [realify(r.reshape(len(V), f.n ** 2)).T for v in pts for r in resid(refs, f, v)]
    if rows:
        M = np.vstack(rows)
        sv = la.svdvals(M / math.sqrt(len(pts)))
        sv = np.concatenate([sv, np.zeros(max(0, len(V) - len(sv)))])
        gap = (1e-8, 0.1) if case['sparse'] else GAP
        if np.any((sv > gap[0]) & (sv < gap[1])):
            rec.label('no clear gap')
            return rec.trivial()
        want = int(np.sum(sv <= gap[0]))
    else:
        want = len(V)
    if not 0 < want < len(V):
        rec.trivial()
    req(len(got) == want, f'constrain_family returns {len(got)} members, {want} of {len(V)} independent combinations are symmetric')
    if not got:
        return
    W = vectors_of(got, f, pts)
    req(rank(W, (1e-7, 1e-7)) == want, 'members returned by constrain_family are dependent')
    tol = 1e-4 if case['sparse'] else 1e-6
    c = la.lstsq(V.T, W.T)[0]
    same(V.T @ c, W.T, 'member returned by constrain_family is not a real combination of the family', tol)
    if rows:
        req(np.max(np.abs(M @ c)) < tol * max(1, np.max(np.abs(W))) * 10, 'member returned by constrain_family is not symmetric')


@P.law(constrained(), 600)
def checking(case, rec):
    """check_symmetry raises ValueError exactly if some member is not symmetric, and constrained families pass; non-trivial: a family passes that is not
    empty, or it fails."""
    f, gs, refs = prepared(case)
    ms = f.models()
    labels(rec, case['f'])
    if case['vseed'] is not None and case['vseed'] % 3 == 0 or case['sparse']:
        V = f.vectors(f.points(f.npts()))
        if rank(V) != len(V):
            return rec.trivial()
        ms = list(constrain_family(gs, ms))
        worst = max([0] + [np.max(np.abs(r)) for m in ms for v in f.points(3) for r in resid(refs, One(m, f), v)])
        if worst > 1e-8:
            return rec.trivial()     # judged by another law
        expect = False
    else:
        worst = max([0] + [np.max(np.abs(r)) for v in f.points(4) for r in resid(refs, f, v)])
        if 1e-9 < worst < 1e-3:
            return rec.trivial()
        expect = worst > 1e-3
    if not ms or not gs:
        rec.trivial()
    snaps = [snapshot(m) for m in ms]
    arg = {'list': gs, 'tuple': tuple(gs), 'iter': iter(gs)}[case['form']]
    fam_arg = iter(ms) if case['form'] == 'iter' else ms
    try:
        res = check_symmetry(fam_arg, arg)
        failed = False
        req(res is None, 'check_symmetry returns something')
    except ValueError:
        failed = True
    rec.label('violated' if expect else 'satisfied')
    for m, s in zip(ms, snaps):
        unchanged(m, s, 'check_symmetry')
    req(failed == expect, f'check_symmetry {"raises for a symmetric family" if failed else "accepts a family that violates a symmetry"}, largest violation {worst:.2g}')


@st.composite
def rounding_cases(draw):
    n = draw(st.integers(1, 3))
    dim = draw(st.integers(1, 2))
    return {'f': draw(fams(shape=n, dims=(dim,), kinds=('poly', 'bloch'))), 'g': [{1: 'one', 2: 'sq'}[dim], draw(st.integers(0, 7)), 'int'], 'c': draw(st.booleans()), 'a': draw(st.booleans()),
            'u': draw(seeds), 'digits': draw(st.integers(2, 6)), 'eps': draw(st.sampled_from([0, 0.4, 0.4, 30])), 'at': draw(st.integers(0, 100))}


@P.law(rounding_cases(), 800)
def rounded(case, rec):
    """With num_digits, check_symmetry ignores exactly the violations below that precision; round_family rounds every member; non-trivial: symmetric and not zero."""
    f = Fam(case['f'])
    n, d = f.n, case['digits']
    r = rs(case['u'], 61)
    Pm = np.zeros((n, n), complex)
    Pm[np.arange(n), r.permutation(n)] = r.choice([1, -1], n)
    op = Op(R_num(case['g']), case['c'], case['a'], Pm)
    g = PointGroupElement(R_make(case['g']), case['c'], case['a'], Pm)
    labels(rec, case['f'])
    # symmetrize over the cyclic group and round: entries are far from the boundaries of rounding
    order = 1
    x = op
    while not (close(x.R, np.eye(len(x.R))) and close(x.U, np.eye(n)) and not x.c and not x.a):
        x = x * op
        order += 1
        if order > 24:
            return rec.trivial()
    out = []
    for row in f.C:
        data = {}
        for i in range(order):
            for k, M in apply_terms(f.data(row), op.power(i)).items():
                data[k] = data.get(k, 0) + M
        out.append({k: np.round(v.real * 2) / 2 + 1j * np.round(v.imag * 2) / 2 for k, v in data.items()})
    if not any(np.any(v) for dta in out for v in dta.values()):
        return rec.trivial()
    eps = case['eps'] * 10 ** -d if case['eps'] < 1 else max(0.05, case['eps'] * 10 ** -d)
    ms = [{k: np.array(v) for k, v in data.items()} for data in out]
    big = [(i, k) for i, dta in enumerate(ms) for k in sorted(dta, key=str) if np.any(dta[k])]
    i, k = big[case['at'] % len(big)]
    j = np.unravel_index(np.argmax(np.abs(ms[i][k])), (n, n))
    ms[i][k][j] += eps
    # a violation remains unless the element maps the changed entry to itself
    fam_ = [f.of_data(dta) for dta in ms]
    viol = 0
    for dta in ms:
        new = apply_terms(dta, op)
        for kk in set(new) | set(dta):
            viol = max(viol, np.max(np.abs(new.get(kk, 0) - dta.get(kk, np.zeros((n, n))))))
    rec.label(f"eps {case['eps']}", 'violated' if viol else 'symmetric')

    def passes(**kw):
        try:
            check_symmetry(fam_, [g], **kw)
            return True
        except ValueError:
            return False
    rounded_ = round_family(fam_, d)
    req(isinstance(rounded_, list) and len(rounded_) == len(fam_), 'round_family changes the number of members')
    for m, w in zip(rounded_, fam_):
        req(type(m) is type(w) and names(m) == names(w), 'round_family changes the kind of a member')
        for kk in set(w) | set(m):
            got, x = dense(m[kk]), dense(w[kk])
            req(np.max(np.abs(got - x)) <= 0.5001 * math.sqrt(2) * 10 ** -d + 1e-12, f'round_family({d}) changes an entry by more than rounding')
            req(np.allclose(got * 10 ** d, np.round(got * 10 ** d), atol=1e-6, rtol=0), f'round_family({d}) does not round')
    small = case['eps'] < 1
    if small or not viol:
        req(passes(num_digits=d), f'check_symmetry with num_digits={d} raises for a violation by {viol:.2g}')
    else:
        req(not passes(num_digits=d), f'check_symmetry with num_digits={d} accepts a violation by {viol:.2g}')
    if viol > 1e-3:
        req(not passes(), f'check_symmetry accepts a violation by {viol:.2g}')
    if not viol:
        req(passes(), 'check_symmetry raises for a symmetric family')


def apply_terms(data, op):
    """Terms of the transformed Hamiltonian for a signed permutation, without the library."""
    out = {}
    Ri = np.round(np.linalg.inv(op.R)).astype(int)
    for (p, c, h), M in data.items():
        s = -1 if op.c else 1
        N = op.U @ (M.conj() if op.c else M) @ op.U.conj().T * (-1 if op.a else 1)
        # exp(i h R^-1 (+-k)), conjugated for antiunitary symmetries
        hh = None if h is None else tuple((np.array(h) @ Ri).tolist())
        sign, q = 1, [0] * len(p)
        for i, e_ in enumerate(p):
            j = int(np.argmax(np.abs(Ri[i])))
            sign *= (s * Ri[i, j]) ** e_
            q[j] += e_
        k = (tuple(q), c, hh)
        out[k] = out.get(k, 0) + sign * N
    return out


# ---------------------------------------------------------------- spans

@P.law(fams(), 1500)
def duplicates(case, rec):
    """remove_duplicates gives independent members with the same real span; non-trivial: the family is dependent and not zero."""
    f = Fam(case)
    pts = f.points(f.npts())
    V = f.vectors(pts)
    r = rank(V)
    if r is None:
        return rec.trivial()
    labels(rec, case)
    ms = f.models()
    if not 0 < r < len(V):
        rec.trivial()
    snaps = [snapshot(m) for m in ms]
    got = remove_duplicates(ms)
    for m, s in zip(ms, snaps):
        unchanged(m, s, 'remove_duplicates')
    req(len(got) == r, f'remove_duplicates returns {len(got)} members, {r} of {len(ms)} are independent')
    same_kind(got, f, 'remove_duplicates')
    if r:
        W = vectors_of(got, f, pts)
        req(rank(W, (1e-7, 1e-7)) == r, 'members returned by remove_duplicates are dependent')
        req(in_span(W, V) and in_span(V, W), 'remove_duplicates changes the span')
    req(remove_duplicates([]) == [], 'remove_duplicates of an empty family is not empty')


@st.composite
def subtractions(draw):
    f = draw(fams(members=draw(st.integers(2, 6))))
    return {'f': f, 'mode': draw(st.sampled_from(['inside', 'inside', 'orthogonal', 'both', 'neither', 'empty'])), 'k': draw(st.integers(1, 3)), 's': draw(seeds),
            'pretty': draw(st.integers(0, 3)) == 0}


@P.law(subtractions(), 1500)
def subtraction(case, rec):
    """subtract_family gives independent members inside the span of the first family that together with the second span it again and contain nothing
    of the second; a second family that is neither inside nor orthogonal raises; non-trivial: something is removed and something is left."""
    f = Fam(case['f'])
    n = f.n
    pts = f.points(f.npts())
    V = f.vectors(pts)
    r1 = rank(V)
    if r1 is None:
        return rec.trivial()
    labels(rec, case['f'])
    rec.label(case['mode'])
    rr = rs(case['s'], 71)
    ms = f.models()
    m1 = len(ms)
    C2 = rr.randint(-2, 3, (case['k'], m1))
    inside = [Fam(dict(case['f'], C=(C2 @ f.C).tolist()))]
    mode = case['mode']
    fam2, V2 = [], np.zeros((0, V.shape[1]))
    other = sympy.Symbol('other')
    cls = type(ms[0])
    if mode in ('inside', 'both'):
        fam2 += inside[0].models()
        V2 = inside[0].vectors(pts)
    if mode in ('orthogonal', 'both'):
        # terms with a coefficient that the family has not
        fam2 += [cls({other * sympy.Integer(1): mat(case['s'], n)}, momenta=f.mom, shape=(n, n), format=np.ndarray)]
    if mode == 'neither':
        w = ms[0] + cls({other: np.eye(n) * (1 + 0j)}, momenta=f.mom)
        fam2 += [w]
    if mode == 'empty':
        fam2 = []
    r2 = rank(V2) if len(V2) else 0
    if r2 is None:
        return rec.trivial()
    # conditioning: the projections have to be well defined for a tolerance of 1e-8
    sn1, sn2 = [snapshot(m) for m in ms], [snapshot(m) for m in fam2]
    if mode == 'neither':
        if np.max(np.abs(V[0])) < 0.1:
            return rec.trivial()
        raises(ValueError, lambda: subtract_family(ms, fam2), 'subtract_family accepts a family that is neither inside nor orthogonal')
        for m, s in zip(ms + fam2, sn1 + sn2):
            unchanged(m, s, 'subtract_family')
        return
    got = subtract_family(ms, fam2, prettify=True) if case['pretty'] else subtract_family(ms, fam2)
    for m, s in zip(ms + fam2, sn1 + sn2):
        unchanged(m, s, 'subtract_family')
    if mode == 'empty':
        req(list(got) == list(ms), 'subtracting an empty family changes the family')
        return rec.trivial()
    if not 0 < r2 < r1:
        rec.trivial()
    tol = 1e-5 if case['pretty'] else 1e-6
    if case['pretty']:
        got = [m for m in got if max([np.max(np.abs(v)) for v in m.values()], default=0) > 1e-7]
    req(len(got) == r1 - r2, f'subtract_family returns {len(got)} members, expected {r1} - {r2}')
    same_kind(got, f, 'subtract_family')
    W = vectors_of(got, f, pts)
    if len(got):
        req(rank(W, (1e-7, 1e-7)) == len(got), 'members returned by subtract_family are dependent')
        req(in_span(W, V, tol), 'subtract_family returns something outside of the first family')
        both = np.vstack([W / np.linalg.norm(W, axis=1, keepdims=True), V2]) if len(V2) else W
        req(rank(both, (1e-7, 1e-7)) == r1, 'subtract_family: the result and the second family do not span the first family')
    req(subtract_family([], fam2) == [], 'subtracting from an empty family gives something')


@P.law(fams(mats='int'), 1000)
def echelon(case, rec):
    """make_basis_pretty gives the same real span in reduced echelon form: every member has an entry 1 that is zero in all others, and entries are rounded;
    non-trivial: at least two independent members."""
    f = Fam(case)
    f.reduce()
    pts = f.points(f.npts())
    V = f.vectors(pts)
    if rank(V) != len(V):
        return rec.trivial()
    if len(V) < 2:
        rec.trivial()
    labels(rec, case)
    ms = f.models()
    snaps = [snapshot(m) for m in ms]
    nd = 6 + case['seed'] % 5
    got = make_basis_pretty(ms, num_digits=nd)
    for m, s in zip(ms, snaps):
        unchanged(m, s, 'make_basis_pretty')
    req(isinstance(got, list) and len(got) == len(ms), f'make_basis_pretty returns {len(got)} members for {len(ms)} independent ones')
    same_kind(got, f, 'make_basis_pretty')
    W = vectors_of(got, f, pts)
    req(in_span(V, W, 1e-3) and in_span(W, V, 1e-3), 'make_basis_pretty changes the span')
    keys = sorted({k for m in got for k in m}, key=str)
    E = np.array([np.concatenate([realify(dense(m[k]).reshape(-1)) for k in keys]) for m in got])
    req(close(E, np.round(E, nd), 1e-12), 'make_basis_pretty does not round')
    for i in range(len(E)):
        piv = (np.abs(E[i] - 1) < 1e-5) & (np.sum(np.abs(np.delete(E, i, 0)), axis=0) < 1e-5)
        req(np.any(piv), f'make_basis_pretty: member {i} has no entry 1 that only it has: {got}')
    req(make_basis_pretty([]) == [], 'make_basis_pretty of an empty family is not empty')


# ---------------------------------------------------------------- symmetrization, linear combinations

@st.composite
def averages(draw):
    dim = draw(st.sampled_from([1, 2, 2, 3]))
    n = draw(st.integers(1, 3))
    f = draw(fams(members=1, shape=n, dims=(dim,)))
    lat = {1: ['one'], 2: ['sq', 'hex2'], 3: ['cu', 'hex3']}[dim]
    return {'f': f, 'lat': draw(st.sampled_from(lat)), 'gens': draw(st.lists(st.tuples(st.integers(0, 47), st.booleans(), st.booleans(), seeds), min_size=1, max_size=2)),
            'form': draw(st.sampled_from(['float', 'exact'])), 'cont': draw(st.sampled_from(['list', 'set']))}


@P.law(averages(), 700)
def averaging(case, rec):
    """symmetrize_monomial is the average of the images under all elements of the group, hence symmetric; non-trivial: at least two elements and the average is not zero."""
    f = Fam(case['f'])
    n = f.n
    size = {'one': 2, 'sq': 8, 'cu': 48, 'hex2': 12, 'hex3': 24}[case['lat']]
    ops = []
    for i, c, a, s in case['gens']:
        r = rs(s, 81)
        U = np.zeros((n, n), complex)
        U[np.arange(n), r.permutation(n)] = r.choice([1, -1, 1j, -1j], n)
        ops.append(Op(R_num([case['lat'], i % size, 'int']), c, a, U))
    els, todo = {}, []

    def key(o):
        i = np.argmax(np.abs(o.U[0]))
        return o.key(4) + tuple(np.round(o.U * abs(o.U[0, i]) / o.U[0, i], 5).view(float).ravel() + 0.0)
    els = {key(o): o for o in ops}
    todo = list(els.values())
    while todo:
        x = todo.pop()
        for g in ops:
            y = x * g
            if key(y) not in els:
                if len(els) >= 16:
                    return rec.trivial()
                els[key(y)] = y
                todo.append(y)
    group = list(els.values())
    form = case['form']

    def R_obj(o):
        if form == 'float' or case['lat'] in ('hex2', 'hex3') and case['f']['kind'] == 'mixed':
            return o.R
        if case['lat'] in ('hex2', 'hex3'):
            return sympy.ImmutableMatrix([[_exact(x) for x in row] for row in o.R])
        return ta.array(np.round(o.R).astype(int).tolist(), int)
    gs = [PointGroupElement(R_obj(o), o.c, o.a, o.U) for o in group]
    # elements with equal space part are equal as objects, only pass those as a list
    if len({o.key(4) for o in group}) == len(group) and case['cont'] == 'set':
        gs = set(gs)
    rec.label(f'{len(group)} elements', case['lat'])
    labels(rec, case['f'])
    m, = f.models()
    snap = snapshot(m)
    got = symmetrize_monomial(m, gs)
    unchanged(m, snap, 'symmetrize_monomial')
    same_kind([got], f, 'symmetrize_monomial')
    big = 0
    for v in f.points(3):
        F = lambda k: f.at(k, v)[0]     # noqa
        k0 = np.array([v[s] for s in f.mom])
        want = sum(o.act(F, k0) for o in group) / len(group)
        big = max(big, np.max(np.abs(want)))
        same(evalm(got, v, (n, n)), want, f'average over {len(group)} elements', 1e-6)
    if big < 1e-6 or len(group) < 2:
        rec.trivial()


@st.composite
def combos(draw):
    f = draw(fams(members=draw(st.integers(1, 4)), mats='int'))
    return {'f': f, 'coeffs': draw(st.sampled_from(['default', 'default', 'symbols', 'numbers', 'expr', 'more', 'zeros', 'floats'])), 'sympy': draw(st.booleans()), 'ns': draw(st.booleans())}


@P.law(combos(), 1000)
def combination(case, rec):
    """hamiltonian_from_family is the sum of coefficient times member, as Model or sympy matrix, with coefficients c0, c1, ... by default; a wrong number of
    coefficients raises; display_family prints the members, or the sum; non-trivial: at least two members."""
    f = Fam(case['f'])
    ms = f.models()
    n, r = f.n, len(ms)
    labels(rec, case['f'])
    rec.label(case['coeffs'])
    if r < 2:
        rec.trivial()
    snaps = [snapshot(m) for m in ms]
    kind = case['coeffs']
    sy = sympy.symbols('t0:%d' % r)
    coeffs = {'default': None, 'symbols': list(sy), 'numbers': [sympy.Rational(i + 1, 2) for i in range(r)], 'expr': [s * sympy.Symbol('a') for s in sy],
              'zeros': [[0, 2, 0.5, 0][i % 4] if case['ns'] else 0 for i in range(r)], 'floats': [0.7 * i - 1.4 for i in range(r)],
              'more': list(sympy.symbols('c0:%d' % (r + 1)))}[kind]
    if kind == 'more':
        raises(AssertionError, lambda: hamiltonian_from_family(ms, coeffs=coeffs), 'hamiltonian_from_family accepts a wrong number of coefficients')
        return
    extra = [f'c{i}' for i in range(r)] + [f't{i}' for i in range(r)]

    def want(v):
        x = {'default': [v[f'c{i}'] for i in range(r)], 'symbols': [v[f't{i}'] for i in range(r)], 'numbers': [(i + 1) / 2 for i in range(r)],
             'expr': [v[f't{i}'] * v['a'] for i in range(r)]}.get(kind, coeffs)
        return np.tensordot(x, f.F(v), (0, 0))
    kw = {} if coeffs is None else {'coeffs': coeffs}
    nm = f.names + extra
    if not case['sympy']:
        got = hamiltonian_from_family(ms, tosympy=False, **kw)
        same_kind([got], f, 'hamiltonian_from_family')
        agree(got, want, nm, 'hamiltonian_from_family', case['f']['seed'], 3, (n, n))
    elif not any(np.any(f.F(v)) for v in f.points(1)):
        return rec.trivial()       # a zero Model has no shape in sympy
    else:
        got = hamiltonian_from_family(ms, nsimplify=case['ns'], **kw)
        req(isinstance(got, sympy.MatrixBase) and got.shape == (n, n), f'hamiltonian_from_family returns {type(got).__name__}')
        for v in points(case['f']['seed'], nm, 2):
            e = np.array([[evalexpr(got[i, j], v) for j in range(n)] for i in range(n)])
            same(e, want(v), 'sympy form of hamiltonian_from_family', 1e-6)
        try:
            import IPython      # noqa
        except ImportError:
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                display_family(ms, summed=True, nsimplify=case['ns'], **kw)
            req(out.getvalue() == str(got) + '\n', 'display_family does not print the sum')
            if all(m.data for m in ms):
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    display_family(ms, nsimplify=case['ns'])
                req(out.getvalue() == ''.join(str(m.tosympy(nsimplify=case['ns'])) + '\n' for m in ms), 'display_family does not print the members')
    for m, s in zip(ms, snaps):
        unchanged(m, s, 'hamiltonian_from_family')


@st.composite
def generator_rounding(draw):
    n = draw(st.integers(2, 4))
    return {'n': n, 'dim': draw(st.integers(1, 3)), 'kind': draw(st.sampled_from(['poly', 'bloch'])), 'd': [draw(st.sampled_from([0, 1, 0.5])) for _ in range(n)],
            'seed': draw(seeds), 'digits': draw(st.integers(2, 6)), 'eps': draw(st.sampled_from([0, 0.4, 0.4, 30])), 'spatial': draw(st.booleans())}


@P.law(generator_rounding(), 400)
def rounded_generators(case, rec):
    """The same for conserved quantities and generators of continuous rotations; non-trivial: the member changed is violated by the change."""
    n, dim, d = case['n'], case['dim'], case['digits']
    D = np.array(case['d'], float)
    r = rs(case['seed'], 62)
    H = np.round(2 * (r.randn(n, n) + 1j * r.randn(n, n)))
    H = (H + H.T.conj()) * (D[:, None] == D[None, :])
    i, j = r.permutation(n)[:2]
    eps = case['eps'] * 10 ** -d if case['eps'] < 1 else max(0.05, case['eps'] * 10 ** -d)
    K = np.zeros((n, n), complex)
    K[i, j] = K[j, i] = eps
    viol = abs(D[i] - D[j]) * eps
    mom = ['k_x', 'k_y', 'k_z'][:dim]
    R = None
    if case['kind'] == 'bloch':
        vec = r.randint(-1, 2, dim)
        m = BlochModel({BlochCoeff(vec.astype(float), sympy.sympify(1)): H + K}, momenta=mom)
    elif case['spatial'] and dim > 1:
        R = np.zeros((dim, dim), complex)
        R[0, 1], R[1, 0] = -1j, 1j
        kx, ky = qsymm.model._commutative_momenta[:2]
        m = Model({kx ** 2: H, ky ** 2: H, sympy.Integer(1): K}, momenta=mom)
    else:
        m = Model({qsymm.model._commutative_momenta[0]: H + K}, momenta=mom)
    other = m.zeros_like()
    g = ContinuousGroupGenerator(R, np.diag(D))
    if not viol:
        rec.trivial()
    rec.label(f"eps {case['eps']}", 'rotation' if R is not None else 'conserved')

    def passes(**kw):
        try:
            check_symmetry([other, m], [g], **kw)
            return True
        except ValueError:
            return False
    if case['eps'] < 1 or not viol:
        req(passes(num_digits=d), f'check_symmetry with num_digits={d} raises for a violation by {viol:.2g}')
    else:
        req(not passes(num_digits=d), f'check_symmetry with num_digits={d} accepts a violation by {viol:.2g}')
    if viol > 1e-3:
        req(not passes(), f'check_symmetry accepts a violation by {viol:.2g}')
    if not viol:
        req(passes(), 'check_symmetry raises for a symmetric family')
