"""C03: continuous group generators."""
from .lib import *

P = Property('C03', 'cases: a generator (any combination of real space and Hilbert space part) and a Hamiltonian of 1-3 momenta; '
             'non-trivial: the reference value of the applied generator is not zero, or the Hamiltonian is a rotationally '
             'invariant one with nonzero generator')


def gen_R(spec, dim):
    """spec: None or list of 3 small integers / seed."""
    if spec is None or dim == 1:
        return None
    v = np.array(spec[:3], float) / 2
    if len(spec) > 3:
        v = v * spec[3]
    if dim == 2:
        return v[2] * np.array([[0, -1j], [1j, 0]])
    return np.tensordot(v, L3, (0, 0))


Rs = st.tuples(st.integers(0, 5), st.lists(st.sampled_from([1, -1, 2, 0, -3, 4, 0.7]), min_size=3, max_size=3), st.sampled_from([1, 1, 1, 1, 1, 1e-3, 100, 1e-4])).map(
    lambda t: (t[1] if t[2] == 1 else t[1] + [t[2]]) if t[0] else None)


@st.composite
def cases(draw, kind='poly', cls='Model', R=True):
    dim = draw(st.sampled_from([2, 3, 2, 3, 1] if R else [1, 2, 3]))
    n = draw(st.sampled_from([2, 3, 4, 1]))
    spec = draw(model_specs(dim=dim, n=n, fmts=('arr', 'arr', 'arr', 'csr', 'csc'), kind=kind, max_terms=4, min_terms=draw(st.sampled_from([1, 1, 2, 0]))))
    return {'cls': cls, 'spec': spec, 'R': draw(Rs) if R else draw(st.sampled_from([None, [0, 0, 0]])), 'U': draw(maybe_seeds),
            'Ureal': draw(st.booleans()), 'seed': draw(seeds)}


def make(case, n, dim):
    R = gen_R(case['R'], dim)
    U = None if case['U'] is None else mat(case['U'], n, kind='herm')
    if U is not None and case['Ureal']:
        U = U.real.copy()
    return R, U


def expected(spec, R, U):
    mom = spec['mom']

    def f(vals):
        k = np.array([vals[m] for m in mom])
        H = reference(spec, vals)
        res = np.zeros_like(H)
        if U is not None:
            res = res + 1j * (H @ U - U @ H)
        if R is not None:
            v = 1j * (R @ k)        # direction of the derivative
            for t in spec_terms(spec):
                for i, m in enumerate(mom):
                    if t.p[i]:
                        q = Term([[a - (j == i) for j, a in enumerate(t.p)], t.c, t.h, t.s])
                        res = res + t.p[i] * q.coef(mom, vals) * v[i] * term_value(spec, t)
        return res
    return f


def check(case, rec):
    spec = case['spec']
    n, dim = spec['shape'][0], spec['dim']
    R, U = make(case, n, dim)
    m = build(spec, Model if case['cls'] == 'Model' else BlochModel)
    snap = snapshot(m)
    R0, U0 = None if R is None else R.copy(), None if U is None else U.copy()
    g = ContinuousGroupGenerator(R, U)
    res = g.apply(m)
    f = expected(spec, R, U)
    nm = spec['mom'] + list(PARAMS)
    if all(np.max(np.abs(f(v)), initial=0) < 1e-9 for v in points(case['seed'], nm)):
        rec.trivial()
    rec.label('R' if R is not None and np.any(R) else 'no R', 'U' if U is not None else 'no U', f'dim {dim}')
    agree(res, f, nm, 'applied generator', case['seed'], shape=spec['shape'])
    req(type(res) is type(m), 'type of the Model changed')
    req(names(res) == tuple(spec['mom']), f'momenta of the result are {names(res)}')
    unchanged(m, snap, 'apply')
    req(res.format is m.format or not len(m), f'values of the result are {res.format}, those of the Hamiltonian {m.format}')
    for x, y, s in ((R, R0, 'R'), (U, U0, 'U')):
        req(x is None or np.array_equal(x, y), f'{s} of the generator modified')
    return m, g, res, f, nm


@P.law(cases(), 12000)
def derivative(case, rec):
    """Applying the generator gives 1j [H, U] + (dH/dk) . (1j R k), for polynomial Models; nothing is modified."""
    check(case, rec)


@P.law(cases('bloch', 'BlochModel', R=False), 3200)
def commutator_bloch(case, rec):
    """Generators without real space part act on BlochModels as 1j [H, U]."""
    check(case, rec)


@P.law(cases('mixed', 'Model', R=False), 2000)
def commutator_exponential(case, rec):
    """Generators without real space part act on exponential Models as 1j [H, U]."""
    check(case, rec)


@P.law(st.tuples(cases(), seeds), 2000)
def finite_transformation(case, rec):
    """It is the derivative at 0 of exp(-i x U) H(exp(i x R) k) exp(i x U)."""
    case, s = case
    if case['R'] is not None:       # the step of the difference is for generators of size 1
        case = {**case, 'R': case['R'][:3]}
    m, g, res, f, nm = check(case, rec)
    spec = case['spec']
    R, U = make(case, spec['shape'][0], spec['dim'])
    R = np.zeros((spec['dim'],) * 2) if R is None else R
    U = np.zeros(spec['shape']) if U is None else U
    mom = spec['mom']
    v = values(s, nm)
    k = np.array([v[x] for x in mom])

    def ham(x):
        kk = la.expm(1j * x * R) @ k
        V = la.expm(-1j * x * U)
        return V @ reference(spec, at_k(v, mom, kk.real)) @ V.conj().T
    h = 1e-4
    num = (8 * (ham(h) - ham(-h)) - (ham(2 * h) - ham(-2 * h))) / (12 * h)
    same(evalm(res, v, spec['shape']), num, 'derivative of the finite transformation', 1e-5,
         scale=max(1, np.max(np.abs(reference(spec, v))) * (1 + np.max(np.abs(U), initial=0) ** 3)))


@st.composite
def invariant(draw):
    return {'dim': draw(st.integers(2, 3)), 's2': draw(st.integers(1, 4)), 'axis': draw(st.lists(st.integers(-3, 3), min_size=3, max_size=3)),
            'co': draw(st.lists(st.integers(-3, 3), min_size=4, max_size=4)), 'x': draw(st.integers(1, 60)), 'k': draw(seeds)}


@P.law(invariant(), 1200)
def invariant_hamiltonians(case, rec):
    """Rotationally invariant Hamiltonians are annihilated by the total angular momentum and invariant under exp."""
    d, s, ax = case['dim'], case['s2'] / 2, np.array(case['axis'], float)
    if d == 2:
        ax = np.array([0, 0, ax[2]])
    if not ax.any():
        rec.trivial()
    S = spin(s)
    n = len(S[0])
    L = np.tensordot(ax, L3, (0, 0))[:d, :d]
    k2 = ' + '.join(f'{m}**2' for m in MOM[:d])
    c = case['co']
    data = {m: c[1] * S[i] for i, m in enumerate(MOM[:d])}
    data = {k: v for k, v in data.items()}
    data.update({f'{m}**2': c[0] * np.eye(n, dtype=complex) + c[2] * S[i] @ S[i] for i, m in enumerate(MOM[:d])})
    for i in range(d):
        for j in range(i):
            data[f'{MOM[i]}*{MOM[j]}'] = c[2] * (S[i] @ S[j] + S[j] @ S[i])
    data['1'] = c[3] * (S[2] if d == 2 else np.eye(n)).astype(complex)
    m = Model(data, momenta=MOM[:d])
    U = np.tensordot(ax, S, (0, 0))
    g = ContinuousGroupGenerator(L, U)
    agree(g.apply(m), lambda v: np.zeros((n, n)), MOM[:d], f'generator does not annihilate an invariant Hamiltonian ({k2})', case['k'])
    x = case['x'] / 10
    fin = PointGroupElement(la.expm(-1j * x * L).real, False, False, la.expm(-1j * x * U))
    agree(fin.apply(m), lambda v: evalm(m, v), MOM[:d], 'finite rotation changes an invariant Hamiltonian', case['k'])
    # opposite sense of rotation of the two parts is not a symmetry
    if ax.any() and c[1]:
        bad = ContinuousGroupGenerator(L, -U).apply(m)
        req(max(np.max(np.abs(evalm(bad, v, (n, n)))) for v in points(case['k'], MOM[:d])) > 1e-6,
            'generator annihilates a Hamiltonian that is not invariant')


@st.composite
def pairs(draw):
    c = draw(cases())
    s = c['spec']
    return dict(c, other=draw(model_specs(dim=s['dim'], shape=s['shape'], fmts=(s['fmt'],), kind='poly', mom=s['mom'])), x=draw(st.integers(-3, 3)),
                R2=draw(Rs), U2=draw(maybe_seeds))


@P.law(pairs(), 2400)
def linearity(case, rec):
    """Linear in the Hamiltonian and in the generator."""
    m, g, res, f, nm = check(case, rec)
    spec = case['spec']
    o, x, shape = build(case['other']), case['x'], spec['shape']
    R, U = make(case, shape[0], spec['dim'])
    f2 = expected(case['other'], R, U)
    agree(g.apply(m + o * x), lambda v: f(v) + x * f2(v), nm, 'generator applied to a sum', case['seed'], shape=shape)
    R2, U2 = make(dict(case, R=case['R2'], U=case['U2']), shape[0], spec['dim'])
    f3 = expected(spec, R2, U2)
    if None not in (R if R is None else 1, R2 if R2 is None else 1, U if U is None else 1, U2 if U2 is None else 1):
        rec.label('sum of generators')
        agree(ContinuousGroupGenerator(R + x * R2, U + x * U2).apply(m), lambda v: f(v) + x * f3(v), nm, 'sum of generators',
              case['seed'], shape=shape)


@st.composite
def invalid(draw):
    return {'n': draw(st.integers(2, 4)), 's': draw(seeds), 'd': draw(st.sampled_from([2, 3])),
            'what': draw(st.sampled_from(['U', 'R real antisymmetric', 'R hermitian', 'R general', 'fine']))}


@P.law(invalid(), 1600)
def validation(case, rec):
    """R has to be Hermitian and antisymmetric, U Hermitian; everything else raises ValueError, valid input is accepted."""
    n, d, w = case['n'], case['d'], case['what']
    r = rs(case['s'])
    rec.label(w)
    A = r.normal(size=(d, d))
    good = 1j * (A - A.T)
    U = mat(case['s'], n, kind='herm') + np.eye(n)
    if w == 'fine':
        g = ContinuousGroupGenerator(good, U)
        same(g.R, good, 'R stored')
        same(g.U, U, 'U stored')
        g = ContinuousGroupGenerator()
        req(g.R is None and g.U is None, 'missing parts are not None')
        return
    i, j = r.permutation(n)[:2]
    if w == 'U':
        B = U.copy()
        B[i, j] += r.choice([0.1, 1j, 2 - 1j]) * (1 + abs(B[i, j]))
        raises(ValueError, lambda: ContinuousGroupGenerator(None, B), 'U which is not Hermitian is accepted')
        raises(ValueError, lambda: ContinuousGroupGenerator(good, B), 'U which is not Hermitian is accepted')
        raises(ValueError, lambda: ContinuousGroupGenerator(None, 1j * U), 'anti-Hermitian U is accepted')
    else:
        B = {'R real antisymmetric': (A - A.T).astype(complex), 'R hermitian': good + (A + A.T), 'R general': good + A + 1j * A * 0.3}[w]
        raises(ValueError, lambda: ContinuousGroupGenerator(B), f'R accepted: {w}')
        raises(ValueError, lambda: ContinuousGroupGenerator(B, U), f'R accepted: {w}')
