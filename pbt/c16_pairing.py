"""C16: continuum_pairing gives exactly the symmetric pairing functions."""
from .c15_continuum import cases as ccases, momenta_arg, passed, pristine, setup
from .families import *

P = Property('C16', 'cases: sets of normal state symmetries with phase factors, both squares of the particle-hole operator and all options; oracle: real null '
             'space of Delta(k) = -+Delta(-k)^T and of U Delta U^T = phase Delta at random momenta, by SVD; non-trivial: symmetric pairings exist, but not all are')


@st.composite
def cases(draw, **kw):
    c = draw(ccases(nsym=draw(st.sampled_from([1, 2, 2, 3])), **kw))
    c['syms'] = [s for s in c['syms'] if s[0] != 'local'] + [s for s in c['syms'] if s[0] == 'local'][:1]
    ph = st.sampled_from(['nat', 'nat', 'nat', 'nat', [1, 0], [-1, 0], [0, 1], [-0.5, math.sqrt(3) / 2], [math.cos(0.7), math.sin(0.7)]])
    c['phases'] = draw(st.none() | st.lists(ph, min_size=len(c['syms']), max_size=len(c['syms'])) |
                       st.lists(ph, min_size=len(c['syms']), max_size=len(c['syms'])))
    c['ph_square'] = draw(st.sampled_from([None, 1, 1, -1, -1]))
    return c


def phases(case):
    """Phase of every symmetry; generators get a real shift.  'nat': one that allows pairing of two eigenstates."""
    out = []
    for i, s in enumerate(case['syms']):
        p = (case['phases'] or [[1, 0]] * len(case['syms']))[i]
        cont = s[0] in ('local', 'rot')
        if p == 'nat':
            z = 1
            if not s[2]:
                w, V = la.schur(sym_U(s, case['blocks'], case['vseed'], case['dim']), output='complex')
                w = np.diag(w)
                i, j = rs(case['seed'], i, 21).randint(len(w), size=2)
                z = w[i] + w[j] if cont else w[i] * w[j]
        else:
            z = complex(*p)
        if cont:
            z = float(np.real(z))
        elif abs(z.imag) < 1e-12:
            z = z.real
        out.append(z)
    return out


class Delta:
    """Symmetry acting on the pairing function."""

    def __init__(self, sym, phase):
        self.s, self.phase = sym, phase

    def residual(self, F, dF, k):
        s, U = self.s, self.s.U
        if s.cont:
            f = F(k)
            r = 1j * (f @ (self.phase * np.eye(len(U)) - U.conj()) - U @ f)
            if np.any(s.R):
                r = r + np.tensordot(1j * s.R @ np.asarray(k, complex), dF(k), (0, 0))
            return r
        op = s.op
        kk = np.linalg.inv(op.R) @ np.asarray(k, float) * (-1 if op.c else 1)
        f = F(kk)
        if op.c:
            f = f.conj()
        return (-1 if op.a else 1) * np.conj(self.phase) * (U @ f @ U.T) - F(k)


class ParticleHole:
    def __init__(self, square):
        self.sq = square

    def residual(self, F, dF, k):
        return -self.sq * np.swapaxes(F(-np.asarray(k, float)), -1, -2) - F(k)


def call(case, gs, **kw):
    arg, mom = momenta_arg(case)
    if arg is not None:
        kw['momenta'] = arg
    if case['ap'] is not None:
        kw['all_powers'] = [x if isinstance(x, int) else list(x) for x in case['ap']]
    if case['phases'] is not None:
        kw['phases'] = phases(case)
    if case['ph_square'] is not None:
        kw['ph_square'] = case['ph_square']
    form = case['form'] if case['form'] != 'set' else 'list'      # phases refer to the order
    return qsymm.continuum_pairing(passed(gs, form), case['dim'], case['tp'], **kw)


def check_family(case, rec, family, tol=1e-6, gap=(1e-8, 1e-3), what='continuum_pairing'):
    gs, refs = setup(case)
    _, mom = momenta_arg(case)
    d, N, tp, ap, seed = case['dim'], sum(t + 1 for t in case['blocks']), case['tp'], case['ap'], case['seed']
    degrees = list(range(tp + 1)) if isinstance(tp, int) else list(tp)
    conds = [Delta(s, p) for s, p in zip(refs, phases(case))] + [ParticleHole(case['ph_square'] or 1)]
    req(isinstance(family, list), f'{what} is not a list')
    per = {x: [] for x in degrees}
    for m in family:
        req(type(m) is Model and names(m)[:d] == tuple(mom) and tuple(m.shape) == (N, N), f'{what}: momenta {names(m)}, shape {m.shape} of a member')
        F0, dF0, ps, ms = numeric_poly(m, names(m), (N, N))
        sc = max([np.max(np.abs(x)) for x in ms], default=0)
        req(1e-4 < sc < 1e4, f'{what}: size of a member is {sc}')
        big = [p for p, x in zip(ps, ms) if np.max(np.abs(x)) > 1e-9]
        req(len({sum(p) for p in big}) == 1, f'{what}: a member is not homogeneous')
        deg = sum(big[0])
        req(deg in degrees, f'{what}: a member has degree {deg}, not among {sorted(degrees)}')
        for p in big:
            req(not any(p[d:]) and p[:d] in powers(d, deg, ap), f'{what}: power {p} of momenta is not allowed')
        F = lambda k, F0=F0, n=len(names(m)): F0(np.concatenate([k, np.zeros(n - d)]))
        dF = lambda k, dF0=dF0, n=len(names(m)): dF0(np.concatenate([k, np.zeros(n - d)]))[:d]
        for i in range(2):
            k = rs(seed, i, 77).uniform(-1, 1, d)
            for j, s in enumerate(conds):
                r = np.max(np.abs(s.residual(F, dF, k)))
                req(r < tol * sc, f'{what}: a member violates condition {j} (of {len(conds)}, the last is particle-hole symmetry) by {r:.2g}: {m}')
        per[deg].append((F, sc))
    E = np.eye(N * N).reshape(N * N, N, N)
    E = np.concatenate([E, 1j * E])
    total = size = 0
    for deg in degrees:
        ps = powers(d, deg, ap) if d else ([()] if deg == 0 else [])
        if ps:
            basis = Poly(ps, E)
            res = invariant_space(basis.F, basis.dF, basis.size, conds, d, 2 * len(ps) + 2, seed, gap)
            if res is None:
                rec.label('no clear gap')
                continue
            want = res[0]
            size += basis.size
        else:
            want = 0
        total += want
        got = per[deg]
        req(len(got) == want, f'{what}: {len(got)} members of degree {deg}, there are {want} independent symmetric pairings')
        vs = [np.concatenate([realify(F(rs(seed, i, 31).uniform(-1, 1, d)).reshape(-1)) for i in range(len(ps) + 2)]) / sc for F, sc in got]
        req(independent(vs), f'{what}: members of degree {deg} are linearly dependent')
    if not 0 < total:
        rec.trivial()
    for s in case['syms']:
        rec.label(s[0] + (' antiunitary' if s[2] else '') + (' antisymmetry' if s[3] else ''))
    rec.label(f'{d}D', f'N = {N}', 'empty' if not total else 'family', f"square {case['ph_square']}", 'phases' if case['phases'] else 'no phases')


@P.law(cases(), 800)
def complete(case, rec):
    """The family is a basis of the pairing functions that have the symmetries: members have them and the exchange symmetry of the particle-hole
    operator, are independent over the reals, and their number is the dimension of that space."""
    gs, _ = setup(case)
    f = call(case, gs)
    check_family(case, rec, f)
    pristine(gs, case)


@P.law(cases(degree=2), 400)
def sparse(case, rec):
    """The same with sparse linear algebra."""
    gs, _ = setup(case)
    check_family(case, rec, call(case, gs, sparse_linalg=True), 1e-4, (1e-8, 0.1), 'continuum_pairing with sparse_linalg')


@P.law(cases(nice=True, degree=2), 500)
def pretty(case, rec):
    """The same for prettified families of crystal symmetries in the standard basis."""
    gs, _ = setup(case)
    check_family(case, rec, call(case, gs, prettify=True), what='prettified pairing')


@P.law(cases(nmax=2, degree=1), 80)
def blocks(case, rec):
    """Every pairing, put in the off-diagonal blocks of a Bogoliubov-de Gennes Hamiltonian, gives a Hamiltonian with the symmetries extended to
    particle-hole space; squares of the particle-hole operator other than 1 and -1 raise."""
    gs, refs = setup(case)
    _, mom = momenta_arg(case)
    d, N = case['dim'], sum(t + 1 for t in case['blocks'])
    f = call(case, gs)
    if not f:
        rec.trivial()
    sq = case['ph_square'] or 1
    full = []
    for g, p in zip(gs, phases(case)):
        if isinstance(g, PointGroupElement):
            full.append(PointGroupElement(g.R, g.conjugate, g.antisymmetry, la.block_diag(g.U, p * g.U.conj())))
        else:
            full.append(ContinuousGroupGenerator(g.R, la.block_diag(g.U, p * np.eye(N) - g.U.conj())))
    full.append(PointGroupElement(np.eye(d), True, True, np.kron([[0, 1], [sq, 0]], np.eye(N))))
    for m in f:
        H = Model({k: np.block([[np.zeros((N, N)), v], [np.zeros((N, N)), np.zeros((N, N))]]) for k, v in m.items()}, momenta=mom)
        H = H + H.T().conj()
        for s in full:
            ref = Sym.of(s, d)
            F = model_fun(H, mom, {}, (2 * N, 2 * N))
            res = s.apply(H) if ref.cont else s.apply(H) - H
            agree(res, lambda v: np.zeros((2 * N, 2 * N)), mom, 'a pairing violates an extended symmetry', case['seed'], tol=1e-6)
            if not ref.cont:
                k = rs(case['seed'], 4).uniform(-1, 1, d)
                same(ref.residual(F, None, k), np.zeros((2 * N, 2 * N)), 'a pairing violates an extended symmetry', 1e-6)
    for bad in (0, 2, 1j):
        raises(ValueError, lambda: call(dict(case, ph_square=bad), gs), f'square {bad} of particle-hole is accepted')
