"""C15: continuum_hamiltonian gives exactly the symmetric Hamiltonians."""
from . import families as fam
from .families import *
from qsymm.hamiltonian_generator import continuum_variables

P = Property('C15', 'cases: sets of symmetries (representations of rotations, mirrors, time reversal, particle-hole and chiral symmetry in random bases, '
             'random unitaries, conserved quantities, continuous rotations) in 0 to 3 dimensions with all options; oracle: real null space of the '
             'symmetry conditions at random momenta, by SVD; non-trivial: symmetric Hamiltonians exist, but not all are symmetric')

NAMES = ['k_x', 'k_y', 'k_z']


@st.composite
def cases(draw, nmax=3, degree=3, nsym=3, nice=False, big=False):
    dim = draw(st.sampled_from([1, 2, 3, 2, 3, 1, 2, 3, 2, 0]))
    blocks = draw(block_specs(nmax))
    exact = draw(st.booleans())
    lat = draw(st.sampled_from(['cubic', 'hex'])) if dim == 3 and exact else None
    kw = dict(exact=exact, floats=not exact, lattice=lat) if dim else {}
    if nice:
        kw = dict(exact=True, floats=False, lattice=lat, rand=False, nice=True) if dim else dict(rand=False)
    ss = draw(st.lists(sym_specs(dim, blocks, **kw), min_size=1, max_size=nsym))
    tp = draw(st.one_of(st.integers(0, degree), st.lists(st.integers(0, degree), min_size=1, max_size=2, unique=True)))
    ap = None
    if draw(st.integers(0, 3)) == 0:
        ap = [draw(st.one_of(st.integers(0, degree), st.lists(st.integers(0, degree), min_size=1, max_size=3, unique=True))) for _ in range(3)]
    return {'dim': dim, 'blocks': blocks, 'vseed': None if nice else draw(maybe_seeds), 'syms': ss, 'tp': tp, 'ap': ap,
            'mom': draw(st.sampled_from(['default', 'default', 'strings', 'symbols', 'other', 'more'])),
            'form': draw(st.sampled_from(['list', 'list', 'tuple', 'set', 'iter'])), 'seed': draw(seeds)}


def momenta_arg(case):
    d = case['dim']
    return {'default': (None, NAMES[:d]), 'strings': (NAMES[:d], NAMES[:d]), 'symbols': ([sympy.Symbol(s, commutative=True) for s in NAMES[:d]], NAMES[:d]),
            'other': (['q', 'p_1', 'k'][:d], ['q', 'p_1', 'k'][:d]), 'more': (['k_z', 'k_x', 'k_y'], ['k_z', 'k_x', 'k_y'][:d])}[case['mom']]


def setup(case):
    d, b, v = case['dim'], case['blocks'], case['vseed']
    gs = [sym_make(s, b, v, d) for s in case['syms']]
    refs = [Sym(s, b, v, d) for s in case['syms']]
    return gs, refs


def passed(gs, form):
    if form == 'set' and all(isinstance(g, PointGroupElement) for g in gs):
        # elements that compare equal in the set would be lost
        if len(set(gs)) == len(gs):
            return set(gs)
    return {'tuple': tuple(gs), 'iter': iter(gs)}.get(form, list(gs))


def check_members(family, mom, N, refs, degrees, ap, seed, tol, what):
    """Every member is a Hermitian, symmetric, homogeneous polynomial of an allowed degree. Returns members per degree."""
    dim = len(mom)
    req(isinstance(family, list), f'{what} is not a list')
    per = {d: [] for d in degrees}
    for m in family:
        req(type(m) is Model and names(m) == tuple(mom) and tuple(m.shape) == (N, N), f'{what}: momenta {names(m)}, shape {m.shape} of a member')
        F, dF, ps, ms = numeric_poly(m, mom, (N, N))
        sc = max([np.max(np.abs(x)) for x in ms], default=0)
        req(1e-4 < sc < 1e4, f'{what}: size of a member is {sc}')
        big = [p for p, x in zip(ps, ms) if np.max(np.abs(x)) > 1e-9]
        degs = {sum(p) for p in big}
        req(len(degs) == 1, f'{what}: a member has terms of degree {degs}')
        deg, = degs
        req(deg in degrees, f'{what}: a member has degree {deg}, not among {sorted(degrees)}')
        for p in big:
            req(p in powers(dim, deg, ap), f'{what}: power {p} of momenta is not allowed')
        for x in ms:
            req(close(x, x.conj().T, 1e-8), f'{what}: a member is not Hermitian')
        for i in range(2):
            k = rs(seed, i, 77).uniform(-1, 1, dim)
            for j, s in enumerate(refs):
                r = np.max(np.abs(s.residual(F, dF, k)))
                req(r < tol * sc, f'{what}: a member violates symmetry {j} by {r:.2g}: {m}')
        per[deg].append((F, sc))
    return per


def check_family(case, rec, family, tol=1e-6, gap=(1e-8, 1e-3), what='continuum_hamiltonian'):
    gs, refs = setup(case)
    _, mom = momenta_arg(case)
    d, N, tp, ap = case['dim'], sum(t + 1 for t in case['blocks']), case['tp'], case['ap']
    degrees = list(range(tp + 1)) if isinstance(tp, int) else list(tp)
    per = check_members(family, mom, N, refs, degrees, ap, case['seed'], tol, what)
    H = herm_basis(N)
    total = size = 0
    for deg in degrees:
        ps = powers(d, deg, ap) if d else ([()] if deg == 0 else [])
        basis = Poly(ps, H) if ps else None
        npts = len(ps) + 2
        res = invariant_space(basis.F, basis.dF, basis.size, refs, d, npts, case['seed'], gap) if ps else (0, None)
        if res is None:
            rec.label('no clear gap')
            continue
        want = res[0]
        total += want
        size += basis.size if ps else 0
        got = per[deg]
        req(len(got) == want, f'{what}: {len(got)} members of degree {deg}, there are {want} independent symmetric terms')
        vs = [np.concatenate([realify(F(rs(case['seed'], i, 31).uniform(-1, 1, d)).reshape(-1)) for i in range(npts)]) / sc for F, sc in got]
        req(independent(vs), f'{what}: members of degree {deg} are linearly dependent')
    if not 0 < total < size:
        rec.trivial()
    for s in case['syms']:
        rec.label(s[0] + (' antiunitary' if s[2] else '') + (' antisymmetry' if s[3] else ''))
    rec.label(f'{d}D', f'N = {N}', 'empty' if not total else 'family')
    return gs


def call(case, gs, **kw):
    arg, mom = momenta_arg(case)
    if arg is not None:
        kw['momenta'] = arg
    ap = case['ap']
    if ap is not None:
        kw['all_powers'] = [x if isinstance(x, int) else list(x) for x in ap]
    return qsymm.continuum_hamiltonian(passed(gs, case['form']), case['dim'], case['tp'], **kw)


def pristine(gs, case):
    """The symmetries are not modified."""
    for g, s in zip(gs, case['syms']):
        ref = Sym(s, case['blocks'], case['vseed'], case['dim'])
        same(g.U, ref.U, 'a symmetry was modified', 1e-12)
        if not ref.cont:
            check_op(g, ref.op, 'a symmetry was modified', 1e-9)


@P.law(cases(), 1000)
def complete(case, rec):
    """The family is a basis of the symmetric Hermitian polynomial Hamiltonians of the allowed powers: every member is symmetric, members are
    independent, and their number is the dimension of that space."""
    gs, _ = setup(case)
    fam_ = call(case, gs)
    check_family(case, rec, fam_)
    pristine(gs, case)


@P.law(cases(nmax=4, degree=2), 300)
def large(case, rec):
    """The same for larger matrices."""
    gs, _ = setup(case)
    check_family(case, rec, call(case, gs))


@P.law(cases(degree=2), 500)
def sparse(case, rec):
    """The same with sparse linear algebra."""
    gs, _ = setup(case)
    fam_ = call(case, gs, sparse_linalg=True)
    # the sparse solver decides by the squares of the singular values
    check_family(case, rec, fam_, 1e-4, (1e-8, 0.1), 'continuum_hamiltonian with sparse_linalg')


@P.law(cases(nice=True), 500)
def pretty(case, rec):
    """The same for prettified families of crystal symmetries in the standard basis."""
    gs, _ = setup(case)
    fam_ = call(case, gs, prettify=True)
    check_family(case, rec, fam_, what='prettified family')
    # pretty: the members are in echelon form, every one has an entry 1 not shared with the others
    for m in fam_:
        for v in m.values():
            x = realify(v.reshape(-1))
            req(np.max(np.abs(x - np.round(x, 10)), initial=0) < 1e-13, 'entries of a prettified family are not rounded')


@st.composite
def variable_cases(draw):
    d = draw(st.integers(0, 3))
    return {'dim': d, 'tp': draw(st.integers(0, 5)), 'mom': draw(st.sampled_from(['default', 'strings', 'symbols', 'other', 'indices', 'more'])),
            'ap': draw(st.none() | st.lists(st.one_of(st.integers(0, 5), st.lists(st.integers(0, 5), min_size=1, max_size=3, unique=True)),
                                            min_size=max(d - 1, 1), max_size=3)), 'perm': draw(st.permutations([0, 1, 2]))}


@P.law(variable_cases(), 1600)
def variables(case, rec):
    """continuum_variables lists every monomial of the given total power and allowed powers exactly once; too short arguments raise, arguments are not
    modified."""
    d, tp, ap = case['dim'], case['tp'], case['ap']
    if case['mom'] == 'indices':
        arg, mom = list(case['perm'])[:max(d, 1)], [NAMES[i] for i in case['perm']][:d]
    else:
        arg, mom = momenta_arg(case)
    kw = {} if arg is None else {'momenta': arg}
    rec.label(f'{d}D', case['mom'])
    if ap is not None:
        ap = [x if isinstance(x, int) else list(x) for x in ap]
        keep = [x if isinstance(x, int) else list(x) for x in ap]
        kw['all_powers'] = ap
        if len(ap) < d:
            raises(ValueError, lambda: continuum_variables(d, tp, **kw), 'continuum_variables accepts too few powers')
            return
    got = continuum_variables(d, tp, **kw)
    if ap is not None:
        req(ap == keep, 'continuum_variables modifies all_powers')
    want = powers(d, tp, ap) if d else ([()] if tp == 0 else [])
    if len(want) < 2:
        rec.trivial()
    have = []
    for x in got:
        if not d:
            req(x == 1, f'{x} in zero dimensions')
            have.append(())
            continue
        req({s.name for s in x.atoms(sympy.Symbol)} <= set(mom), f'{x} has other symbols than {mom}')
        (p, c), = sympy.Poly(sympy.sympify(str(x)), *[sympy.Symbol(m) for m in mom]).terms()
        req(c == 1, f'{x} has a factor')
        have.append(p)
        # the symbols are those of Models with these momenta
        req(x in Model({x: np.eye(1)}, momenta=mom).data, f'{x} is not in the form of Models')
        for s in x.atoms(sympy.Symbol):
            req(any(s is y or s == y for y in Model({'1': np.eye(1)}, momenta=mom).momenta), f'{s} is not a momentum of Models')
    req(len(set(have)) == len(have) and set(have) == set(want), f'monomials {sorted(have)}, expected {sorted(want)}')
