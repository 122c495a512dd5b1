"""C19: the finder of discrete symmetries returns exactly the symmetric candidates."""
from qsymm.symmetry_finder import discrete_symmetries, symmetries

from .symham import *

P = Property('C19', 'cases: polynomial and Bloch Hamiltonians made of blocks with symmetries of a point group, repeated (conserved quantities) and related by '
             'operations (exchanged blocks), in a random basis, with sets of candidates; oracle: linear algebra on the coefficients; non-trivial: some candidate other '
             'than the identity is a symmetry, or some is not')


@st.composite
def cases(draw, nmax=5, **kw):
    h = draw(ham_specs(nmax=nmax, **kw))
    which = draw(st.sampled_from(['gens', 'gens', 'relevant', 'relevant', 'relevant', 'subset', 'none', 'full']))
    cand = draw(st.lists(st.tuples(st.integers(0, 47), st.booleans(), st.booleans()).map(list), min_size=1, max_size=3 if which != 'subset' else 6))
    return {'h': h, 'which': which, 'cand': cand, 'cls': draw(st.sampled_from(['Model', 'BlochModel'])), 'form': draw(st.sampled_from(['int', 'sympy', 'float', 'ta'])),
            'gen': draw(st.booleans()), 'api': draw(st.sampled_from(['symmetries', 'symmetries', 'discrete']))}


def candidate_ops(case):
    """Reference operations (R, c, a) of the candidates, without repetition."""
    h = case['h']
    lat, dim = h['lat'], h['dim']
    mk = lambda i, c, a: Op(R_num([lat, i % SIZE[lat], 'int']), c, a, None)   # noqa
    which = case['which']
    if which == 'none':
        return [Op(np.eye(dim), c, a, None) for c, a in ((0, 0), (1, 0), (1, 1), (0, 1))]
    if which == 'full':
        ops = [mk(i, False, False) for i in range(SIZE[lat])]
        if lat == 'hex3' and h['kind'] == 'bloch':
            ops = ops[:12]
        if SIZE[lat] < 12:
            c, a = case['cand'][0][1:]
            ops += [mk(i, c, a) for i in range(SIZE[lat])] if c or a else []
        return ops
    base = [mk(*g) for g in case['cand']]
    if which == 'relevant':
        # operations that were used to make the Hamiltonian
        base = [mk(*g[:3]) for g in h['gens']] + [mk(*p['orbit'][:3]) for p in h['parts'] if p['orbit']] + base[:1]
    if which == 'subset':
        return list({o.key(4): o for o in base}.values())
    cap = 12 if lat.startswith('hex') and h['kind'] == 'bloch' else 48      # exact irrational numbers are slow
    ops = closure_ops(base, cap, key=lambda o: o.key(4))
    if ops is None:
        ops = closure_ops(base[:1], 48, key=lambda o: o.key(4))
    return ops


def R_form(R, form, lat, exact):
    if lat in ('hex2', 'hex3'):
        if form == 'float' and not exact:
            return R
        return sympy.ImmutableMatrix([[_exact_(x) for x in row] for row in R])
    Ri = np.round(R).astype(int)
    if form == 'sympy':
        return sympy.ImmutableMatrix(Ri.tolist())
    if form == 'ta':
        return ta.array(Ri.tolist(), int)
    if form == 'float' and not exact:
        return R
    return Ri


from .lib import _exact as _exact_      # noqa: E402


def run(case, rec, fmt='arr', sparse=False):
    h = Ham(dict(case['h'], scale=[1, 1]) if sparse else case['h'])      # sparse: the absolute tolerance applies to squares
    if not h.data or not h.clear or h.n == 0:
        return rec.trivial()
    cls = case['cls'] if h.kind == 'bloch' and fmt == 'arr' else 'Model'
    m = h.model(cls, fmt)
    lat = h.lat
    exact = h.kind == 'bloch' and cls == 'Model'
    ops = candidate_ops(case)
    found = {}
    for o in ops:
        s = h.is_symmetry(o)
        if s is None:
            rec.label('no clear gap')
            return rec.trivial()
        found[o.key(4)] = s
    sym_ops = [o for o in ops if found[o.key(4)]]
    X = h.commutant()
    if X is None:
        return rec.trivial()
    want = closure_ops(sym_ops + [Op(np.eye(h.dim), 0, 0, None)], 200, key=lambda o: o.key(4))
    if want is None:
        return rec.trivial()
    want = {o.key(4): o for o in want}
    if len(want) < 2 and len(ops) < 2:
        rec.trivial()
    rec.label(h.kind, lat, cls, case['which'], f'N = {h.n}', f'{len(X)} commuting' if len(X) > 1 else 'irreducible',
              'all symmetric' if len(want) >= len(ops) > 1 else 'none' if len(want) == 1 else 'some')
    cands = None if case['which'] == 'none' and case['api'] == 'symmetries' else [PointGroupElement(R_form(o.R, case['form'], lat, exact), o.c, o.a, None) for o in ops]
    snap = snapshot(m)
    before = None if cands is None else list(cands)
    kw = {'sparse_linalg': True} if sparse else {}
    if case['api'] == 'symmetries':
        arg = cands if cands is None or len(cands) % 2 else set(cands)
        res, cont = symmetries(m, arg, generators=case['gen'], **kw)
        req(isinstance(res, list) and all(not (y < x) for x, y in zip(res, res[1:])), 'list of symmetries is not sorted')
        if isinstance(arg, set):
            req(arg == set(before), 'set of candidates modified')
    else:
        arg = set(cands)
        res, Ps = discrete_symmetries(m, arg, generators=case['gen'], **kw)
        req(arg == set(before), 'set of candidates modified')
        res2, _ = discrete_symmetries(m, arg, Ps, generators=case['gen'], **kw)
        req({Op.of(g).key(4) for g in res2} == {Op.of(g).key(4) for g in res}, 'result with given projectors differs')
    unchanged(m, snap, 'symmetry finder')
    if cands is not None:
        req(all(g.U is None for g in before), 'candidates modified')
    got = {}
    for g in res:
        req(isinstance(g, PointGroupElement), 'result is not a symmetry operation')
        o = Op.of(g)
        k = o.key(4)
        req(k not in got, f'symmetry {g} is listed twice')
        req(k in want, f'{g} is not a symmetry of the Hamiltonian, or not generated by candidates that are')
        req(o.U is not None and o.U.shape == (h.n, h.n), f'unitary part of {g} is missing or has the wrong shape')
        req(close(o.U @ o.U.conj().T, np.eye(h.n), 1e-6), f'unitary part of {g} is not unitary')
        req(h.symmetric_under(o, o.U, 1e-6), f'Hamiltonian is not symmetric under {g} with the unitary part found')
        got[k] = o
    if case['gen']:
        gen = closure_ops(list(got.values()) + [Op(np.eye(h.dim), 0, 0, np.eye(h.n))], 400, key=lambda o: o.key(4))
        gen = set() if gen is None else {o.key(4) for o in gen}
        req(gen == set(want), f'generators found generate {len(gen)} symmetries, the Hamiltonian has {len(want)}')
        req(len(got) <= math.log2(len(want)) + 0.01, f'{len(got)} generators returned for {len(want)} symmetries: some are generated by the rest')
    else:
        req(set(got) == set(want), f'{len(got)} symmetries found, the Hamiltonian has {len(want)} among the {len(ops)} candidates')


@P.law(cases(), 900)
def exact_answer(case, rec):
    """The finder returns every symmetric candidate once (and their products), nothing else, each with a unitary part that makes it a symmetry; or generators of that group."""
    run(case, rec)


@P.law(cases(nmax=6, kinds=('poly',)), 300)
def exchanged_blocks(case, rec):
    """The same for larger Hamiltonians with blocks exchanged by symmetries and repeated blocks."""
    run(case, rec)


@P.law(cases(nmax=4, dims=(1, 2)), 200)
def sparse_values(case, rec):
    """The same for sparse Models and with sparse linear algebra."""
    k = len(case['cand'])
    run(dict(case, cls='Model'), rec, 'csr' if k % 2 else 'arr', sparse=True)


@st.composite
def group_cases(draw):
    dim = draw(st.sampled_from([2, 3, 3, 3, 4, 1]))
    g = st.tuples(st.permutations(range(dim)).map(list), st.lists(st.sampled_from([1, -1]), min_size=dim, max_size=dim), st.booleans(), st.booleans()).map(list)
    return {'dim': dim, 'gens': draw(st.lists(g, min_size=2, max_size=4)), 'power': draw(st.sampled_from([0, 2, 2, 1, 4])),
            'w': [draw(st.sampled_from([1, 1, 1, 1, 2, -1, 0])) for _ in range(dim)], 'n': draw(st.sampled_from([2, 1, 2])), 'gen': draw(st.sampled_from([True, True, False])),
            'form': draw(st.sampled_from(['int', 'ta', 'float', 'int', 'sympy'])), 'all': draw(st.booleans())}


@P.law(group_cases(), 2500)
def large_groups(case, rec):
    """The same for large groups of candidates and Hamiltonians whose symmetries are known in closed form; non-trivial: at least 8 symmetries."""
    d, n, p = case['dim'], case['n'], case['power']
    w = np.array(case['w'], float)
    ops = []
    for perm, signs, c, a in case['gens']:
        R = np.zeros((d, d))
        R[range(d), perm] = signs
        ops.append(Op(R, c, a, None))
    cap = 97 if case['form'] != 'sympy' else 25
    key = lambda o: o.key(4)        # noqa: E731
    full = closure_ops(ops, cap, key=key)
    while full is None:
        ops = ops[:-1]
        full = closure_ops(ops, cap, key=key) if ops else []
    if case['all'] or not case['gen']:
        ops = full
    if not ops:
        return rec.trivial()

    def sign(o):
        """f(operation on k) = sign * f(k), or 0"""
        v = np.array([1.0]) if p == 0 else (w @ (o.R ** p)) * ((-1) ** p if o.c else 1)
        f = np.array([1.0]) if p == 0 else w
        return 1 if np.array_equal(v, f) else -1 if np.array_equal(v, -f) else 0
    want = [o for o in ops if sign(o) and (n == 2 or sign(o) == (-1 if o.a else 1))]
    want = {key(o): o for o in closure_ops(want + [Op(np.eye(d), 0, 0, None)], 400, key=key)}
    mom = [f'k_{x}' for x in 'xyzw'[:d]]
    M = np.eye(1) if n == 1 else PAULI[3]
    data = {'a': M} if p == 0 else {f'{k}**{p}': x * M for k, x in zip(mom, w)}
    m = Model({k: np.array(x, complex) for k, x in data.items() if np.any(x)}, momenta=mom)
    if not m.data:
        return rec.trivial()
    if len(want) < 8:
        rec.trivial()
    rec.label(f'{d}D', f'{len(ops)} candidates', f'{len(want)} symmetries', 'generators' if case['gen'] else 'all')

    def R(o):
        x = np.round(o.R).astype(int)
        return {'int': x, 'ta': ta.array(x.tolist(), int), 'float': x + 0.0, 'sympy': sympy.ImmutableMatrix(x.tolist())}[case['form']]
    cands = [PointGroupElement(R(o), o.c, o.a, None) for o in ops]
    res, _ = symmetries(m, cands, generators=case['gen'])
    H = lambda k: (1 if p == 0 else w @ np.asarray(k) ** p) * M      # noqa: E731
    got = {}
    for g in res:
        o = Op.of(g)
        req(key(o) in want and key(o) not in got, f'{g!r} is not a symmetry of {m} or listed twice')
        got[key(o)] = o
        k = rs(3, d).uniform(-1, 1, d)
        h = H(np.linalg.inv(o.R) @ k * (-1 if o.c else 1))
        same((-1 if o.a else 1) * o.U @ (h.conj() if o.c else h) @ o.U.conj().T, H(k), f'unitary part of {g!r} is wrong', 1e-7)
    if case['gen']:
        gen = closure_ops([Op(o.R, o.c, o.a, None) for o in got.values()] + [Op(np.eye(d), 0, 0, None)], 400, key=key)
        req({key(o) for o in gen} == set(want), f'generators found generate {len(gen)} symmetries, the Hamiltonian has {len(want)}')
        req(len(got) <= math.log2(len(want)) + 0.01, f'{len(got)} generators returned for {len(want)} symmetries: some are generated by the rest')
    else:
        req(set(got) == set(want), f'{len(got)} symmetries found, the Hamiltonian has {len(want)}')


@P.law(ham_specs(nmax=3), 60)
def invalid(case, rec):
    """Candidates with a unitary part and values in unsupported format raise."""
    h = Ham(case)
    if not h.data:
        return rec.trivial()
    m = h.model()
    dim = h.dim
    raises(ValueError, lambda: symmetries(m, {PointGroupElement(-np.eye(dim, dtype=int), False, False, np.eye(h.n))}), 'candidates with unitary part are accepted')
    lo = h.model('Model', 'lo')
    raises(ValueError, lambda: symmetries(lo), 'LinearOperator values are accepted')
    raises(ValueError, lambda: discrete_symmetries(lo, {PointGroupElement(-np.eye(dim, dtype=int), False, False, None)}), 'LinearOperator values are accepted')
