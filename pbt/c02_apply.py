"""C02: applying a symmetry operation to a Hamiltonian."""
from .lib import *

P = Property('C02', 'cases: a symmetry operation (integer, exact or floating point rotation; with or without unitary part; all flag '
             'combinations) and a Model or BlochModel with polynomial, exponential or mixed momentum dependence, dense or sparse; '
             'non-trivial: the Hamiltonian has a momentum dependent term and the operation is not the identity')

ALT = ('q_1', 'p', 'k')


def fspec(spec):
    return lambda vals: reference(spec, vals)


def transformed(op, spec):
    """Function vals -> transformed reference Hamiltonian."""
    mom = spec['mom']

    def f(vals):
        k = [vals[m] for m in mom]
        return op.act(lambda kk: reference(spec, at_k(vals, mom, kk)), k)
    return f


@st.composite
def cases(draw, kind, cls, ops=1):
    dim = draw(st.integers(1, 3))
    n = draw(st.integers(1, 3))
    fmts = ('arr', 'arr', 'csr') if cls == 'Model' else ('arr', 'arr', 'csr')
    if draw(st.integers(0, 9)) == 0:
        fmts = ('num',)
    spec = draw(model_specs(dim=dim, n=n, fmts=fmts, kind=kind, max_terms=4 if kind == 'poly' else 3,
                            mom=draw(st.sampled_from([MOM[:dim], MOM[:dim], ALT[:dim]]))))
    exact = kind in ('mixed',) or draw(st.booleans())
    lat = draw(st.sampled_from(['cubic', 'hex'])) if exact and ops > 1 else None
    general = draw(st.integers(0, 3)) == 0
    if general and exact:
        lat = 'skew'
    gs = [draw(op_specs(dim, n, exact=exact, floats=not exact, withU=spec['fmt'] != 'num', lattice=lat, general=general)) for _ in range(ops)]
    return {'cls': cls, 'spec': spec, 'ops': gs, 'seed': draw(seeds)}


def prepare(case, rec):
    spec = case['spec']
    n = spec['shape'][0] if spec['shape'] else 1
    gs, refs = [op_make(o, n) for o in case['ops']], [Op.spec(o, n) for o in case['ops']]
    m = build(spec, cls=Model if case['cls'] == 'Model' else BlochModel)
    dep = any(any(t.p) or (t.h and any(t.h)) for t in spec_terms(spec))
    moved = any(r.c or r.a or not np.allclose(r.R, np.eye(len(r.R))) or r.U is not None for r in refs)
    if not (dep and moved):
        rec.trivial()
    rec.label(*{f'R {o[0][2]}' for o in case['ops']}, spec['fmt'], 'antiunitary' if refs[0].c else 'unitary',
              'antisymmetry' if refs[0].a else 'symmetry', 'U unset' if refs[0].U is None else 'U set')
    return spec, m, gs, refs


def single(case, rec):
    spec, m, (g,), (r,) = prepare(case, rec)
    snap = snapshot(m)
    res = g.apply(m)
    req(type(res) is type(m), 'type of the Model changed')
    req(names(res) == tuple(spec['mom']), f'momenta of the result are {names(res)}')
    agree(res, transformed(r, spec), spec['mom'] + list(PARAMS), 'transformed Hamiltonian', case['seed'], shape=spec['shape'])
    unchanged(m, snap, 'apply')
    check_op(g, r, 'operation after apply', 1e-12)


@P.law(cases('poly', 'Model'), 6000)
def polynomial(case, rec):
    """g.apply(H)(k) = (+-) U H(+-R^-1 k)^(*) U^dagger for polynomial Models and any rotation; H and g are not modified."""
    single(case, rec)


@P.law(cases('mixed', 'Model'), 3000)
def exponential(case, rec):
    """The same for Models with exponentials times polynomials of momenta and exact rotations."""
    single(case, rec)


@P.law(cases('bloch', 'BlochModel'), 4800)
def bloch(case, rec):
    """The same for BlochModels and any rotation."""
    single(case, rec)


def composition(case, rec):
    spec, m, (g, h), (a, b) = prepare(case, rec)
    nm = spec['mom'] + list(PARAMS)
    gh = (g * h).apply(m)
    seq = g.apply(h.apply(m))
    both = a.U is not None and b.U is not None
    if not both:
        # an unset unitary acts as the identity, but makes that of a product unset
        rec.label('partly unset')
    ab = a * b
    agree(gh, transformed(ab, spec), nm, 'action of a product', case['seed'], shape=spec['shape'])
    if both or (a.U is None and b.U is None):
        agree(gh, lambda v: evalm(seq, v, spec['shape']), nm, 'product does not act as one after the other', case['seed'])
        if spec['fmt'] != 'csr':
            req(gh.allclose(seq, atol=1e-6) and seq.allclose(gh, atol=1e-6), 'product and sequence of operations give Models that compare unequal')
    back = g.inv().apply(g.apply(m))
    agree(back, fspec(spec), nm, 'inverse does not undo the operation', case['seed'], shape=spec['shape'])
    if spec['fmt'] == 'arr' and spec['terms']:
        # terms smaller than 1e-8 may have been dropped on the way (R close to a symmetry of the term)
        req(back.allclose(m, atol=1e-6) and m.allclose(back, atol=1e-6), 'inverse does not restore a Model equal to the original')
    agree(g.identity().apply(m), fspec(spec), nm, 'identity changes the Model', case['seed'], shape=spec['shape'])


@P.law(cases('poly', 'Model', 2), 3600)
def composition_polynomial(case, rec):
    """(g h).apply = g.apply after h.apply, the inverse undoes, the identity does nothing; polynomial Models."""
    composition(case, rec)


@P.law(cases('mixed', 'Model', 2), 1500)
def composition_exponential(case, rec):
    """The same for Models with exponentials and exact rotations."""
    composition(case, rec)


@P.law(cases('bloch', 'BlochModel', 2), 2700)
def composition_bloch(case, rec):
    """The same for BlochModels and any rotations."""
    composition(case, rec)


@st.composite
def linear_cases(draw):
    c = draw(cases('poly', 'Model'))
    d = c['spec']
    other = draw(model_specs(dim=d['dim'], shape=d['shape'], fmts=(d['fmt'],), kind='poly', mom=d['mom']))
    return dict(c, other=other, x=draw(st.integers(-3, 3)))


@P.law(linear_cases(), 2100)
def linearity(case, rec):
    """The action is real-linear: g(H1 + x H2) = g(H1) + x g(H2) for real x."""
    spec, m, (g,), (r,) = prepare(case, rec)
    o = build(case['other'])
    nm = spec['mom'] + list(PARAMS)
    lhs = g.apply(m + o * case['x'])
    f1, f2 = transformed(r, spec), transformed(r, case['other'])
    agree(lhs, lambda v: f1(v) + case['x'] * f2(v), nm, 'action on a sum', case['seed'], shape=spec['shape'])


@st.composite
def invariants(draw):
    dim = draw(st.integers(1, 3))
    cls = draw(st.sampled_from(['Model', 'BlochModel']))
    spec = draw(model_specs(dim=dim, n=2, kind='poly' if cls == 'Model' else 'bloch', min_terms=1, max_terms=2, degree=2))
    return {'cls': cls, 'spec': spec, 'gens': draw(st.lists(st.tuples(st.integers(0, 47), st.booleans(), st.booleans(),
            st.integers(0, 3)), min_size=1, max_size=2)), 'seed': draw(seeds)}


@P.law(invariants(), 750)
def averages(case, rec):
    """The average of a Hamiltonian over a finite group is invariant under every element of the group."""
    spec = case['spec']
    d = spec['dim']
    kind = INTGROUPS[d][0]
    gens = [PointGroupElement(R_make([kind, i, 'int']), c, a, PAULI[u], _strict_eq=True) for i, c, a, u in case['gens']]
    group = {g * gens[0].inv() for g in gens[:1]}
    todo = list(gens)
    while todo:
        g = todo.pop()
        if g not in group:
            group.add(g)
            todo.extend(g * h for h in gens)
        if len(group) > 24:
            return rec.trivial()
    m = build(spec, cls=Model if case['cls'] == 'Model' else BlochModel)
    avg = m.zeros_like()
    for g in group:
        avg = avg + g.apply(m)
    nm = spec['mom'] + list(PARAMS)
    rec.label(f'order {len(group)}')
    if len(group) == 1 or all(close(evalm(avg, v), 0 * evalm(avg, v)) for v in points(5, nm, 1)):
        rec.trivial()
    for g in group:
        agree(g.apply(avg), lambda v: evalm(avg, v, spec['shape']), nm, 'average over a group is not invariant', case['seed'])
