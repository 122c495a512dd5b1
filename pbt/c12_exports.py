"""C12: exported forms of a Model (sympy, callable, numbers, dense and sparse) have the value of the Model."""
import inspect

from .lib import *

P = Property('C12', 'cases: Models and BlochModels of all formats exported to sympy, to functions, to numbers, to dense and sparse form and back; '
             'non-trivial: the Model is not zero')


@st.composite
def exports(draw, fmts=('arr', 'arr', 'csr', 'csc', 'lo'), rect=True):
    kind = draw(st.sampled_from(['poly', 'mixed', 'bloch']))
    cls = draw(st.sampled_from(['Model', 'BlochModel'])) if kind == 'bloch' else 'Model'
    shape = [draw(st.integers(1, 3)), draw(st.integers(1, 3))] if rect and draw(st.booleans()) else None
    spec = draw(model_specs(fmts=fmts, kind=kind, shape=shape, n=draw(st.integers(1, 3)), max_terms=4))
    return {'spec': spec, 'cls': cls, 'seed': draw(seeds), 'nsimp': draw(st.booleans()), 'how': draw(st.integers(0, 5)), 'round': draw(st.integers(0, 3)), 'up': draw(st.sampled_from([0, 0, 1, 2, 3]))}


def cls_of(case):
    return BlochModel if case['cls'] == 'BlochModel' and case['spec']['fmt'] != 'coo' else Model


def nice(case):
    """nsimplify of arbitrary floats is slow: matrices are replaced by fractions with small denominators then."""
    def f(A):
        if not case['nsimp']:
            return A
        return np.round(np.asarray(A) * 2) / [2, 4, 3, 1][case['round']]
    return f


def made(case):
    spec, f = case['spec'], nice(case)
    vals_ = [f(term_value(spec, t)) for t in spec_terms(spec)]
    data = {t.key(spec['mom']): fmt_value(A, spec['fmt']) for t, A in zip(spec_terms(spec), vals_)}
    m = cls_of(case)(data, momenta=spec['mom'], shape=tuple(spec['shape']), format=FMT_CLASS[spec['fmt']])

    def ref(v):
        return sum((t.coef(spec['mom'], v) * A for t, A in zip(spec_terms(spec), vals_)), np.zeros(tuple(spec['shape']), complex))
    return m, ref


@P.law(exports(fmts=('arr', 'arr', 'csr', 'csc')), 900)
def to_sympy(case, rec):
    """The sympy form has the value of the Model entry by entry, exactly or with simplified numbers; reading it back gives the Model."""
    m, ref = made(case)
    spec = case['spec']
    rec.label(case['cls'], spec['fmt'], 'nsimplify' if case['nsimp'] else 'plain')
    snap = snapshot(m)
    s = m.tosympy(nsimplify=True) if case['nsimp'] else m.tosympy()
    unchanged(m, snap, 'tosympy')
    if not m.data:
        rec.trivial()
        req(str(s) == '0' or s == sympy.zeros(*spec['shape']), 'sympy form of a zero Model is not zero')
        return
    req(isinstance(s, sympy.MatrixBase) and s.shape == tuple(spec['shape']), f'sympy form is {type(s).__name__} of shape {getattr(s, "shape", None)}')
    for v in points(case['seed'], spec['mom'] + list(PARAMS), 2):
        got = np.array([[evalexpr(s[i, j], v) for j in range(s.shape[1])] for i in range(s.shape[0])])
        same(got, ref(v), 'value of the sympy form', 1e-6)
    if case['nsimp']:
        req(not s.atoms(sympy.Float), f'simplified numbers contain floating point numbers: {s}')
        m2 = Model(s, momenta=spec['mom'])
        agree(m2, ref, spec['mom'] + list(PARAMS), 'Model of the sympy form', case['seed'], 1, spec['shape'], 1e-6)


@P.law(exports(fmts=('arr', 'arr', 'csr')), 1000)
def to_function(case, rec):
    """The function has the sorted symbols as arguments, sites first if asked for, and returns the value of the Model as array."""
    m, ref = made(case)
    spec = case['spec']
    how = case['how']
    kw = [{}, {}, {'onsite': True}, {'hopping': True}, {'onsite': False}, {'hopping': False}][how]
    rec.label(case['cls'], spec['fmt'], str(kw))
    snap = snapshot(m)
    nm = spec['mom'] + list(PARAMS)
    ren = {}
    if case['cls'] == 'Model' and case['up']:
        # capital letters sort before small ones
        ren = dict(zip(nm[len(spec['mom']):], [['B', 'a', 'm'], ['Zeta', 'b', 'M_1'], ['delta', 'Delta', 'Mu']][case['up'] - 1]))
        m = m.subs([(sympy.Symbol(x), sympy.Symbol(y + '_')) for x, y in ren.items()]).subs([(sympy.Symbol(y + '_'), sympy.Symbol(y)) for y in ren.values()])
        snap = snapshot(m)
    f = m.lambdify(nsimplify=case['nsimp'] and bool(m.data), **kw)      # a zero Model has no shape in sympy
    unchanged(m, snap, 'lambdify')
    raises(ValueError, lambda: m.lambdify(onsite=True, hopping=True), 'onsite and hopping are both accepted')
    if not m.data:
        rec.trivial()
    args = list(inspect.signature(f).parameters)
    sites = {2: ['site'], 3: ['site1', 'site2']}.get(how, [])
    req(args[:len(sites)] == sites, f'first arguments are {args}, expected {sites}')
    syms = args[len(sites):]
    req(syms == sorted(syms) and set(syms) <= {ren.get(x, x) for x in nm}, f'arguments {syms} are not the sorted symbols')
    for v in points(case['seed'], nm, 2):
        back = {y: x for x, y in ren.items()}
        ev = [v[back.get(s, s)] for s in syms]
        st_ = [object() for _ in sites]
        want = ref(v)
        for got in (f(*st_, *ev), f(**dict(zip(sites, st_)), **dict(zip(syms, ev)))):
            if not m.data:
                got = np.zeros(want.shape) + got
            req(isinstance(got, np.ndarray) and got.shape == want.shape, f'function returns {type(got).__name__} of shape {np.shape(got)}')
            same(got, want, f'value of the function, arguments {args}', 1e-6)


@P.law(exports(fmts=('arr', 'csr', 'csc', 'lo', 'num'), rect=False), 1200)
def to_numbers(case, rec):
    """Evaluation with values of all symbols gives the matrix in the format of the Model."""
    m, ref = made(case)
    spec = case['spec']
    rec.label(case['cls'], spec['fmt'])
    snap = snapshot(m)
    v = values(case['seed'], spec['mom'] + list(PARAMS))
    subs = dict(v) if case['how'] % 2 else {sympy.Symbol(k): x for k, x in v.items()}
    if case['how'] == 0 and v:
        v[PARAMS[0]] = 0.0
        subs[sympy.Symbol(PARAMS[0])] = 0
    got = m.evalf(subs=subs)
    unchanged(m, snap, 'evalf')
    if not m.data:
        rec.trivial()
        req(np.all(dense(got) == 0), 'value of a zero Model is not zero')
        return
    same(dense(got), ref(v), 'value of evalf', 1e-9 if spec['fmt'] != 'lo' else 1e-7)
    if spec['fmt'] in ('csr', 'csc'):
        req(sp.issparse(got), 'value of a sparse Model is not sparse')
    # without symbols no values are needed
    c = m.subs([(sympy.Symbol(k), x) for k, x in v.items()]) if spec['fmt'] in ('arr', 'csr', 'num') else None
    if c is not None and c.data:
        same(dense(c.evalf()), ref(v), 'value of evalf without arguments', 1e-6)


@P.law(exports(fmts=('arr', 'csr', 'csc', 'coo', 'lo'), rect=True), 1200)
def formats(case, rec):
    """Dense and csr forms and copies: same terms, values, momenta and kept terms, values of the right type."""
    m, ref = made(case)
    spec = case['spec']
    rec.label(case['cls'], spec['fmt'])
    if spec['fmt'] in ('csr', 'csc', 'coo') and case['up']:
        rec.label('non-canonical values')
        for i, k in enumerate(list(m.keys())):
            m[k] = messy(dense(m[k]), case['seed'] + i, spec['fmt'])
    if not m.data:
        rec.trivial()
    if m.data and case['how'] % 2:
        m.keep = set(m.keys())
    snap = snapshot(m)
    for name, r, cls in (('toarray', m.toarray(), np.ndarray), ('tocsr', m.tocsr(), sp.csr_matrix), ('copy', m.copy(), FMT_CLASS[spec['fmt']])):
        unchanged(m, snap, name)
        req(type(r) is type(m) and names(r) == tuple(spec['mom']) and tuple(r.shape) == tuple(spec['shape']), f'{name}: kind, momenta or shape changed')
        req(issubclass(r.format, cls), f'{name}: format is {r.format}')
        req(set(r.keep) == set(m.keep), f'{name}: kept terms changed')
        req(set(r.keys()) == set(m.keys()), f'{name}: terms changed')
        for k, v in r.items():
            req(isinstance(v, cls), f'{name}: value of type {type(v)}')
            same(dense(v), dense(m[k]), f'{name}: value of {k}', 1e-12)
        # the result is a working Model (the sum of coo matrices is in another format)
        if cls is not sp.coo_matrix:
            agree(r + r, lambda v: 2 * ref(v), spec['mom'] + list(PARAMS), f'sum of results of {name}', case['seed'], 1, spec['shape'])
