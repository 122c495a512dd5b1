"""C11: substitution and rotation of momenta act on the value and on the list of momenta."""
from sympy.core.cache import clear_cache

from .lib import *

P = Property('C11', 'cases: lists of substitutions (numbers, renamings, expressions) and rotations on Models and BlochModels, value and '
             'momenta compared with evaluation at the substituted point; non-trivial: a replaced symbol occurs in the Model')

NEWNUM = [0, 1, 2, -1, 0.5, -0.3, np.float64(1.25), np.int64(2), 'Rational(1, 3)', 'sqrt(2)', 'pi/2', '0', '1', 'Float(0.7)', 'Integer(-2)']
# replacements by expressions; {m} is the symbol itself, the others are fresh or untouched symbols
EXPR = ['q', 'q_x', '2*{m}', '{m} + q', '-{m}', '{m}/2 + 1', 'q + r', '2*q', 'q*r', '{m} + 3*r', '{o}', '{o} + q', '{m} + {o}', '2*{o} - 1', 'q**2']


def newval(i, sym, other, bloch):
    """(object, function of the values, names of symbols it contains)."""
    if i < 15:
        x = NEWNUM[i]
        if isinstance(x, str):
            x = sympy.sympify(x)
        return x, lambda v: complex(x), set()
    t = EXPR[(i - 15) % len(EXPR)]
    t = t.format(m=sym, o=other)
    ex = sympy.sympify(t, locals={s: sympy.Symbol(s) for s in (sym, other, 'q', 'r', 'q_x')})
    return ex, lambda v: evalexpr(ex, v), {s.name for s in ex.atoms(sympy.Symbol)}


@st.composite
def cases(draw, kind, cls='Model', fmts=('arr', 'arr', 'csr', 'num')):
    spec = draw(model_specs(fmts=fmts, kind=kind, min_terms=0, max_terms=4, degree=2))
    olds = draw(st.lists(st.sampled_from(spec['mom'] + spec['mom'] + ['a', 'b', 'mu']), min_size=1, max_size=3, unique=True))
    return {'spec': spec, 'subs': [[o, draw(st.integers(0, 29))] for o in olds], 'cls': cls, 'seed': draw(seeds),
            'form': draw(st.sampled_from(['pair', 'list', 'dict', 'list', 'chain', 'zip', 'tuple', 'exchange'])), 'other': draw(st.integers(0, 5)), 'sim': draw(st.booleans()), 'shift': draw(st.booleans()),
            'text': draw(st.sampled_from([0, 0, 0, 1, 2, 3])), 'flush': draw(st.integers(0, 2)) == 0}


def expected_momenta(mom, subs):
    """The documented rules, applied to every replacement."""
    out = list(mom)
    for old, new, nm in subs:
        if old not in out:
            continue
        if isinstance(new, sympy.Symbol):
            out[out.index(old)] = new.name
        elif not any(s in out for s in nm):
            out.remove(old)
    return tuple(out)


ONE = ('zip', 'list', 'tuple', 'chain')     # several replacements that follow each other


def exchange(case, rec, m):
    """Simultaneous exchange or cyclic permutation of the momenta, and of parameters."""
    spec = case['spec']
    mom = spec['mom']
    n = len(mom)
    sh = 1 + case['other'] % max(n - 1, 1)
    new = mom[sh:] + mom[:sh]
    pairs = list(zip(mom, new))
    if n == 1 or case['shift'] and case['cls'] == 'Model':
        pairs += [('a', 'b'), ('b', 'a')]
    if n == 1 and not {'a', 'b'} & {t.name for k in m for t in (k[1] if isinstance(k, tuple) else k).atoms(sympy.Symbol)}:
        rec.trivial()
    rec.label('exchange')
    if case['flush']:
        clear_cache()
    S = {sympy.Symbol(a): sympy.Symbol(b) for a, b in pairs}
    r = m.subs(S if case['sim'] else list(S.items()), simultaneous=True)
    req(names(r) == tuple(new), f'momenta after exchange {pairs}: {names(r)}')
    for v in points(case['seed'], list(mom) + list(PARAMS), 2):
        w = dict(v)
        for a, b in pairs:
            w[a] = v[b]
        want = reference(spec, w)
        same(evalm(r, v, spec['shape']), want, f'value after exchange {pairs}', 1e-6, scale=np.max(np.abs(want), initial=0) + 100)


def run(case, rec, m):
    spec = case['spec']
    if case['form'] == 'exchange':
        return exchange(case, rec, m)
    bloch = case['cls'] == 'BlochModel'
    taken = [s[0] for s in case['subs']]
    rest = [s for s in spec['mom'] + ['a', 'b'] if s not in taken] or ['s']
    other = rest[case['other'] % len(rest)]
    subs = []
    for old, i in case['subs']:
        if case['form'] == 'pair' and subs:
            break
        if case.get('shift') and subs and old in spec['mom'] and case['form'] in ONE:
            # the name of a momentum replaced earlier is free again
            gone = [x[0] for x in subs if x[0] in spec['mom'] and x[0] not in {s for y in subs for s in y[2]}]
            if gone:
                i, other = 25, gone[0]
        new, f, nm = newval(i, old, other, bloch)
        ismom = old in spec['mom']
        now = expected_momenta(spec['mom'], [x[:3] for x in subs])
        if ismom and isinstance(new, sympy.Symbol) and (new.name in now if case['form'] in ONE else new.name in spec['mom'] or new.name in [x[1].name for x in subs if isinstance(x[1], sympy.Symbol)]):
            continue        # two momenta would get the same name
        if bloch and (not ismom and any(s in spec['mom'] for s in nm) or ismom and i >= 15 and EXPR[(i - 15) % 15] in ('q*r', 'q**2')):
            continue        # coefficients may not depend on momenta, see the documentation
        if bloch and ismom and isinstance(new, sympy.Symbol) and new.name in PARAMS:
            continue        # a parameter would become a momentum
        subs.append((old, new, nm, f))
        rec.label(*['name used again'] if isinstance(new, sympy.Symbol) and ismom and new.name in spec['mom'] else [])
    if not subs:
        rec.trivial()
        return
    mom = expected_momenta(spec['mom'], [s[:3] for s in subs])
    if bloch and any(o not in spec['mom'] and nm & set(mom) for o, _, nm, _ in subs):
        rec.trivial()       # a coefficient would depend on a momentum
        return
    occurs = {s.name for k in m for s in (k[1] if bloch else k).atoms(sympy.Symbol)} | ({n for k in m for n, h in zip(spec['mom'], k[0]) if h} if bloch else set())
    if not any(s[0] in occurs for s in subs):
        rec.trivial()
    if case['flush']:       # symbols with the same name are equal, but no longer the same objects
        rec.label('other symbols')
        clear_cache()
    S = [(sympy.Symbol(o), n) for o, n, _, _ in subs]
    if case['text'] & 1:    # names instead of symbols
        rec.label('names')
        S = [(o, n) for o, n, _, _ in subs]
    if case['text'] & 2:
        rec.label('text')
        S = [(o, str(n) if isinstance(n, sympy.Basic) and not n.is_Float else n) for o, n in S]
    kw = {'simultaneous': True} if case['sim'] else {}
    snap = snapshot(m)
    form = case['form']
    if form == 'pair':
        r = m.subs(*S[0], **kw)
    elif form == 'dict':
        r = m.subs(dict(S), **kw)
    elif form == 'zip':
        r = m.subs(zip([o for o, _ in S], [n for _, n in S]), **kw)
    elif form == 'tuple':
        r = m.subs(tuple(tuple(p) for p in S), **kw)
    elif form == 'chain':
        r = m
        for p in S:
            r = r.subs(*p, **kw)
    else:
        r = m.subs(S, **kw)
    unchanged(m, snap, 'substitution')
    req(type(r) is type(m), f'substitution returns {type(r).__name__}')
    rec.label(form, f"{len(spec['mom'])}->{len(mom)} momenta", spec['fmt'])
    req(names(r) == mom, f'momenta after {S}: {names(r)}, expected {mom}')
    req(tuple(r.shape) == tuple(spec['shape']) and issubclass(r.format, FMT_CLASS[spec['fmt']]), f'shape or format changed to {r.shape}, {r.format}')
    nm = list(spec['mom']) + list(PARAMS) + ['q', 'r', 'q_x', 's']
    for v in points(case['seed'], nm, 2):
        w = dict(v)
        for o, _, _, f in subs:
            w[o] = f(v)
        want = reference(spec, w)
        same(evalm(r, v, spec['shape']), want, f'value after {S}', 1e-6, scale=np.max(np.abs(want), initial=0) + 100)
    left = {s.name for k in r for s in (k[1] if bloch else k).atoms(sympy.Symbol)}
    for o, n, nmm, _ in subs:
        if o not in nmm and not any(o in x[2] for x in subs):
            req(o not in left, f'{o} is still there after its substitution')
    for k in r:
        c = k[1] if bloch else k
        req(c == 1 or not any(f.is_number for f in sympy.Mul.make_args(c)), f'coefficient {k} has a numerical factor after substitution')


@P.law(cases('poly'), 1400)
def polynomial(case, rec):
    """Polynomials: value at the substituted point, momenta renamed or removed as documented."""
    run(case, rec, build(case['spec']))


@P.law(cases('mixed'), 800)
def exponentials(case, rec):
    """Exponentials, polynomials and phases: numerical exponentials become numbers, others stay."""
    run(case, rec, build(case['spec']))


@P.law(cases('bloch', cls='BlochModel'), 700)
def bloch(case, rec):
    """The same for BlochModels."""
    run(case, rec, build(case['spec'], BlochModel))


@st.composite
def rotations(draw):
    dim = draw(st.integers(1, 3))
    lat = draw(st.sampled_from(['cubic', 'hex', None]))
    cls = draw(st.sampled_from(['Model', 'BlochModel', 'Model']))
    spec = draw(model_specs(dim=dim, fmts=('arr', 'arr', 'csr', 'num'), kind='bloch' if cls == 'BlochModel' else draw(st.sampled_from(['poly', 'mixed', 'poly'])), degree=2))
    ex = draw(st.booleans())
    return {'spec': spec, 'cls': cls, 'seed': draw(seeds), 'R': [draw(R_specs(dim, ex, not ex, lat, draw(st.booleans()))) for _ in range(draw(st.integers(1, 2)))]}


@P.law(rotations(), 1200)
def rotate(case, rec):
    """Rotated momenta: the value at k is that of the original at R k; rotations compose; momenta, shape and format stay."""
    spec = case['spec']
    if not spec['terms']:
        rec.trivial()
    m = build(spec, {'Model': Model, 'BlochModel': BlochModel}[case['cls']])
    rec.label(case['cls'], *(r[0] for r in case['R']))
    snap = snapshot(m)
    r, tot = m, np.eye(spec['dim'])
    for R in case['R']:
        Rm = R_make(R)
        r = r.rotate_momenta(np.array(Rm) if isinstance(Rm, type(ta.array([1]))) else Rm)
        tot = tot @ R_num(R)
    unchanged(m, snap, 'rotate_momenta')
    req(type(r) is type(m) and names(r) == tuple(spec['mom']) and r.format is m.format, 'rotate_momenta changes the kind of Model')
    if r.data:
        req(tuple(r.shape) == tuple(spec['shape']), 'rotate_momenta changes the shape')
    for v in points(case['seed'], spec['mom'] + list(PARAMS), 2):
        k = tot @ np.array([v[s] for s in spec['mom']])
        want = reference(spec, at_k(v, spec['mom'], k))
        same(evalm(r, v, spec['shape']), want, 'value of the rotated Model', 1e-6, scale=10 + np.max(np.abs(want), initial=0))
    bad = np.eye(spec['dim'] + 1)
    raises((AssertionError, ValueError), lambda: m.rotate_momenta(bad), 'rotation of wrong dimension is accepted')


@P.law(st.tuples(model_specs(fmts=('arr', 'csr', 'num'), kind='poly', min_terms=1, degree=3), seeds, st.sampled_from(['diff', 'scale', 'square', 'const'])), 500)
def transform(case, rec):
    """A function applied to the coefficients: derivatives, rescaling, squares of the coefficients."""
    spec, seed, how = case
    m = build(spec)
    rec.label(how)
    s = spec['mom'][0]
    S = sympy.Symbol(s)
    fn = {'diff': lambda k: sympy.diff(k, S), 'scale': lambda k: k.subs(S, 2 * S) * 3 + S, 'square': lambda k: k ** 2, 'const': lambda k: sympy.Integer(2)}[how]
    r = m.transform_symbolic(fn)
    ts = spec_terms(spec)

    def want(v):
        out = 0
        for t in ts:
            A = np.asarray(term_value(spec, t))
            c = t.coef(spec['mom'], v)
            if how == 'diff':
                c = t.p[0] * c / v[s]
            elif how == 'scale':
                c = 3 * c * 2 ** t.p[0] + v[s]
            elif how == 'square':
                c = c ** 2
            else:
                c = 2
            out = out + c * A
        return out
    req(names(r) == tuple(spec['mom']), 'momenta changed')
    agree(r, want, spec['mom'] + list(PARAMS), f'{how} of the coefficients', seed, 2, spec['shape'], 1e-6)
