"""C13: BlochModels are the periodic Models they were made from."""
import itertools

from . import c09_arithmetic as c09
from .lib import *

P = Property('C13', 'cases: BlochModels from strings, sympy, dictionaries, Models and hopping vectors, programs of operations on them, and expressions that are '
             'not Bloch functions; compared with the values and with the hopping vectors they are made of; non-trivial: at least one term')

SRC = ['dict', 'model', 'coeff', 'string', 'sympy', 'dict combined', 'unexpanded']


@st.composite
def blochs(draw, fmts=('arr', 'arr', 'csr', 'num')):
    src = draw(st.sampled_from(SRC))
    if src in ('string', 'sympy'):
        fmts = ('arr',)
    spec = draw(model_specs(fmts=fmts, kind='bloch', min_terms=0 if src in ('dict', 'model') else 1, max_terms=4))
    return {'spec': spec, 'src': src, 'seed': draw(seeds), 'scale': draw(st.sampled_from([1, 1, 1, 2, 3])), 'mform': draw(st.booleans())}


SCALE = {1: (1, ''), 2: (math.sqrt(3), '*sqrt(3)'), 3: (2 / 3, '*2/3')}


def term_parts(spec, t, sc):
    hop = np.array(t.h if t.h is not None else [0] * spec['dim'], float) / 2 * SCALE[sc][0]
    co = [f'{m}**{n}' for m, n in zip(PARAMS, t.c[:2]) if n]
    if t.c[2]:
        co.append(f'e**(({t.c[2]})*I*mu)')
    return hop, ' * '.join(co) or '1'


def key(spec, t, sc, how):
    hop, co = term_parts(spec, t, sc)
    ex = [f'({h}){SCALE[sc][1]}*I*{m}/2' for h, m in zip(t.h or [], spec['mom']) if h]
    if how == 'dict combined' and len(ex) > 1:
        return co + ' * ' + ' * '.join(f'e**({x})' for x in ex)
    if how == 'unexpanded' and ex:
        return co + ' * e**(I*(' + ' + '.join(x.replace('*I', '') for x in ex) + '))'
    return co + (' * e**(' + ' + '.join(ex) + ')' if ex else '')


E_ = {'e': sympy.Symbol('e', positive=True)}


def make(case, spec=None):
    spec = spec or case['spec']
    sc, src = case['scale'], case['src']
    terms = spec_terms(spec)
    v = [fmt_value(term_value(spec, t), spec['fmt']) for t in terms]
    mom = [sympy.Symbol(s) for s in spec['mom']] if case['mform'] else spec['mom']
    kw = dict(momenta=mom, shape=tuple(spec['shape']), format=FMT_CLASS[spec['fmt']])
    if src == 'coeff':
        return BlochModel({BlochCoeff(term_parts(spec, t, sc)[0], sympy.sympify(term_parts(spec, t, sc)[1], locals=E_)): a for t, a in zip(terms, v)}, **kw)
    data = {key(spec, t, sc, src): a for t, a in zip(terms, v)}
    if src == 'model':
        return BlochModel(Model(data, **kw))
    if src in ('string', 'sympy'):
        text = ' + '.join(f'{k} * Matrix({np.array2string(a, separator=",", floatmode="unique", max_line_width=10**6, threshold=10**6).replace("j", "*I")})'
                          for k, a in data.items())
        if src == 'sympy':
            ex = sympy.zeros(*spec['shape'])
            for k, a in data.items():
                ex += sympy.sympify(k, locals=E_) * sympy.Matrix(a)
            return BlochModel(sympy.ImmutableMatrix(ex), momenta=mom)
        return BlochModel(text, momenta=mom)
    return BlochModel(data, **kw)


def value(spec, sc, v):
    out = np.zeros(tuple(spec['shape']), complex)
    for t in spec_terms(spec):
        hop, _ = term_parts(spec, t, sc)
        c = v['a'] ** t.c[0] * v['b'] ** t.c[1] * cmath.exp(1j * t.c[2] * v['mu'])
        out = out + c * cmath.exp(1j * hop.dot([v[m] for m in spec['mom']])) * np.asarray(term_value(spec, t))
    return out


def hops(m):
    return sorted((tuple(np.round(np.array(k[0], float), 7) + 0.0), str(k[1])) for k in m.keys())


def check(m, spec, sc, seed, msg, mom=True):
    req(isinstance(m, BlochModel), f'{msg}: not a BlochModel')
    if m.data:
        req(names(m) == tuple(spec['mom']), f'{msg}: momenta {names(m)}')
        req(tuple(m.shape) == tuple(spec['shape']), f'{msg}: shape {m.shape}')
    for k in m:
        req(np.shape(k[0]) == (spec['dim'],), f'{msg}: hopping vector {k[0]}')
        req(not any(s.name in spec['mom'] for s in k[1].atoms(sympy.Symbol)), f'{msg}: coefficient {k[1]} depends on momentum')
    ks = hops(m)
    req(len(set(ks)) == len(ks), f'{msg}: repeated hoppings {ks}')
    for v in points(seed, spec['mom'] + list(PARAMS), 2):
        want = value(spec, sc, v)
        same(evalm(m, v, spec['shape']), want, f'{msg}: value', 1e-7)


@P.law(blochs(), 1400)
def reading(case, rec):
    """From any source: the terms have the hopping vectors and coefficients of the expression, and the value is right."""
    spec, sc = case['spec'], case['scale']
    rec.label(case['src'], spec['fmt'], f"{spec['dim']}D")
    if not spec['terms']:
        rec.trivial()
    m = make(case)
    check(m, spec, sc, case['seed'], f"BlochModel from {case['src']}")
    want = sorted((tuple(np.round(term_parts(spec, t, sc)[0], 7) + 0.0), str(sympy.sympify(term_parts(spec, t, sc)[1], locals=E_)))
                  for t in spec_terms(spec) if np.max(np.abs(term_value(spec, t)), initial=0) > 1e-12 or case['src'] == 'coeff')
    have = [h for k, h in zip(m.keys(), [(tuple(np.round(np.array(k[0], float), 7) + 0.0), str(k[1])) for k in m.keys()])
            if np.max(np.abs(dense(m.data[k])), initial=0) > 1e-12 or case['src'] == 'coeff']
    req(sorted(have) == want, f'hoppings are {sorted(have)}, expected {want}')


@P.law(blochs(fmts=('arr', 'csr', 'num', 'lo')), 900)
def round_trips(case, rec):
    """Conversion to Model and back, also with exact numbers, keeps value, momenta, shape, format and kept terms."""
    spec, sc = case['spec'], case['scale']
    rec.label(case['src'], spec['fmt'])
    if not spec['terms']:
        rec.trivial()
    b = make(case)
    if case['seed'] % 2:
        b.keep = set(b.keys())
    snap = snapshot(b)
    for ns in (False, True):
        m = b.tomodel(nsimplify=ns)
        req(type(m) is Model and names(m) == tuple(spec['mom']) and len(m.keep) == len(b.keep), 'tomodel: kind, momenta or kept terms wrong')
        for v in points(case['seed'], spec['mom'] + list(PARAMS), 2):
            same(evalm(m, v, spec['shape']), value(spec, sc, v), 'value of the Model of a BlochModel', 1e-7)
        if ns:
            req(not any(k.atoms(sympy.Float) for k in m), 'tomodel(nsimplify=True) has floating point hoppings')
        b2 = BlochModel(m)
        check(b2, spec, sc, case['seed'], 'BlochModel of the Model of a BlochModel')
        if spec['fmt'] != 'lo':
            req(b2 == b, 'BlochModel -> Model -> BlochModel gives something else')
        req(hops(b2) == hops(b), 'hoppings change in a round trip')
    b3 = BlochModel(b)
    check(b3, spec, sc, case['seed'], 'BlochModel of a BlochModel')
    unchanged(b, snap, 'conversion')


def make_bloch(spec):
    return build(spec, BlochModel)


@P.law(c09.programs(cls='BlochModel', kinds=('bloch',), fmts=('arr', 'arr', 'csr', 'num', 'lo')), 1600)
def programs(case, rec):
    """Programs of operations on BlochModels give at every point what they give on the values; like hoppings are collected."""
    c09.program(case, rec, make_bloch)


@P.law(st.tuples(blochs(fmts=('arr',)), blochs(fmts=('arr',)), seeds), 700)
def against_models(case, rec):
    """Sums, products and conjugates of BlochModels are those of the corresponding Models; hoppings add in products."""
    A, B, seed = case
    sA = A['spec']
    n = sA['shape'][0]
    sB = dict(B['spec'], dim=sA['dim'], mom=sA['mom'], shape=sA['shape'])
    sB['terms'] = []
    seen = set()
    for t in B['spec']['terms']:
        t = [([0] * sA['dim']), t[1], (list(t[2]) + [0, 0])[:sA['dim']], t[3]]
        if Term(t).ident() not in seen:
            seen.add(Term(t).ident())
            sB['terms'].append(t)
    a, b = make(A), make(dict(B, scale=A['scale'], mform=A['mform']), sB)
    if not a.data or not b.data:
        rec.trivial()
        return
    sc = A['scale']
    fa, fb = (lambda v: value(sA, sc, v)), (lambda v: value(sB, sc, v))
    rec.label(f"{n}x{n}", f"{len(a)}*{len(b)} terms")
    pairs = {}
    for (h1, c1), (h2, c2) in itertools.product(a, b):
        pairs.setdefault((tuple(np.round(h1 + h2, 6) + 0.0), str(c1 * c2)), 0)
    ab = a @ b
    got = {(tuple(np.round(h, 6) + 0.0), str(c)) for h, c in ab}
    req(got == set(pairs), f'hoppings of a product are {got}, expected {set(pairs)}')
    for name, bl, mo, f in (('sum', a + b, a.tomodel() + b.tomodel(), lambda v: fa(v) + fb(v)), ('product', ab, a.tomodel() @ b.tomodel(), lambda v: fa(v) @ fb(v)),
                            ('conjugate', a.conj(), a.tomodel().conj(), lambda v: fa(v).conj()), ('adjoint', a.conj().T(), a.T().conj().tomodel(), lambda v: fa(v).conj().T)):
        agree(bl, f, sA['mom'] + list(PARAMS), name, seed, 2, tuple(sA['shape']))
        agree(mo, f, sA['mom'] + list(PARAMS), name + ' of Models', seed, 2, tuple(sA['shape']))


SHIFTS = [0, 0, 1 / 16, 1 / 3] + [x * 10.0 ** -d for d in range(1, 8) for x in (0.5, 2.5)]


@P.law(st.tuples(blochs(fmts=('arr', 'csr')), seeds, st.sampled_from([0, 1e-9, -3e-10, 1e-6, 0.01, 1e-13]), st.sampled_from(SHIFTS)), 900)
def collecting(case, rec):
    """Hopping vectors equal up to rounding errors are one hopping, different ones are different."""
    c, seed, eps, shift = case
    spec, sc = c['spec'], c['scale']
    a = make(c)
    a = BlochModel({BlochCoeff(k[0] + shift, k[1]): v for k, v in a.items()}, momenta=spec['mom'], shape=a.shape, format=a.format)     # at boundaries of roundings
    if not a.data:
        rec.trivial()
        return
    r = rs(seed, 5)
    noise = {k: r.choice([-1, 1], spec['dim']) * eps for k in a.data}
    b = BlochModel({BlochCoeff(k[0] * (1 + 0.0) + noise[k], k[1]): v for k, v in a.items()}, momenta=spec['mom'], shape=a.shape, format=a.format)
    s = a + b
    rec.label(str(eps))
    for k in a.data:
        k2 = BlochCoeff(k[0] + noise[k], k[1])
        req((k == k2) == (abs(eps) < 1e-8) or 1e-8 <= abs(eps) < 0.01, f'comparison of coefficients with hoppings that differ by {eps} gives {k == k2}')
        req(hash(k) == hash(k2) or not k == k2, 'equal coefficients with different hashes')
    if abs(eps) < 1e-8:
        req(len(s) == len(a), f'hoppings equal up to {eps} are not collected')
        req(a == b, f'BlochModels with hoppings equal up to {eps} differ')
        for k, v in b.items():
            same(dense(a[k]), dense(v), 'term read with rounding errors')
    elif eps >= 0.01:
        z = [k for k, v in a.items() if np.max(np.abs(dense(v))) > 0.5]
        req(len(s) == 2 * len(a), f'hoppings that differ by {eps} are collected')
        req(not z or not (a == b), f'BlochModels with hoppings that differ by {eps} are equal')


@P.law(st.tuples(st.sampled_from(['k_x', 'k_x * e**(I*k_x)', 'e**(I*a*k_x)', 'e**(k_x)', 'k_x**2 * a', 'e**(I*k_x**2)', 'a * k_y', 'e**(2*k_y + I*k_x)', 'e**(I*k_x*k_y)', 'cos(a*k_x)', 'sin(k_x)*k_y']),
                 st.sampled_from(['dict', 'string', 'model']), seeds), 200)
def rejected(case, rec):
    """Expressions that are not sums of hoppings with constant coefficients raise ValueError."""
    ex, src, seed = case
    rec.label(ex)
    M = mat(seed, 2) + np.eye(2) * 3.3
    if src == 'dict':
        if 'cos' in ex or 'sin' in ex:
            return rec.trivial()
        f = lambda: BlochModel({ex: M})      # noqa: E731
    elif src == 'model':
        m = Model(ex)
        f = lambda: BlochModel(m)      # noqa: E731
    else:
        f = lambda: BlochModel(f'({ex}) * sigma_x + e**(I*k_x) * sigma_z')      # noqa: E731
    raises(ValueError, f, f'{ex} is accepted in a BlochModel')
    raises(ValueError, lambda: BlochModel({'a': np.eye(2), BlochCoeff(np.zeros(3), sympy.Symbol('b')): np.eye(2)}), 'mixed types of keys are accepted')
    raises(ValueError, lambda: BlochCoeff([0, 0], sympy.Symbol('b')), 'a list is accepted as hopping vector')
    raises(ValueError, lambda: BlochCoeff(np.zeros(2), sympy.Symbol('b') + 1), 'a sum is accepted as coefficient')


@P.law(st.tuples(blochs(fmts=('arr', 'csr', 'num')), st.lists(st.tuples(st.integers(0, 5), st.integers(0, 4)), min_size=1, max_size=8)), 500)
def access(case, rec):
    """Terms are found by string, expression or hopping vector in any order of accesses; absent terms read as zero."""
    c, acc = case
    spec, sc = c['spec'], c['scale']
    m = make(c)
    if not m.data:
        rec.trivial()
        return
    terms = spec_terms(spec)
    before = len(m)
    for i, how in acc:
        t = terms[i % len(terms)]
        hop, co = term_parts(spec, t, sc)
        co_s = sympy.sympify(co, locals=E_)
        A = np.asarray(term_value(spec, t), complex)
        rec.label(str(how))
        if how == 0:
            got = m[BlochCoeff(hop, co_s)]
        elif how == 1:
            got = m[sympy.sympify(key(spec, t, sc, 'dict'), locals=E_)]
        elif how == 2:
            got = m[sympy.powsimp(sympy.sympify(key(spec, t, sc, 'dict'), locals=E_))]
        elif how == 3:      # the bare coefficient: the term without hopping
            got = m[co_s]
            A = sum((np.asarray(term_value(spec, u), complex) for u in terms if u.c == t.c and not any(u.h or [])), 0 * A)
        else:
            got = m[BlochCoeff(hop + 0.125, co_s)]
            A = 0 * A
        same(dense(got), A, f'term {co} with hopping {hop}, access {how}')
        req(len(m) == before, 'reading a term changes the BlochModel')


COEFS = ['1', 'a', 'a**2', 'b', 'e**(I*mu)', 'a*e**(-I*mu)', 'a*b']


@P.law(st.tuples(st.integers(1, 3), st.lists(st.tuples(st.sampled_from(COEFS), st.lists(st.integers(-3, 3), min_size=3, max_size=3)), min_size=3, max_size=3), seeds), 1500)
def coefficients(case, rec):
    """Coefficients of BlochModels: products add hoppings and multiply coefficients, equality means equal hopping and coefficient, only the constant term without hopping
    equals 1, copies and symbolic forms are faithful."""
    d, parts, seed = case
    ks = [BlochCoeff(np.array(h[:d], float) / 2, sympy.sympify(c, locals=E_)) for c, h in parts]
    mom = [sympy.Symbol(s) for s in MOM[:d]]
    x, y, z = ks
    if all(c == '1' for c, _ in parts):
        rec.trivial()
    for p, q in itertools.product(range(3), repeat=2):
        want = parts[p][0] == parts[q][0] and parts[p][1][:d] == parts[q][1][:d]
        req(bool(ks[p] == ks[q]) is want and bool(ks[p] != ks[q]) is not want, f'equality of {ks[p]} and {ks[q]} is {not want}')
        req(not want or hash(ks[p]) == hash(ks[q]), 'equal coefficients with different hashes')
        req((ks[p] in {ks[q]: 0}) is want, 'a coefficient is found in a dictionary of another one')
    for k, (c, h) in zip(ks, parts):
        one = c == '1' and not any(h[:d])
        req(bool(k == 1) is one and bool(k != 1) is not one, f'{k} == 1 is {not one}')
        req(not bool(k == k[1]) or one, f'{k} equals its bare coefficient')
        for other in (None, 'a', 2, k[1] + 1, 0):
            req(not bool(k == other), f'{k} equals {other}')
        cp = k.copy()
        req(cp == k and type(cp) is BlochCoeff, 'copy differs')
        cp[0][0] += 1
        req(k[0][0] == h[0] / 2, 'a copy shares its hopping vector')
        v = values(seed, list(MOM) + list(PARAMS))
        val = evalexpr(k[1], v) * cmath.exp(1j * sum(v[str(m)] * x_ / 2 for m, x_ in zip(mom, h)))
        for ns in (False, True):
            same(np.array(evalexpr(k.tosympy(mom, nsimplify=ns), v)), np.array(val), f'symbolic form of {k}')
    prod = x * y
    req(np.allclose(prod[0], x[0] + y[0]) and sympy.powsimp(prod[1] / (x[1] * y[1])) == 1, f'product of {x} and {y} is {prod}')
    req(x * y == y * x and (x * y) * z == x * (y * z), 'products of coefficients do not commute or associate')
    s = sympy.Symbol('c_1')
    for w in (x * s, s * x):
        req(isinstance(w, BlochCoeff) and np.allclose(w[0], x[0]) and w[1] == x[1] * s, f'product of {x} and a symbol is {w}')


@P.law(st.tuples(blochs(fmts=('arr', 'csr')), st.lists(st.integers(0, 5), min_size=1, max_size=3), st.booleans(), seeds), 400)
def kept(case, rec):
    """Of a BlochModel with kept coefficients only these terms remain, in products as well, and conversions carry the kept coefficients, present or not."""
    c, which, extra, seed = case
    spec, sc = c['spec'], c['scale']
    terms = spec_terms(spec)
    if not terms:
        rec.trivial()
        return
    full = BlochModel({BlochCoeff(term_parts(spec, t, sc)[0], sympy.sympify(term_parts(spec, t, sc)[1], locals=E_)): fmt_value(term_value(spec, t), spec['fmt']) for t in terms},
                      momenta=spec['mom'], shape=tuple(spec['shape']), format=FMT_CLASS[spec['fmt']])
    idx = {i % len(terms) for i in which}
    keys = list(full)
    keep = [keys[i] for i in sorted(idx)]
    absent = BlochCoeff(np.full(spec['dim'], 2.25), sympy.Symbol('b'))
    if extra:
        keep.append(absent)
    m = BlochModel(full.data, momenta=spec['mom'], keep=keep, shape=full.shape, format=full.format)
    req(set(m.data) == set(keys[i] for i in idx) and set(m.keep) == set(keep), f'kept terms are {set(m.data)}, keep is {m.keep}')
    for k in m.data:
        same(dense(m[k]), dense(full[k]), 'kept term')
    mo = m.tomodel()
    wantk = {sympy.powsimp(k.tosympy([sympy.Symbol(s) for s in spec['mom']]), combine='exp') for k in keep}
    req({sympy.powsimp(k, combine='exp') for k in mo.keep} == wantk, f'conversion to Model keeps {mo.keep}')
    back = BlochModel(mo)
    req(set(back.data) == set(m.data) and set(back.keep) == set(keep), f'conversion from Model has keep {back.keep}')
    other = BlochModel({BlochCoeff(np.zeros(spec['dim']), sympy.Integer(1)): 2.0, BlochCoeff(np.full(spec['dim'], .5), sympy.Symbol('a')): 1.0}, momenta=spec['mom'])
    for x, f, name in ((m, full, 'BlochModel'), (back, full, 'converted')):
        p = x * other
        q = BlochModel({k: v for k, v in f.items() if k in m.data}, momenta=spec['mom'], shape=full.shape, format=full.format) * other
        req(set(p.data) == {k for k in q.data if k in set(keep)}, f'product of a {name} with kept terms has terms {set(p.data)}')
        for k in p.data:
            same(dense(p[k]), dense(q[k]), 'kept term of a product')
    for r, name in ((m.conj(), 'conj'), (m.T(), 'T'), (m * 2, '*2'), (m + m, '+'), (-m, '-'), (m.copy(), 'copy')):
        req(set(r.keep) == set(keep), f'{name} changes the kept coefficients')
