"""C14: comparison of Models, rounding and removal of small terms."""
from .lib import *

P = Property('C14', 'cases: pairs of Models that differ term by term by known multiples of the tolerance, Models with entries around rounding thresholds '
             'and with terms of known size; the outcome is known by construction; non-trivial: at least one term')

E_ = {'e': sympy.Symbol('e', positive=True)}


def bloch_key(t, spec):
    hop = np.array(t.h if t.h is not None else [0] * spec['dim'], float) / 2
    co = [f'{s}**{n}' for s, n in zip(PARAMS, t.c[:2]) if n] + ([f'e**(({t.c[2]})*I*mu)'] if t.c[2] else [])
    return BlochCoeff(hop, sympy.sympify(' * '.join(co) or '1', locals=E_))


FAC = [0, 0, 0, 0, 0.3, -0.3, 1.3, 0.8, -1.3, 3, -3, 100]


@st.composite
def pairs(draw):
    cls = draw(st.sampled_from(['Model', 'Model', 'BlochModel']))
    fmts = ('arr', 'arr', 'csr', 'csc', 'num', 'lo')
    spec = draw(model_specs(fmts=fmts, kind='bloch' if cls == 'BlochModel' else draw(st.sampled_from(['poly', 'mixed'])), max_terms=5))
    return {'cls': cls, 'spec': spec, 'seed': draw(seeds),
            'rtol': draw(st.sampled_from([1e-5, 1e-5, 1e-5, 0, 1e-2, 1e-9, 0.5, 0.8])), 'atol': draw(st.sampled_from([1e-8, 1e-8, 1e-8, 1e-3, 1e-10])),
            'scale': draw(st.sampled_from([1, 1, 1, 1e3, 1e-3, 1e-7])),
            'terms': [[draw(st.sampled_from(FAC)), draw(st.sampled_from(['both', 'both', 'both', 'first', 'second', 'zero', 'small'])), draw(seeds)]
                      for _ in spec['terms']],
            'order': draw(st.booleans()), 'keep': draw(st.booleans())}


def make(cls, spec, vals, order=False, keep=()):
    # BlochModels are made from BlochCoeffs, as small terms are removed when they are made from expressions
    items = [(t.key(spec['mom']) if cls == 'Model' else bloch_key(t, spec), v) for t, v in zip(spec_terms(spec), vals) if v is not None]
    if order:
        items = items[::-1]
    return (Model if cls == 'Model' else BlochModel)({k: fmt_value(v, spec['fmt']) for k, v in items}, momenta=spec['mom'],
                                                     shape=tuple(spec['shape']), format=FMT_CLASS[spec['fmt']])


@P.law(pairs(), 4000)
def equality(case, rec):
    """Models are equal if and only if every entry of every term differs at most by atol + rtol times the largest entry of the term; a missing
    term is zero.  The outcome is symmetric and independent of the order of terms and of kept terms."""
    spec, cls, rtol, atol = case['spec'], case['cls'], case['rtol'], case['atol']
    if not spec['terms']:
        rec.trivial()
    rec.label(cls, spec['fmt'])
    va, vb, want = [], [], True
    for t, (fac, where, seed) in zip(spec_terms(spec), case['terms']):
        A = np.array(term_value(spec, t)) * case['scale']
        if where in ('first', 'second', 'zero', 'small'):
            # missing on one side: equal only if small
            A = A * 0
            i = rs(seed).randint(A.size)
            if where != 'zero':
                size = (fac if where != 'small' else np.clip(fac, -0.3, 0.3)) * atol / (1 - rtol)
                A.reshape(-1)[i] = size
            big = abs(A.reshape(-1)[i]) > atol / (1 - rtol)
            va.append(A if where in ('first', 'zero', 'small') else None)
            vb.append(A if where == 'second' else None)
            want = bool(want and not big)
            continue
        i = rs(seed).randint(A.size)
        m = np.max(np.abs(A))
        B = A.copy()
        ph = rs(seed, 3).choice([1, 1j, -1, 0.6 + 0.8j])
        delta = fac * (atol + rtol * m)
        B.reshape(-1)[i] += ph * delta
        tol = atol + rtol * max(np.max(np.abs(A)), np.max(np.abs(B)))
        d = np.max(np.abs(B - A))
        # rounding of the perturbation itself
        if abs(d - tol) < 0.05 * tol or m * 1e-15 > 0.01 * tol:
            B, d = A.copy(), 0
        va.append(A)
        vb.append(B)
        want = bool(want and d <= tol)
    if spec['fmt'] == 'num':
        va, vb = [[None if v is None else complex(v) for v in x] for x in (va, vb)]
    a, b = make(cls, spec, va), make(cls, spec, vb, case['order'])
    if case['keep']:
        b.keep = set(b.keys())
    rec.label('equal' if want else 'different')
    sa, sb = snapshot(a), snapshot(b)
    std = rtol == 1e-5 and atol == 1e-8
    for x, y, name in ((a, b, 'a, b'), (b, a, 'b, a')):
        req(bool(x.allclose(y, rtol=rtol, atol=atol)) is want, f'allclose({name}) is {not want} with tolerances {rtol}, {atol}; differences {case["terms"]}')
        if std:
            req(bool(x == y) is want, f'== of {name} is {not want}')
            req(bool(x != y) is not want, f'!= of {name} is {want}')
    for x in (a, b):
        req(x == x and x == x.copy() and x.allclose(x, rtol=0, atol=0), 'a Model differs from itself or its copy')
    unchanged(a, sa, 'comparison')
    unchanged(b, sb, 'comparison')
    # comparison with zero
    for x, vs in ((a, va), (b, vb)):
        top = max([np.max(np.abs(v)) for v in vs if v is not None], default=0)
        zt = max([np.max(np.abs(v)) * (1 - 1e-5) for v in vs if v is not None], default=0)
        if not 0.9e-8 < zt < 1.1e-8:
            zero = bool(top < 1e-8)
            for z in (0, {}, x.zeros_like()):
                req(bool(x == z) is zero, f'comparison of a Model with {z if not isinstance(z, Model) else "a zero Model"} is {not zero}, largest entry {top}')


@st.composite
def rounded(draw):
    cls = draw(st.sampled_from(['Model', 'Model', 'BlochModel']))
    spec = draw(model_specs(fmts=('arr', 'arr', 'csr', 'csc', 'coo', 'num'), kind='bloch' if cls == 'BlochModel' else 'poly', max_terms=4))
    return {'cls': cls, 'spec': spec, 'seed': draw(seeds), 'dec': draw(st.sampled_from([3, 3, None, 0, 1, 2, 5, 7, 9, 12, -1])),
            'scales': [draw(st.sampled_from([1, 1, 0.3, 1e-1, 1e-3, 1e-4, 1e-6, 1e-9, 1e-13, 1e2])) for _ in spec['terms']]}


@P.law(rounded(), 2400)
def rounding(case, rec):
    """around rounds every entry to the given number of decimals (default 3), drops exactly the terms that become zero, keeps everything else, does
    not modify the Model, and is idempotent."""
    spec, cls, d = case['spec'], case['cls'], case['dec']
    if not spec['terms']:
        rec.trivial()
    rec.label(cls, spec['fmt'], f'decimals {d}')
    r = rs(case['seed'])
    vals = [np.array(term_value(spec, t)) * s * r.uniform(0.2, 1.2) for t, s in zip(spec_terms(spec), case['scales'])]
    if spec['fmt'] == 'num':
        vals = [complex(v) for v in vals]
    m = make(cls, spec, vals)
    snap = snapshot(m)
    res = m.around(d) if d is not None else m.around()
    dd = 3 if d is None else d
    unchanged(m, snap, 'around')
    req(type(res) is type(m) and res.momenta == m.momenta and res.shape == m.shape and res.format is m.format, 'around changes the kind of the Model')
    got = {k: np.array(dense(v), complex) for k, v in res.items()}
    for t, v in zip(spec_terms(spec), vals):
        q = 10.0 ** dd
        want = (np.round(np.real(np.asarray(v)) * q) + 1j * np.round(np.imag(np.asarray(v)) * q)) / q
        top = np.max(np.abs(want))
        have = res[m_key(m, t, spec)]
        if top == 0:
            req(m_key(m, t, spec) not in res.data, 'around keeps a term that is zero')
        elif top > 2e-8:
            req(m_key(m, t, spec) in res.data, f'around drops a term of size {top}')
        if top > 2e-8:
            g = np.asarray(dense(have), complex)
            # an entry that lies within rounding of a half can go either way
            half = np.abs(np.abs(np.asarray(v) * q - want * q)).max() > 0.4999
            req(np.max(np.abs(g - np.asarray(v))) <= 0.7072 / q + 1e-12, f'around({d}) moves an entry by more than half a unit')
            if not half:
                same(g, want, f'entries rounded to {d} decimals', 1e-14)
    req(len(got) <= len(spec['terms']), 'around adds terms')
    two = res.around(dd)
    req(set(two.data) == set(res.data) and all(close(two.data[k], res.data[k], 1e-15) for k in two.data), 'around is not idempotent')


def m_key(m, t, spec):
    """Key of a term in m."""
    if isinstance(m, BlochModel):
        return bloch_key(t, spec)
    return sympy.sympify(t.key(spec['mom']), locals=E_)


@st.composite
def small(draw):
    cls = draw(st.sampled_from(['Model', 'Model', 'BlochModel']))
    spec = draw(model_specs(fmts=('arr', 'arr', 'csr', 'csc', 'coo', 'num', 'lo'), kind='bloch' if cls == 'BlochModel' else 'poly', max_terms=5))
    return {'cls': cls, 'spec': spec, 'seed': draw(seeds), 'tols': draw(st.sampled_from([None, None, [1e-3, 1e-8], [0, 1e-3], [1e-2, 0], [0.3, 1e-8], [0, 0]])),
            'scales': [draw(st.sampled_from([1, 1, 0.25, 1e-1, 1e-2, 1e-4, 1e-6, 1e-9, 0])) for _ in spec['terms']],
            'overall': draw(st.sampled_from([1, 1, 1e-4, 1e4, 1e-7]))}


@P.law(small(), 2400)
def eliminate_zeros(case, rec):
    """eliminate_zeros removes exactly the terms with a Frobenius norm below the larger of atol and rtol times the largest norm, leaves the others
    as they are, and does not modify the Model; formats without a norm raise."""
    spec, cls = case['spec'], case['cls']
    if not spec['terms']:
        rec.trivial()
    rec.label(cls, spec['fmt'])
    vals = [np.array(term_value(spec, t)) * s * case['overall'] for t, s in zip(spec_terms(spec), case['scales'])]
    if spec['fmt'] == 'num':
        vals = [complex(v) for v in vals]
    m = make(cls, spec, vals)
    snap = snapshot(m)
    if spec['fmt'] in ('num', 'lo'):
        raises(ValueError, m.eliminate_zeros, 'eliminate_zeros of a Model with unsupported format does not raise')
        unchanged(m, snap, 'eliminate_zeros')
        return
    rtol, atol = case['tols'] or (1e-5, 1e-8)
    res = m.eliminate_zeros(rtol=rtol, atol=atol) if case['tols'] else m.eliminate_zeros()
    unchanged(m, snap, 'eliminate_zeros')
    req(type(res) is type(m) and res.momenta == m.momenta and res.shape == m.shape and res.format is m.format, 'eliminate_zeros changes the kind of the Model')
    norms = [math.sqrt(sum(abs(x) ** 2 for x in np.asarray(v).reshape(-1))) for v in vals]
    tol = max(atol, rtol * max(norms, default=0))
    kept = 0
    for t, v, nv in zip(spec_terms(spec), vals, norms):
        k = m_key(m, t, spec)
        inside = k in res.data
        kept += inside
        if nv > tol * 1.0001 and nv > 0:
            req(inside, f'a term of norm {nv} is removed, tolerance {tol}')
        elif nv < tol * 0.9999:
            req(not inside, f'a term of norm {nv} is not removed, tolerance {tol}')
        if inside:
            req(np.array_equal(dense(res.data[k]), v) and type(res.data[k]) is type(m.data[k]), 'values of a term that is not removed change')
            req(not np.may_share_memory(dense(res.data[k]), dense(m.data[k])) or spec['fmt'] not in ('arr',), 'the result shares values with the Model')
    req(len(res.data) == kept, 'eliminate_zeros adds terms')


@st.composite
def entries(draw):
    return {'n': draw(st.integers(0, 4)), 'm': draw(st.integers(0, 4)), 'seed': draw(seeds), 'fa': draw(st.sampled_from(['arr', 'csr', 'lo', 'list', 'real'])),
            'fb': draw(st.sampled_from(['arr', 'csr', 'lo', 'list', 'zero'])), 'fac': draw(st.sampled_from(FAC)), 'scale': draw(st.sampled_from([1, 1e5, 1e-5, 0])),
            'nan': draw(st.sampled_from(['no', 'no', 'no', 'no', 'a', 'both']))}


@P.law(entries(), 2400)
def arrays(case, rec):
    """linalg.allclose compares arrays, sparse matrices, lists and operators in any combination, with the tolerance relative to the largest entry."""
    n, m = case['n'], case['m']
    fa, fb = case['fa'], case['fb']
    if 0 in (n, m):
        # empty arrays are equal if the shapes are
        rec.trivial()
        A, B = np.zeros((n, m)), np.zeros((n, m + 1))
        req(qsymm.linalg.allclose(A, A.copy()) and not qsymm.linalg.allclose(A, B), 'comparison of empty arrays')
        return
    A = mat(case['seed'], n, m, 'real' if fa == 'real' else 'any') * case['scale']
    B = A.copy()
    top = np.max(np.abs(A))
    i = rs(case['seed'], 1).randint(A.size)
    B.reshape(-1)[i] += case['fac'] * (1e-8 + 1e-5 * top)
    if fb == 'zero':
        B = A * 0
    want = np.max(np.abs(A - B)) <= 1e-8 + 1e-5 * max(top, np.max(np.abs(B)))
    nan = case['nan'] if {fa, fb} <= {'arr', 'real', 'list'} else 'no'
    if nan != 'no':
        A = A.copy()
        A.reshape(-1)[0] = np.nan
        if nan == 'both':
            B.reshape(-1)[0] = np.nan
    conv = {'list': lambda x: x.tolist(), 'zero': lambda x: 0}
    a, b = conv.get(fa, lambda x: fmt_value(x, fa))(A), conv.get(fb, lambda x: fmt_value(x, fb))(B)
    if fa == 'csr' and fb in ('list', 'zero') or fb == 'csr' and fa == 'list':
        b, a = fmt_value(B, 'csr'), fmt_value(A, 'csr')
    if fa == 'lo' and fb == 'zero':
        b = fmt_value(B, 'arr')
    rec.label(f'{fa}, {fb}', 'close' if want else 'different')
    if nan == 'a':
        want = False
    if nan == 'both':
        req(not qsymm.linalg.allclose(a, b), 'nan equals nan')
        return
    for x, y in ((a, b), (b, a)):
        if np.isscalar(x):
            continue
        req(bool(qsymm.linalg.allclose(x, y)) is bool(want), f'allclose of {fa} and {fb} is {not want}, entries up to {top}, factor {case["fac"]}')
