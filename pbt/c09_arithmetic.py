"""C09: arithmetic of Models is arithmetic of matrix valued functions."""
import numbers as nb

from .lib import *

P = Property('C09', 'cases: programs of additions, products, multiplications by numbers, symbols and arrays, transposes and '
             'conjugations on Models with polynomial, exponential and mixed coefficients and scalar, dense, sparse or operator '
             'values, compared with pointwise arithmetic of matrices; non-trivial: at least one binary operation of nonzero operands')

NUMS = [2, -1, 0.5, 1j, 2 - 1j, 0, np.float64(1.5), np.int64(3), np.complex128(1 + 2j), 'S2', 'Shalf', 'SI', 'Spi']
SYMS = ['a', 'b', 'k_x', 'a**2', 'a*k_x', 'k_x**2', 'c', 'E', 'Ex']


def number(i):
    x = NUMS[i % len(NUMS)]
    if isinstance(x, str):
        s = {'S2': sympy.Integer(2), 'Shalf': sympy.Rational(1, 2), 'SI': sympy.I, 'Spi': sympy.pi}[x]
        return s, complex(s)
    return x, complex(x)


def symbol(i, mom, bloch):
    """(sympy expression, function)."""
    s = SYMS[i % len(SYMS)]
    m = mom[0]
    if s == 'E' or s == 'Ex':
        e = sympy.Symbol('e', positive=True)
        x = -1 if s == 'E' else 2
        return e ** (x * sympy.I * sympy.Symbol(m)), lambda v: cmath.exp(1j * x * v[m])
    ex = sympy.sympify(s.replace('k_x', m))
    if bloch and 'k_x' in s:
        return symbol(7, mom, bloch)
    return ex, lambda v: evalexpr(ex, v)


class Entry:
    def __init__(self, m, f, size=1):
        self.m, self.f, self.size = m, f, size


def wellformed(m, shape, fmt, mom, msg):
    req(isinstance(m, Model), f'{msg}: result is {type(m).__name__}')
    req(tuple(m.shape) == tuple(shape), f'{msg}: shape is {m.shape}, expected {tuple(shape)}')
    req(names(m) == tuple(mom), f'{msg}: momenta are {names(m)}, expected {tuple(mom)}')
    cls = FMT_CLASS[fmt]
    req(isinstance(m.format, type) and issubclass(m.format, cls), f'{msg}: format is {m.format}, expected {cls}')
    for k, v in m.items():
        req(isinstance(v, cls), f'{msg}: value of type {type(v).__name__} in a Model with format {cls.__name__}')


OPS = ['add', 'add', 'sub', 'neg', 'num', 'rnum', 'sym', 'rsym', 'matmul', 'mul', 'div', 'T', 'conj', 'const', 'rconst', 'arr',
       'arrmat', 'rarrmat', 'copy', 'sum', 'iadd', 'zero', 'rarr', 'sparse', 'rsparse']


def run(m1, f1, m2, f2, op, x, spec, bloch=False):
    """One instruction; returns (model, function) or None if not applicable to this format."""
    fmt, mom, shape = spec['fmt'], spec['mom'], spec['shape']
    n = shape[0] if shape else 1
    A = mat(x, n) if shape else complex(mat(x, 1)[0, 0])
    Af = fmt_value(A, fmt)
    if op == 'add':
        return m1 + m2, lambda v: f1(v) + f2(v)
    if op == 'iadd':
        r = m1.copy()
        r += m2
        return r, lambda v: f1(v) + f2(v)
    if op == 'sub':
        return m1 - m2, lambda v: f1(v) - f2(v)
    if op == 'neg':
        return -m1, lambda v: -f1(v)
    if op in ('num', 'rnum'):
        c, z = number(x)
        if op == 'rnum' and isinstance(c, np.generic):
            c = c.item()
        return (m1 * c if op == 'num' else c * m1), lambda v: z * f1(v)
    if op == 'div':
        c, z = number(x)
        if z == 0 or c in (sympy.I, sympy.pi):      # not registered as numbers.Number by sympy
            return None
        return m1 / c, lambda v: f1(v) / z
    if op in ('sym', 'rsym'):
        s, g = symbol(x, mom, bloch)
        return (m1 * s if op == 'sym' else s * m1), lambda v: g(v) * f1(v)
    if op == 'matmul':
        if fmt == 'num':
            return None
        return m1 @ m2, lambda v: f1(v) @ f2(v)
    if op == 'mul':
        if fmt not in ('arr', 'num'):
            return None
        return m1 * m2, lambda v: f1(v) * f2(v)
    if op == 'T':
        if fmt not in ('arr', 'csr'):
            return None
        return m1.T(), lambda v: f1(v).T
    if op == 'conj':
        if fmt == 'lo':
            return None
        return m1.conj(), lambda v: np.conj(f1(v))
    if op in ('const', 'rconst'):
        if op == 'rconst':
            if fmt not in ('arr', 'num'):
                return None
            return (Af if fmt == 'arr' else complex(A)) + m1, lambda v: f1(v) + A
        return m1 + Af, lambda v: f1(v) + A
    if op in ('arr', 'rarr'):
        if fmt != 'arr':
            return None
        return (m1 * A if op == 'arr' else A * m1), lambda v: f1(v) * A
    if op in ('sparse', 'rsparse'):     # the products of sparse matrices are matrix products; scipy does not pass them on from the left
        if fmt != 'csr':
            return None
        if op == 'sparse':
            return m1 * Af, lambda v: f1(v) @ A
        return (m1.__rmul__(Af) if x % 2 else m1.__rmatmul__(Af)), lambda v: A @ f1(v)
    if op in ('arrmat', 'rarrmat'):
        if fmt not in ('arr', 'csr') or op == 'rarrmat' and fmt == 'csr':
            return None
        return (m1 @ Af if op == 'arrmat' else Af @ m1), lambda v: (f1(v) @ A if op == 'arrmat' else A @ f1(v))
    if op == 'copy':
        return m1.copy(), f1
    if op == 'sum':
        return sum([m1, m2, m1]), lambda v: 2 * f1(v) + f2(v)
    if op == 'zero':
        return m1.zeros_like() + m2 + 0, f2
    raise ValueError(op)


@st.composite
def programs(draw, fmts=('arr', 'arr', 'csr', 'num', 'lo'), cls='Model', kinds=('poly', 'mixed', 'bloch')):
    dim = draw(st.integers(1, 3))
    n = draw(st.integers(1, 3))
    kind = draw(st.sampled_from(kinds))
    first = draw(model_specs(dim=dim, n=n, fmts=fmts, kind=kind, max_terms=3))
    pool = [first] + [draw(model_specs(dim=dim, shape=first['shape'] or None, n=1, fmts=(first['fmt'],), kind=kind, max_terms=3,
                                       min_terms=1, mom=first['mom'])) for _ in range(draw(st.integers(1, 2)))]
    prog = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 6), st.integers(0, 6), st.integers(0, 40)), min_size=2, max_size=7))
    return {'pool': pool, 'prog': prog, 'seed': draw(seeds), 'cls': cls}


def program(case, rec, make):
    pool = [Entry(make(s), (lambda s: lambda v: reference(s, v))(s), max(1, len(s['terms']))) for s in case['pool']]
    spec = case['pool'][0]
    nm = list(spec['mom']) + list(PARAMS) + ['c']
    vs = points(case['seed'], nm, 2)
    rec.label(spec['fmt'], f"{spec['dim']}D")
    binary = 0
    for op, i, j, x in case['prog']:
        a, b = pool[-1 - i % len(pool)], pool[-1 - j % len(pool)]
        if op in ('matmul', 'mul') and a.size * b.size > 30:
            continue
        if max(np.max(np.abs(a.f(v)), initial=0) * (1 + np.max(np.abs(b.f(v)), initial=0)) for v in vs) > 1e7:
            continue
        sa, sb = snapshot(a.m), snapshot(b.m)
        out = run(a.m, a.f, b.m, b.f, op, x, spec, bloch=case['cls'] == 'BlochModel')
        if out is None:
            continue
        m, f = out
        rec.label(op)
        if op in ('add', 'sub', 'matmul', 'mul', 'sum', 'iadd') and a.m.data and b.m.data:
            binary += 1
        wellformed(m, spec['shape'], spec['fmt'], spec['mom'], op)
        for v in vs:
            want = np.asarray(f(v), complex)
            same(evalm(m, v, spec['shape']), want, f'value after {op}', 1e-6,
                 scale=np.max(np.abs(a.f(v)), initial=1) * (1 + np.max(np.abs(b.f(v)), initial=0)))
        unchanged(a.m, sa, f'left operand of {op}')
        unchanged(b.m, sb, f'right operand of {op}')
        pool.append(Entry(m, f, max(1, len(m))))
    if not binary:
        rec.trivial()


@P.law(programs(), 3000)
def model_programs(case, rec):
    """Every program of arithmetic gives at every point what the same program gives on the values; operands are not modified."""
    program(case, rec, build)


@P.law(programs(fmts=('arr',), kinds=('poly', 'mixed')), 1500)
def dense_programs(case, rec):
    """The same for dense Models."""
    program(case, rec, build)


@st.composite
def rect(draw):
    dim = draw(st.integers(1, 2))
    a, b, c = [draw(st.integers(1, 4)) for _ in range(3)]
    fmt = draw(st.sampled_from(['arr', 'arr', 'csr']))
    mom = draw(st.sampled_from([MOM[:dim], ('k_z', 'k_x')[:dim], ('ell', 'k_x')[:dim]]))
    mt = draw(st.sampled_from([3, 3, 7]))
    mk = lambda s: draw(model_specs(dim=dim, shape=s, fmts=(fmt,), kind='poly', max_terms=mt, degree=2, mom=mom))  # noqa
    return {'A': mk([a, b]), 'B': mk([b, c]), 'C': mk([a, b]), 'D': mk([a, a]), 's': draw(seeds), 'seed': draw(seeds),
            'num': draw(model_specs(dim=dim, fmts=('num',), kind='poly', max_terms=3, degree=2, mom=mom))}


@P.law(rect(), 1500)
def shapes(case, rec):
    """Rectangular Models: shapes and values of products, transposes, traces, reshapes; also with zero Models and arrays."""
    A, B, C, D, N = (build(case[k]) for k in ('A', 'B', 'C', 'D', 'num'))
    fA, fB, fC, fD, fN = ((lambda s: lambda v: reference(s, v))(case[k]) for k in ('A', 'B', 'C', 'D', 'num'))
    (a, b), c = case['A']['shape'], case['B']['shape'][1]
    fmt, mom = case['A']['fmt'], case['A']['mom']
    if not (A.data and B.data):
        rec.label('zero Model')
        if not A.data and not B.data:
            rec.trivial()
    rec.label(fmt, 'square' if a == b == c else 'rectangular')
    X, Y = mat(case['s'], c, a), mat(case['s'] + 1, b, c)
    Yf = fmt_value(Y, fmt)
    snaps = [snapshot(m) for m in (A, B, C, D, N)]
    tests = [
        ('A @ B', A @ B, lambda v: fA(v) @ fB(v), (a, c), fmt),
        ('A + C', A + C, lambda v: fA(v) + fC(v), (a, b), fmt),
        ('A.T()', A.T(), lambda v: fA(v).T, (b, a), fmt),
        ('(A @ B).T() vs B.T() @ A.T()', B.T() @ A.T(), lambda v: (fA(v) @ fB(v)).T, (c, a), fmt),
        ('X @ A', X @ A, lambda v: X @ fA(v), (c, b), 'arr'),
        ('A @ Y', A @ Yf, lambda v: fA(v) @ Y, (a, c), fmt),
        ('A.conj()', A.conj(), lambda v: fA(v).conj(), (a, b), fmt),
        ('scalar * A', N * A, lambda v: fN(v) * fA(v), (a, b), fmt),
        ('D.trace()', D.trace(), lambda v: np.trace(fD(v)), (), 'num'),
    ]
    if fmt == 'arr':
        tests += [('A.reshape', A.reshape((b, a)), lambda v: fA(v).reshape(b, a), (b, a), 'arr'),
                  ('A.reshape(-1)', A.reshape(-1), lambda v: fA(v).reshape(-1), (a * b,), 'arr'),
                  ('A * C', A * C, lambda v: fA(v) * fC(v), (a, b), 'arr'),
                  ('A @ vector', A @ Y[:, 0], lambda v: fA(v) @ Y[:, 0], (a,), 'arr')]
    nm = list(mom) + list(PARAMS)
    for name, m, f, shape, ft in tests:
        wellformed(m, shape, ft, mom, name)
        agree(m, f, nm, name, case['seed'], 2, shape)
    for m, s, w in zip((A, B, C, D, N), snaps, 'ABCDN'):
        unchanged(m, s, f'operand {w}')


@st.composite
def independence_cases(draw):
    fmt = draw(st.sampled_from(['arr', 'csr']))
    dim = draw(st.integers(1, 2))
    n = draw(st.integers(1, 3))
    mt = draw(st.sampled_from([3, 6]))
    mk = lambda: draw(model_specs(dim=dim, n=n, fmts=(fmt,), kind='poly', min_terms=1, max_terms=mt, mom=MOM[:dim]))  # noqa
    return {'zeroed': draw(st.lists(st.integers(0, 20), max_size=4)), 'shared': draw(st.booleans()), 'A': mk(), 'B': mk(), 'how': draw(st.sampled_from(['copy', 'copy.copy', 'add', 'add0', 'radd0', 'sub', 'zero+', 'neg', 'mul', 'sum1'])),
            'z': draw(seeds)}


@P.law(independence_cases(), 800)
def independence(case, rec):
    """Changing a result in place does not change its operands: copies and sums own their values."""
    import copy
    A, B = build(case['A']), build(case['B'])
    if case['shared']:
        # B gets the terms of A as well
        for i, k in enumerate(list(A.keys())):
            B[k] = A[k] * (2 + i)
    for i in case['zeroed']:
        # terms with stored zero value, alternately in A and B
        M = (A, B)[i % 2]
        k = sorted(M.keys(), key=str)[i % len(M)]
        M[k] = M[k] * 0
    z = A.zeros_like()
    how = case['how']
    rec.label(how)
    sa, sb = snapshot(A), snapshot(B)
    res = {'copy': lambda: A.copy(), 'copy.copy': lambda: copy.copy(A), 'add': lambda: A + B, 'add0': lambda: A + 0,
           'radd0': lambda: 0 + A, 'sub': lambda: A - B, 'zero+': lambda: z + A, 'neg': lambda: -A, 'mul': lambda: A * 1,
           'sum1': lambda: sum([A])}[how]()
    for k, v in list(res.items()):
        if sp.issparse(v):
            v.data[...] = 17.5
        else:
            v[...] = 17.5
    for k in list(res.keys()):
        res[k] = res[k] * 0
    unchanged(A, sa, f'changing the result of {how}')
    unchanged(B, sb, f'changing the result of {how}')
    new = sympy.Symbol('new')
    r2 = A.copy()
    r2[new] = fmt_value(np.ones(case['A']['shape'], complex), case['A']['fmt'])
    req(new not in A, 'adding a term to a copy adds it to the original')
    r2.keep.add(new)
    req(new not in A.keep, 'copies share the set of kept terms')
    unchanged(A, sa, 'changing a copy')


@st.composite
def keep_cases(draw):
    fmt = draw(st.sampled_from(['arr', 'csr', 'num']))
    n = draw(st.integers(1, 3))
    mk = lambda: draw(model_specs(dim=1, n=n, fmts=(fmt,), kind='poly', min_terms=1, max_terms=3, degree=2, mom=MOM[:1]))  # noqa
    ks = st.sets(st.integers(0, 18), max_size=5).map(sorted)
    return {'A': mk(), 'B': mk(), 'ka': draw(ks), 'kb': draw(ks), 'op': draw(st.sampled_from(['matmul', 'mul', 'scalar', 'sub', 'neg', 'div']))}


KEEP = [sympy.sympify(x) for x in ('1', 'a', 'k_x')]


@P.law(keep_cases(), 500)
def kept_terms(case, rec):
    """A product of Models keeps only the terms that either factor keeps; arithmetic otherwise leaves the restriction of the Model as it was."""
    A, B = build(case['A']), build(case['B'])
    pool = sorted(A.keys(), key=str) + sorted(B.keys(), key=str)
    pool = pool + sorted({x * y for x in A for y in B}, key=str) + KEEP[:3]
    ka, kb = {pool[i % len(pool)] for i in case['ka']}, {pool[i % len(pool)] for i in case['kb']}
    fmt, mom = case['A']['fmt'], case['A']['mom']
    op = case['op']
    rec.label(op, fmt, f'{bool(ka)}-{bool(kb)}')
    if not ka and not kb:
        rec.trivial()
    if ka:
        ka |= set(sorted(A.keys(), key=str)[:1])
    if kb:
        kb |= set(sorted(B.keys(), key=str)[:1])
    A = type(A)({k: v for k, v in A.items() if not ka or k in ka}, keep=set(ka), momenta=mom, shape=A.shape, format=A.format)
    B = type(B)({k: v for k, v in B.items() if not kb or k in kb}, keep=set(kb), momenta=mom, shape=B.shape, format=B.format)
    if op in ('matmul', 'mul'):
        if op == 'matmul' and fmt == 'num' or op == 'mul' and fmt == 'csr':
            op, A = 'neg', A
        else:
            keep = ka | kb
            full = {}
            for k1, v1 in A.items():
                for k2, v2 in B.items():
                    k = k1 * k2
                    if not keep or k in keep:
                        full[k] = full.get(k, 0) + (dense(v1) @ dense(v2) if op == 'matmul' else dense(v1) * dense(v2))
            R = A @ B if op == 'matmul' else A * B
            for k in set(full) | set(R):
                same(dense(R[k]), full.get(k, np.zeros(tuple(case['A']['shape']))), f'coefficient of {k} in the product of Models keeping {ka} and {kb}')
            req(not keep or all(k in keep for k in R), f'term {set(R)} not kept is in the product')
            if full:
                req(R.keep == keep, f'product of Models keeping {ka} and {kb} keeps {R.keep}')
            return
    R = {'scalar': lambda: A * 2, 'neg': lambda: -A, 'div': lambda: A / 2, 'sub': lambda: A - A.copy()}[op]()
    if A.data:
        req(R.keep == ka, f'{op} of a Model keeping {ka} keeps {R.keep}')


@st.composite
def mismatches(draw):
    n = draw(st.integers(1, 3))
    return {'what': draw(st.sampled_from(['shape', 'format', 'momenta', 'momenta order', 'sparse elementwise', 'divide', 'set shape', 'set type',
                                          'add array', 'init shape', 'init format', 'int momenta', 'scalar add'])),
            'A': draw(model_specs(dim=2, n=n, fmts=('arr',), kind='poly', min_terms=1, mom=MOM[:2])),
            'B': draw(model_specs(dim=2, n=n, fmts=('arr',), kind='poly', min_terms=1, mom=MOM[:2])), 'C': draw(model_specs(dim=2, n=n + 1, fmts=('arr',), kind='poly', min_terms=1, mom=MOM[:2]))}


@P.law(mismatches(), 600)
def mismatched(case, rec):
    """Operands of different shape, format or momenta and malformed values raise instead of giving a result."""
    w = case['what']
    rec.label(w)
    A, B, C = build(case['A']), build(case['B']), build(case['C'])
    n = case['A']['shape'][0]
    csr = build(dict(case['B'], fmt='csr'))
    err = (ValueError, TypeError, NotImplementedError)
    if w == 'shape':
        raises(err, lambda: A + C, 'Models of different shape are added')
        raises(err, lambda: A - C, 'Models of different shape are subtracted')
        raises(err, lambda: A @ C, 'Models of different shape are multiplied')
    elif w == 'format':
        raises(err, lambda: A + csr, 'dense and sparse Models are added')
        raises(err, lambda: csr + A, 'dense and sparse Models are added')
    elif w in ('momenta', 'momenta order'):
        D = build(case['B'], momenta=('k_x', 'q') if w == 'momenta' else ('k_y', 'k_x'))
        for f in (lambda: A + D, lambda: A - D, lambda: A * D, lambda: A @ D, lambda: D @ A):
            raises(err, f, 'Models with different momenta are combined')
    elif w == 'sparse elementwise':
        raises(err, lambda: csr * csr, 'sparse Models are multiplied elementwise')
    elif w == 'divide':
        raises(err, lambda: A / B, 'Model is divided by a Model')
        raises(err, lambda: A / np.ones((n, n)), 'Model is divided by an array')
    elif w == 'set shape':
        raises(err, lambda: A.__setitem__(sympy.Symbol('a'), np.zeros((n + 1, n + 1))), 'value of wrong shape is stored')
    elif w == 'set type':
        raises(err, lambda: A.__setitem__(sympy.Symbol('a'), sp.csr_matrix((n, n))), 'value of wrong type is stored')
    elif w == 'add array':
        raises(err, lambda: A + np.zeros((n + 1, n + 1)), 'array of wrong shape is added')
    elif w == 'scalar add':
        raises(err, lambda: A + 3, 'number is added to a matrix')
    elif w == 'init shape':
        raises(err, lambda: Model({'a': np.eye(n), 'b': np.eye(n + 1)}), 'values of different shape are accepted')
    elif w == 'init format':
        raises(err, lambda: Model({'a': np.eye(n), 'b': sp.csr_matrix(np.eye(n))}), 'values of different type are accepted')
    elif w == 'int momenta':
        raises(err, lambda: Model({'a': np.eye(n)}, momenta=[0, 1]), 'integers are accepted as momenta')


@P.law(st.tuples(model_specs(kind='poly', fmts=('arr', 'csr', 'num'), min_terms=1), st.sampled_from(['string', 'symbol', 'product', 'missing'])), 600)
def access(case, rec):
    """Terms are found by expression or by string; absent terms read as zero of the right shape and are not created."""
    spec, how = case
    m = build(spec)
    rec.label(how, spec['fmt'])
    for t in spec_terms(spec):
        k = t.key(spec['mom'])
        key = {'string': k, 'symbol': sympy.sympify(k), 'product': ' * '.join(reversed(k.split(' * '))), 'missing': k}[how]
        same(m[key], np.asarray(term_value(spec, t)), f'term {key}')
    before = len(m)
    z = m['zz' if how == 'missing' else sympy.Symbol('zz')]
    same(dense(z), np.zeros(tuple(spec['shape'])), 'absent term')
    req(len(m) == before, 'reading an absent term creates it')
    same(np.array([dense(x) for x in m.value_list([spec_terms(spec)[0].key(spec['mom']), 'zz'])]),
         np.array([term_value(spec, spec_terms(spec)[0]), np.zeros(tuple(spec['shape']))]), 'list of terms')
