"""C10: Models built from strings, sympy expressions and dictionaries have the value the expression denotes."""
from .lib import *

P = Property('C10', 'cases: random expressions in momenta, parameters, functions, matrices and local names given as string, as sympy '
             'object or as dictionary, evaluated independently from the syntax tree; non-trivial: the expression contains a symbol')

SYM = ['k_x', 'k_y', 'k_z', 'a', 'b', 'alpha', 'gamma', 'N', 'S', 'E', 'Q', 'C', 'O', 'mu', 'x', 'y', 't_1', 'Delta', 'beta', 'm', 'lambda_R', 'zeta']
MATS = {'sigma_0': PAULI[0], 'sigma_x': PAULI[1], 'sigma_y': PAULI[2], 'sigma_z': PAULI[3]}
NUM = ['2', '-1', '3', '0.5', 'I', '1/2', '-2*I', 'sqrt(2)', '1.25', '0', 'pi_']


# syntax trees: ['sym', s] ['num', i] ['+', a, b] ['-', a, b] ['*', a, b] ['pow', a, n] ['div', a, i] ['neg', a] ['fn', f, lin] ['exp', lin]
# lin: [[coefficient index, symbol], ...]
def scalar(depth, syms, funcs=True):
    lin = st.lists(st.tuples(st.integers(0, 5), st.sampled_from(['k_x', 'k_y', 'k_z', 'k_x', 'a', 'gamma'])).map(list), min_size=1, max_size=2)
    # sympy cannot take the sine of a negative sum of noncommuting symbols: only positive terms in sums
    lin = lin.map(lambda ts: ts if len(ts) == 1 else [[{1: 0, 4: 2}.get(c, c), s] for c, s in ts])
    leaves = [st.sampled_from(syms).map(lambda s: ['sym', s])] * 3 + [st.integers(0, 9).map(lambda i: ['num', i])]
    if funcs:
        leaves += [st.tuples(st.sampled_from(['sin', 'cos', 'exp', 'e**']), lin).map(lambda t: ['fn', t[0], t[1]])]
    leaf = st.one_of(*leaves)
    if depth == 0:
        return leaf
    sub = scalar(depth - 1, syms, funcs)
    return st.one_of(leaf, st.tuples(st.sampled_from(['+', '-', '*', '+', '*']), sub, sub).map(list),
                     st.tuples(st.just('pow'), sub, st.integers(0, 3)).map(list), st.tuples(st.just('div'), sub, st.integers(0, 2)).map(list),
                     st.tuples(st.just('neg'), sub).map(list))


LINC = [(1, '1'), (-1, '-1'), (2, '2'), (0.5, '1/2'), (-3, '-3'), (1.5, '3/2')]
DIV = [(2, '2'), (4, '4'), (1j, 'I')]
NUMV = {'2': 2, '-1': -1, '3': 3, '0.5': .5, 'I': 1j, '1/2': .5, '-2*I': -2j, 'sqrt(2)': math.sqrt(2), '1.25': 1.25, '0': 0}


def lin_str(lin):
    return ' + '.join(f'({LINC[c][1]})*{s}' for c, s in lin)


def lin_val(lin, v):
    return sum(LINC[c][0] * v[s] for c, s in lin)


def s_str(t):
    op = t[0]
    if op == 'sym':
        return t[1]
    if op == 'num':
        return f'({NUM[t[1]]})'
    if op in '+-*':
        return f'({s_str(t[1])} {op} {s_str(t[2])})'
    if op == 'pow':
        return f'({s_str(t[1])})**{t[2]}'
    if op == 'div':
        return f'({s_str(t[1])})/{DIV[t[2]][1]}'
    if op == 'neg':
        return f'(-{s_str(t[1])})'
    f, lin = t[1], lin_str(t[2])
    if f in ('sin', 'cos'):
        return f'{f}({lin})'
    return f'exp(I*({lin}))' if f == 'exp' else f'e**(I*({lin}))'


def s_val(t, v):
    op = t[0]
    if op == 'sym':
        return v[t[1]]
    if op == 'num':
        return NUMV[NUM[t[1]]]
    if op == '+':
        return s_val(t[1], v) + s_val(t[2], v)
    if op == '-':
        return s_val(t[1], v) - s_val(t[2], v)
    if op == '*':
        return s_val(t[1], v) * s_val(t[2], v)
    if op == 'pow':
        return s_val(t[1], v) ** t[2]
    if op == 'div':
        return s_val(t[1], v) / DIV[t[2]][0]
    if op == 'neg':
        return -s_val(t[1], v)
    x = lin_val(t[2], v)
    return {'sin': np.sin, 'cos': np.cos}.get(t[1], lambda x: np.exp(1j * x))(x)


def has_symbol(t):
    return t[0] in ('sym', 'fn') or any(has_symbol(x) for x in t[1:] if isinstance(x, list) and x and isinstance(x[0], str))


def degree(t):
    """Bound on the number of terms of the expansion."""
    op = t[0]
    if op in ('sym', 'num'):
        return 1
    if op == 'fn':
        return 2
    if op in '+-':
        return degree(t[1]) + degree(t[2])
    if op == '*':
        return degree(t[1]) * degree(t[2])
    if op == 'pow':
        return degree(t[1]) ** max(1, t[2])
    return degree(t[1])


small = lambda s: s.filter(lambda t: degree(t) <= 24)      # noqa: E731


# matrix expressions: [['term', scalar tree, matrix tree], ...] with matrix trees over 2x2 and kron
def matrices(depth):
    leaf = st.one_of(st.sampled_from(sorted(MATS)).map(lambda s: ['m', s]), st.integers(0, 3).map(lambda i: ['eye', i % 2]),
                     st.lists(st.integers(0, 9), min_size=4, max_size=4).map(lambda v: ['list', v]), st.sampled_from(['M', 'W']).map(lambda s: ['loc', s]))
    if depth == 0:
        return leaf
    sub = matrices(depth - 1)
    return st.one_of(leaf, st.tuples(st.sampled_from(['m+', 'm-', 'm*']), sub, sub).map(list), st.tuples(st.just('sm'), st.integers(0, 8), sub).map(list))


def m_str(t):
    op = t[0]
    if op == 'm' or op == 'loc':
        return t[1]
    if op == 'eye':
        return ['eye(2)', 'identity(2)'][t[1]]
    if op == 'list':
        n = [NUM[i] for i in t[1]]
        return f'Matrix([[{n[0]}, {n[1]}], [{n[2]}, {n[3]}]])'
    if op in ('m+', 'm-', 'm*'):
        return f'({m_str(t[1])} {op[1]} {m_str(t[2])})'
    return f'(({NUM[t[1]]}) * {m_str(t[2])})'


def m_val(t, loc, v):
    op = t[0]
    if op == 'm':
        return MATS[t[1]]
    if op == 'loc':
        return loc[t[1]](v)
    if op == 'eye':
        return np.eye(2)
    if op == 'list':
        return np.array([NUMV[NUM[i]] for i in t[1]]).reshape(2, 2)
    if op == 'm+':
        return m_val(t[1], loc, v) + m_val(t[2], loc, v)
    if op == 'm-':
        return m_val(t[1], loc, v) - m_val(t[2], loc, v)
    if op == 'm*':
        return m_val(t[1], loc, v) @ m_val(t[2], loc, v)
    return NUMV[NUM[t[1]]] * m_val(t[2], loc, v)


@st.composite
def matrix_cases(draw):
    nt = draw(st.integers(1, 4))
    kr = draw(st.booleans())
    terms = [[draw(small(scalar(2, SYM))), draw(matrices(1)), draw(matrices(1)) if kr else None] for _ in range(nt)]
    return {'terms': terms, 'seed': draw(seeds), 'loc': [draw(st.integers(0, 9)) for _ in range(5)], 'arr': draw(seeds),
            'mom': draw(st.sampled_from([['k_x'], ['k_x', 'k_y'], ['k_x', 'k_y', 'k_z'], ['k_y', 'k_x'], ['x', 'y'], ['k_z', 'a']])),
            'form': draw(st.sampled_from(['string', 'string', 'sympy', 'bloch']))}


def all_names():
    return SYM + ['gamma']


def locals_of(case):
    """Local names: a list of lists, an array and their values."""
    l = case['loc']
    W = mat(case['arr'], 2)
    loc = {'M': f'[[{NUM[l[0]]}, k_x], [a, {NUM[l[1]]}]]', 'W': W}
    val = {'M': lambda v: np.array([[NUMV[NUM[l[0]]], v['k_x']], [v['a'], NUMV[NUM[l[1]]]]]), 'W': lambda v: W}
    return loc, val


def uses(t, name):
    return t == ['loc', name] or any(uses(x, name) for x in t[1:] if isinstance(x, list))


def standard(m, shape, mom, msg):
    """Keys are distinct products without numerical factors, none of the values vanishes."""
    req(isinstance(m, Model), f'{msg}: not a Model')
    if not m.data and m.shape is None:      # an expression that is zero gives a Model without shape
        return
    req(tuple(m.shape) == tuple(shape), f'{msg}: shape {m.shape}, expected {tuple(shape)}')
    req(names(m) == tuple(mom), f'{msg}: momenta {names(m)}, expected {tuple(mom)}')
    seen = set()
    for k, v in m.items():
        req(isinstance(k, sympy.Basic) and not isinstance(k, sympy.Add), f'{msg}: coefficient {k} is not a product')
        req(not any(f.is_number for f in sympy.Mul.make_args(k)) or k == 1, f'{msg}: coefficient {k} has a numerical factor')
        k2 = sympy.powsimp(sympy.expand_power_exp(k), combine='exp')
        req(k2 not in seen, f'{msg}: coefficient {k} is repeated')
        seen.add(k2)
        req(np.max(np.abs(dense(v)), initial=0) > 0, f'{msg}: a term that vanishes is kept')
        for s in k.atoms(sympy.Symbol):
            req(s.is_commutative, f'{msg}: symbol {s} does not commute')


def to_sympy(text, loc):
    """The commutative sympy object a user would build by hand."""
    ns = {s: sympy.Symbol(s) for s in SYM}
    ns.update({s: sympy.ImmutableMatrix(np.round(m.real).astype(int)) + sympy.I * sympy.ImmutableMatrix(np.round(m.imag).astype(int)) for s, m in MATS.items()})
    ns.update(I=sympy.I, sqrt=sympy.sqrt, e=sympy.Symbol('e', positive=True), sin=sympy.sin, cos=sympy.cos, exp=sympy.exp, eye=sympy.eye, identity=sympy.eye,
              W=sympy.Matrix(loc['W']) if loc else None)
    import re
    text = re.sub(r'(?<![\w.])(\d+)(?![\w.])', r'Integer(\1)', text)
    ns.update(Matrix=sympy.Matrix, Integer=sympy.Integer)
    from sympy.physics.quantum import TensorProduct
    ns['kron'] = TensorProduct
    if loc:
        ns['M'] = eval(loc['M'].replace('[[', 'Matrix([[').replace(']]', ']])'), ns)
    return eval(text, ns)


@P.law(matrix_cases(), 1100)
def matrix_expressions(case, rec):
    """Strings and sympy expressions of matrices, Kronecker products and local names give the matrix they denote at every point."""
    loc, lval = locals_of(case)
    terms = case['terms']
    kr = terms[0][2] is not None

    def mstr(t):
        return f'kron({m_str(t[1])}, {m_str(t[2])})' if kr else m_str(t[1])

    def mval(t, v):
        a = m_val(t[1], lval, v)
        return np.kron(a, m_val(t[2], lval, v)) if kr else a

    form = case['form']
    text = ' + '.join(f'({s_str(t[0])}) * {mstr(t)}' for t in terms)
    mom = case['mom'] if form != 'bloch' else []
    rec.label(form, 'kron' if kr else '2x2')
    if not any(has_symbol(t[0]) for t in terms):
        rec.trivial()
    shape = (4, 4) if kr else (2, 2)
    if form == 'sympy':
        m = Model(to_sympy(text, loc), momenta=case['mom'])
    elif form == 'bloch':
        # all symbols are parameters: the constant hopping of a BlochModel
        m = BlochModel(text, locals=loc, momenta=['q_x', 'q_y'])
        mom = ['q_x', 'q_y']
    else:
        m = Model(text, locals=loc, momenta=case['mom'])
    nm = list(dict.fromkeys(SYM + list(case['mom']) + ['q_x', 'q_y']))
    if form != 'bloch':
        standard(m, shape, mom, f'Model of {text}')
    for v in points(case['seed'], nm, 2):
        want = sum(s_val(t[0], v) * mval(t, v) for t in terms)
        big = sum(abs(s_val(t[0], v)) * np.max(np.abs(mval(t, v)), initial=0) for t in terms)
        same(evalm(m, v, shape), want, f'value of {text}', 1e-6, scale=big * 10)


@P.law(st.tuples(st.integers(1, 3), st.integers(1, 3), st.lists(small(scalar(1, SYM)), min_size=9, max_size=9), seeds, st.booleans()), 300)
def literals(case, rec):
    """List literals are matrices: each entry is the value of its expression."""
    n, m, ts, seed, local = case
    rows = [[ts[3 * i + j] for j in range(m)] for i in range(n)]
    text = '[' + ', '.join('[' + ', '.join(s_str(t) for t in r) + ']' for r in rows) + ']'
    rec.label(f'{n}x{m}')
    if not any(has_symbol(t) for r in rows for t in r):
        rec.trivial()
    model = Model('2*t_1*M', locals={'M': text}) if local else Model(text)
    standard(model, (n, m), MOM, f'Model of {text}')
    for v in points(seed, SYM, 2):
        want = np.array([[complex(s_val(t, v)) for t in r] for r in rows]) * (2 * v['t_1'] if local else 1)
        same(evalm(model, v, (n, m)), want, f'value of {text}', 1e-6, scale=10 + np.max(np.abs(want)))


@P.law(st.tuples(small(scalar(3, SYM)), seeds, st.sampled_from(['string', 'sympy', 'dict string', 'dict sympy', 'number sympy'])), 1100)
def scalar_expressions(case, rec):
    """Scalar expressions give a 1x1 matrix; as coefficients in a dictionary they multiply the matrix once they are normalized."""
    t, seed, form = case
    text = s_str(t)
    rec.label(form)
    if not has_symbol(t):
        rec.trivial()
    A = mat(seed, 2, 3)
    A[0, 0] = 1
    e = sympy.Symbol('e', positive=True)
    if form == 'string':
        m, M = Model(text), np.eye(1)
    elif form in ('sympy', 'number sympy'):
        m, M = Model(sympy.sympify(to_sympy(text, None))), np.eye(1)
    else:
        # trigonometric functions are only rewritten in expressions, not in dictionaries
        if any(f in text for f in ('sin', 'cos', 'exp')):
            rec.trivial()
            return
        key = text if form == 'dict string' else to_sympy(text, None)
        if form == 'dict string' and any(s in text for s in 'NSEQCO') or any(w in text for w in ('gamma', 'beta', 'zeta')):
            key = to_sympy(text, None)      # in dictionaries strings are plain sympy: these names are functions there
        m, M = Model({sympy.sympify(key) if not isinstance(key, str) else key: A}, normalize=True), A
    standard(m, M.shape, MOM, f'Model of {text}')
    for v in points(seed, SYM, 2):
        want = s_val(t, v) * M
        same(evalm(m, v, M.shape), want, f'value of {text}', 1e-6, scale=np.max(np.abs(want)) + 10)


@st.composite
def dict_cases(draw):
    spec = draw(model_specs(fmts=('arr', 'csr', 'num'), kind=draw(st.sampled_from(['poly', 'bloch', 'mixed'])), min_terms=1, max_terms=5))
    return {'spec': spec, 'keep': draw(st.lists(st.integers(0, 6), max_size=4)), 'seed': draw(seeds), 'form': draw(st.sampled_from(['str', 'sympy'])),
            'norm': draw(st.booleans()), 'fac': [draw(st.integers(0, 4)) for _ in range(5)], 'mform': draw(st.sampled_from(['str', 'symbol', 'nc']))}


@P.law(dict_cases(), 1200)
def dictionaries(case, rec):
    """Dictionaries of coefficients and values: value, momenta given as strings or symbols, terms outside keep discarded, also in products."""
    spec = case['spec']
    mom = {'str': spec['mom'], 'symbol': [sympy.Symbol(s) for s in spec['mom']], 'nc': [sympy.Symbol(s, commutative=False) for s in spec['mom']]}[case['mform']]
    terms = spec_terms(spec)
    fac = [[1, 2, -1, 0.5, -3][f] for f in case['fac']]
    if not case['norm']:
        fac = [1] * 5
    rec.label(spec['fmt'], 'normalized' if case['norm'] else 'plain', case['mform'], 'keep' if case['keep'] else 'all kept')
    local = {'e': sympy.Symbol('e', positive=True)}
    kk = [t.key(spec['mom']) for t in terms]
    keys = [k if f == 1 else f'({f})*{k}' for k, f in zip(kk, fac)]
    if case['form'] == 'sympy':
        keys = [sympy.sympify(k, locals=local) for k in keys]
    data = dict(zip(keys, [fmt_value(term_value(spec, t), spec['fmt']) for t in terms]))
    args = dict(momenta=mom, normalize=case['norm'])
    full = Model(data, **args)
    req(names(full) == tuple(spec['mom']), f'momenta {names(full)} expected {spec["mom"]}')
    nm = list(spec['mom']) + list(PARAMS)
    ref = lambda v, which: sum((f * t.coef(spec['mom'], v) * np.asarray(term_value(spec, t))        # noqa: E731
                                for i, (t, f) in enumerate(zip(terms, fac)) if i in which), np.zeros(tuple(spec['shape'])))
    agree(full, lambda v: ref(v, range(len(terms))), nm, 'value of the dictionary', case['seed'], 2, spec['shape'])
    keep = {i % len(terms) for i in case['keep']}
    if not keep:
        return
    kkeep = [kk[i] for i in sorted(keep)]
    m = Model(data, keep=kkeep, **args)
    agree(m, lambda v: ref(v, keep), nm, 'value of the kept terms', case['seed'], 2, spec['shape'])
    req(len(m) <= len(keep), 'terms outside keep are not discarded')
    # products of Models with keep only have the kept terms
    other = Model({'1': np.eye(1)[0, 0] * 2.0, 'a': 1.0, 'b': -1.0, 'e**(I*mu)': 3.0}, momenta=mom, format=np.complex128, shape=())
    prod = full * other if spec['fmt'] in ('arr', 'num') else None
    if prod is not None:
        fk = Model(data, **args)
        fk.keep = set(m.keep)
        pk = fk * other
        got = {k: dense(v) for k, v in pk.items()}
        want = {k: dense(v) for k, v in prod.items() if k in m.keep}
        req(set(got) == set(want), f'product has terms {set(got)}, kept are {set(want)}')
        for k in want:
            same(got[k], want[k], f'term {k} of a product with keep')


@P.law(st.tuples(st.lists(st.tuples(small(scalar(1, SYM[:6])), seeds), min_size=2, max_size=4), st.lists(st.integers(0, 5), min_size=1, max_size=3), seeds), 500)
def keep_in_expressions(case, rec):
    """Of an expression only the terms listed in keep remain."""
    pairs, keep, seed = case
    text = ' + '.join(f'({s_str(t)})' for t, _ in pairs)
    full = Model(text)
    if not full.data:
        rec.trivial()
        return
    keys = list(full.keys())
    kept = [keys[i % len(keys)] for i in keep]
    m = Model(text, keep=[k if 'gamma' in str(k) or seed % 2 else str(k) for k in kept])
    req(set(m.keys()) == set(kept), f'Model({text!r}, keep={kept}) has terms {list(m.keys())}')
    for k in kept:
        same(m[k], full[k], f'kept term {k}')


@P.law(st.tuples(st.sampled_from(['k_x*k_y*k_x', 'k_y*a*k_x', 'k_x*x - x*k_x', 'x*k_x', 'y*x', 'k_x*V*k_x']), st.sampled_from(['1', 'sigma_x', 'kron(sigma_z, sigma_y)']), seeds,
                 st.sampled_from([None, {'V': 'a + k_y'}, {'V': 'E*gamma'}, {'x': 'a', 'V': '2'}, {'V': 'x'}])), 300)
def ordering(case, rec):
    """Symbols commute in Models, also position and momentum operators; local names are replaced by their definitions."""
    ex, M, seed, loc = case
    m = Model(f'({ex}) * {M}', locals=loc)
    A = {'1': np.eye(1), 'sigma_x': PAULI[1], 'kron(sigma_z, sigma_y)': np.kron(PAULI[3], PAULI[2])}[M]
    rec.label(ex)
    for v in points(seed, ['k_x', 'k_y', 'k_z', 'a', 'x', 'y', 'V', 'E', 'gamma'], 2):
        w = dict(v)
        for k, d in (loc or {}).items():
            w[k] = {'a + k_y': v['a'] + v['k_y'], 'E*gamma': v['E'] * v['gamma'], 'a': v['a'], '2': 2, 'x': v['x']}[d]
        if loc and loc.get('V') == 'x':
            w['V'] = v['x']
        want = {'k_x*k_y*k_x': w['k_x'] ** 2 * w['k_y'], 'k_y*a*k_x': w['k_y'] * w['a'] * w['k_x'], 'k_x*x - x*k_x': 0, 'x*k_x': w['x'] * w['k_x'],
                'y*x': w['x'] * w['y'], 'k_x*V*k_x': w['k_x'] ** 2 * w['V']}[ex]
        same(evalm(m, v, A.shape), want * A, f'value of {ex} with {loc}')
