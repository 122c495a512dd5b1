"""C22: sympify, lambdify and monomials of continuum expressions keep the operator that the expression denotes."""
import inspect
import warnings

import sympy.abc
from sympy.core.sympify import converter
from sympy.core.function import AppliedUndef

import qsymm
from qsymm import kwant_continuum as kc
from .lib import *

P = Property('C22', 'cases: random expressions in noncommuting position and momentum operators, parameters, functions, numbers, matrices and local names, evaluated '
             'from the syntax tree with random matrices for the operators; non-trivial: the expression contains two different operators or a function')

D = 3                                           # operators are represented by D x D matrices
OPS = ['x', 'y', 'z', 'k_x', 'k_y', 'k_z']
PAR = ['a', 'b', 'N', 'S', 'E', 'Q', 'C', 'O', 'I_0', 'mu', 'gamma', 'beta', 'zeta', 'alpha', 't_1', 'lambda_R', 'Delta', 'e', 'q', 'w', 'epsilon', 'm', 'W']
FUN = ['A', 'B', 'V', 'psi', 'f', 'Q_0']
LOC = ['c', 'd', 'M0', 'eps_1']                   # names that only stand for local definitions
NUM = {'2': 2, '-1': -1, '3': 3, '0.5': .5, 'I': 1j, '1/2': .5, '-2*I': -2j, 'sqrt(2)': math.sqrt(2), '1.25': 1.25, '0': 0, 'pi': math.pi, '2**0.5': 2 ** .5}
NUMK = list(NUM)


def trees(depth, names_, funcs=True):
    leaf = [st.sampled_from(names_).map(lambda s: ['sym', s])] * 3 + [st.sampled_from(NUMK).map(lambda s: ['num', s])]
    if depth == 0:
        return st.one_of(*leaf)
    sub = trees(depth - 1, names_, funcs)
    out = leaf + [st.tuples(st.sampled_from(['+', '-', '*', '*', '*']), sub, sub).map(list)] * 3
    out += [st.tuples(st.just('pow'), sub, st.integers(0, 3)).map(list), st.tuples(st.just('neg'), sub).map(list),
            st.tuples(st.just('div'), sub, st.sampled_from(['2', 'I', '0.5'])).map(list)]
    if funcs:
        out += [st.tuples(st.just('fn'), st.sampled_from(FUN), trees(0, names_)).map(list)] * 2
    return st.one_of(*out)


def size(t):
    op = t[0]
    if op in ('sym', 'num', 'fn'):
        return 1
    if op in '+-':
        return size(t[1]) + size(t[2])
    if op == '*':
        return size(t[1]) * size(t[2])
    return size(t[1]) ** max(1, t[2]) if op == 'pow' else size(t[1])


def big(depth, names_, **kw):
    """Trees that are not a leaf."""
    sub = trees(depth - 1, names_, **kw)
    return st.tuples(st.sampled_from('+-***'), sub, sub).map(list)


small = lambda s: s.filter(lambda t: size(t) <= 16)      # noqa: E731


def text_of(t):
    op = t[0]
    if op == 'sym':
        return t[1]
    if op == 'num':
        return f'({t[1]})'
    if op in '+-*':
        return f'({text_of(t[1])} {op} {text_of(t[2])})'
    if op == 'pow':
        return f'({text_of(t[1])})**{t[2]}'
    if op == 'div':
        return f'({text_of(t[1])})/({t[2]})'
    if op == 'neg':
        return f'(-{text_of(t[1])})'
    return f'{t[1]}({text_of(t[2])})'


def leaves(t):
    if t[0] == 'sym':
        yield t[1]
    if t[0] == 'fn':
        yield t[1] + '()'
    for s in t[1:]:
        if isinstance(s, list):
            yield from leaves(s)


def env_of(seed):
    """Random matrices for operators, numbers for parameters, quadratic polynomials for functions."""
    r = rs(11, seed)
    env = {s: r.normal(size=(D, D)) * .7 + 1j * r.normal(size=(D, D)) * .4 for s in OPS}
    for s in PAR + LOC:
        env[s] = (r.uniform(.5, 1.5) if s == 'e' else r.normal() + 1j * r.normal() * .3) * np.eye(D)
    for i, f in enumerate(FUN):
        co = r.normal(size=3)
        env[f + '()'] = (lambda co: lambda X: co[0] * np.eye(D) + co[1] * X + co[2] * X @ X)(co)
    return env


def tval(t, env):
    op = t[0]
    if op == 'sym':
        return env[t[1]]
    if op == 'num':
        return NUM[t[1]] * np.eye(D)
    if op == 'pow':
        return np.linalg.matrix_power(tval(t[1], env), t[2])
    if op == 'neg':
        return -tval(t[1], env)
    if op == 'div':
        return tval(t[1], env) / NUM[t[2]]
    if op == 'fn':
        return env[t[1] + '()'](tval(t[2], env))
    a, b = tval(t[1], env), tval(t[2], env)
    return a + b if op == '+' else a - b if op == '-' else a @ b


def sval(e, env):
    """Value of a sympy expression: products in order, symbols by name."""
    if e.is_number:
        return complex(e) * np.eye(D)
    if e.is_Symbol:
        return env[e.name]
    if e.is_Add:
        return sum(sval(a, env) for a in e.args)
    if e.is_Mul:
        out = np.eye(D)
        for a in e.args:
            out = out @ sval(a, env)
        return out
    if e.is_Pow and e.exp.is_Integer:
        return np.linalg.matrix_power(sval(e.base, env), int(e.exp))
    if isinstance(e, AppliedUndef) and len(e.args) == 1:
        return env[str(e.func) + '()'](sval(e.args[0], env))
    raise Violation(f'result contains {e} of type {type(e).__name__}')


def mval_sym(m, env):
    return np.array([[sval(sympy.sympify(m[i, j]), env) for j in range(m.shape[1])] for i in range(m.shape[0])]).reshape(m.shape + (D, D))


def symbols_ok(e, commuting=()):
    for s in e.atoms(sympy.Symbol):
        nc = s.name in OPS and s.name not in commuting
        req(s.is_commutative == (not nc), f'symbol {s} is_commutative={s.is_commutative}')


def flat(v):
    return v.reshape(-1)


def close_to(got, want, msg):
    same(got.reshape(want.shape) if got.shape != want.shape and got.size == want.size else got, want, msg, 1e-7, scale=10 + np.max(np.abs(want), initial=0))


class Globals:
    """State of sympy and of the module that no call may change."""

    def __enter__(self):
        self.before = self.now()

    def now(self):
        return dict(converter), dict(kc.extra_ns), sorted(sympy.abc._clash), 'I' in sympy.abc._clash

    def __exit__(self, typ, *a):
        if typ is None:
            req(self.now() == self.before, 'a call changed the global state of sympy or of the module')
            req('I' in sympy.abc._clash and 'pi' in sympy.abc._clash, 'the namespace of sympy.abc is changed')


def nontrivial(rec, ts):
    ls = {n for t in ts for n in leaves(t)}
    if len(ls & set(OPS)) < 2 and not any(n.endswith('()') for n in ls):
        rec.trivial()


# definitions of local names: text, sympy object, number, list
LOCKIND = ['text', 'text', 'sympy', 'number', 'commuting']


@st.composite
def expr_cases(draw):
    nloc = draw(st.integers(0, 3))
    targets = draw(st.lists(st.sampled_from(LOC + ['x', 'k_x', 'a', 'N', 'gamma', 'V_0']), min_size=nloc, max_size=nloc, unique=True))
    loc = [[n, draw(st.sampled_from(LOCKIND)), draw(small(trees(1, OPS + PAR[:6])))] for n in targets]
    names_ = OPS + OPS + PAR + targets * 4
    return {'t': draw(small(big(3, names_))), 'loc': loc, 'seed': draw(seeds)}


def local_defs(loc):
    """Definitions as the user writes them, and their values."""
    defs, vals = {}, {}
    for name, kind, t in loc:
        if kind == 'text':
            defs[name], vals[name] = text_of(t), (lambda t: lambda env: tval(t, env))(t)
        elif kind == 'sympy':
            defs[name], vals[name] = kc.sympify(text_of(t)), (lambda t: lambda env: tval(t, env))(t)
        elif kind == 'number':
            defs[name], vals[name] = 0.75, lambda env: 0.75 * np.eye(D)
        else:       # an ordinary sympy symbol: it commutes whatever it is called
            defs[name], vals[name] = sympy.Symbol('q'), lambda env: env['q']
    return defs, vals


@P.law(expr_cases(), 3000)
def expressions(case, rec):
    """A string is the operator it denotes: the order of position and momentum operators is kept, all other names are commuting symbols or undefined functions, local
    names have the value of their definition; the given definitions and global state stay unchanged."""
    t, loc = case['t'], case['loc']
    nontrivial(rec, [t])
    rec.label(f'{len(loc)} local names')
    defs, vals = local_defs(loc)
    given = dict(defs)
    text = text_of(t)
    with Globals():
        got = kc.sympify(text, defs) if loc else [kc.sympify, qsymm.sympify][case['seed'] % 2](text)
    req(defs == given, 'sympify changed the given definitions')
    req(isinstance(got, sympy.Expr), f'sympify({text!r}) is {type(got).__name__}')
    symbols_ok(got)
    for s in got.atoms(sympy.Symbol):
        if s.name == 'e':
            req(s.is_positive, 'the base of exponentials is not positive')
    env = env_of(case['seed'])
    # local names are replaced at once, names in definitions mean the global ones
    inner = {n: f(env) for n, f in vals.items()}
    close_to(sval(got, env), tval(t, {**env, **inner}), f'sympify({text!r}, {defs})')
    with Globals():
        again = kc.sympify(got)
    req(again == got, f'sympify of {got} gives {again}')


# matrices: ['pauli', i], ['eye', n], ['list', [4 trees]], ['loc', name], products and sums
def mtrees(depth, ops=True):
    ent = small(trees(1, (OPS + PAR) if ops else PAR, funcs=ops))
    leaf = [st.integers(0, 3).map(lambda i: ['pauli', i]), st.sampled_from(['eye', 'identity']).map(lambda s: ['eye', s]),
            st.lists(ent, min_size=4, max_size=4).map(lambda v: ['list', v]), st.sampled_from(['Mt', 'Ma', 'Ml']).map(lambda s: ['loc', s])]
    if depth == 0:
        return st.one_of(*leaf)
    sub = mtrees(depth - 1, ops)
    return st.one_of(*leaf, *[st.tuples(st.sampled_from(['+', '-', '*']), sub, sub).map(list)] * 2)


def mtext(t):
    op = t[0]
    if op == 'pauli':
        return 'sigma_' + '0xyz'[t[1]]
    if op == 'eye':
        return f'{t[1]}(2)'
    if op == 'list':
        a = [text_of(x) for x in t[1]]
        return f'Matrix([[{a[0]}, {a[1]}], [{a[2]}, {a[3]}]])'
    if op == 'loc':
        return t[1]
    return f'({mtext(t[1])} {op} {mtext(t[2])})'


def mtval(t, env, loc):
    op = t[0]
    one = lambda M: np.einsum('ij,ab->ijab', np.asarray(M, complex), np.eye(D))     # noqa: E731
    if op == 'pauli':
        return one(PAULI[t[1]])
    if op == 'eye':
        return one(np.eye(2))
    if op == 'list':
        return np.array([tval(x, env) for x in t[1]]).reshape(2, 2, D, D)
    if op == 'loc':
        return loc[t[1]](env)
    a, b = mtval(t[1], env, loc), mtval(t[2], env, loc)
    return a + b if op == '+' else a - b if op == '-' else np.einsum('ijab,jkbc->ikac', a, b)


@st.composite
def matrix_cases(draw):
    form = draw(st.sampled_from(['product', 'product', 'kron', 'left', 'literal', 'list object', 'array local']))
    case = {'form': form, 'l': draw(small(big(1, OPS + PAR[:5]))), 'r': draw(small(trees(1, OPS + PAR))), 'm': draw(mtrees(1)), 'seed': draw(seeds),
            'm2': draw(mtrees(1, ops=False)), 'ml': draw(st.lists(small(trees(1, OPS + PAR)), min_size=4, max_size=4)), 'shape': [draw(st.integers(1, 3)), draw(st.integers(1, 3))]}
    if form in ('literal', 'list object'):
        n = case['shape'][0] * case['shape'][1]
        case['entries'] = draw(st.lists(small(trees(2, OPS + PAR)), min_size=n, max_size=n))
    return case


@P.law(matrix_cases(), 1500)
def matrices(case, rec):
    """Products of scalars and matrices, Kronecker products, list literals and lists have the entries that the expression denotes, with the order of operators kept."""
    form = case['form']
    rec.label(form)
    A = mat(case['seed'], 2)
    ml = case['ml']
    rows = lambda v: '[' + ', '.join('[' + ', '.join(text_of(x) for x in r) + ']' for r in v) + ']'      # noqa: E731
    Ml = np.round(A.real * 3).astype(int).tolist()
    defs = {'Mt': rows([ml[:2], ml[2:]]), 'Ma': A, 'Ml': Ml}
    lv = lambda env: np.array([tval(x, env) for x in ml]).reshape(2, 2, D, D)      # noqa: E731
    vals = {'Mt': lv, 'Ml': lambda env: np.einsum('ij,ab->ijab', Ml, np.eye(D)), 'Ma': lambda env: np.einsum('ij,ab->ijab', A, np.eye(D))}
    const = {'Mt': vals['Ma'], 'Ml': vals['Ma'], 'Ma': vals['Ma']}
    env = env_of(case['seed'])
    if form in ('literal', 'list object'):
        n, m = case['shape']
        ent = [case['entries'][i * m:(i + 1) * m] for i in range(n)]
        nontrivial(rec, case['entries'])
        text = rows(ent) if form == 'literal' else [[text_of(x) for x in r] for r in ent]
        # names inside lists of strings are not special: only literals are read with the special names
        if form == 'list object':
            text = [[kc.sympify(x) for x in r] for r in text]
        with Globals():
            got = kc.sympify(text)
        want = np.array([[tval(x, env) for x in r] for r in ent])
    else:
        l, r = tval(case['l'], env), tval(case['r'], env)
        nontrivial(rec, [case['l'], case['r']])
        M = mtval(case['m'], env, vals)
        if form == 'kron':
            # only one of the factors contains operators
            M2 = mtval(case['m2'], env, const)
            defs2 = {'Mt': A, 'Ml': A, 'Ma': A}
            m2 = kc.sympify(mtext(case['m2']), defs2)
            text = f'({text_of(case["l"])}) * kron({mtext(case["m"])}, M2)'
            defs['M2'] = m2
            want = np.einsum('ab,ijbc,klcd->ikjlad', l, M, M2).reshape(4, 4, D, D)
        elif form == 'left':
            text = f'({mtext(case["m"])}) * ({text_of(case["r"])})'
            want = np.einsum('ijab,bc->ijac', M, r)
        elif form == 'array local':
            text = f'({text_of(case["l"])}) * Ma'
            want = np.einsum('ab,ijbc->ijac', l, vals['Ma'](env))
        else:
            text = f'({text_of(case["l"])}) * ({mtext(case["m"])}) * ({text_of(case["r"])})'
            want = np.einsum('ab,ijbc,cd->ijad', l, M, r)
        with Globals():
            got = kc.sympify(text, defs)
    req(isinstance(got, sympy.MatrixBase), f'sympify({text!r}) is {type(got).__name__}, not a matrix')
    req(tuple(got.shape) == want.shape[:2], f'shape of sympify({text!r}) is {got.shape}')
    symbols_ok(got)
    close_to(mval_sym(got, env), want, f'sympify({text!r})')


@P.law(st.tuples(small(big(2, PAR[:2] + ['k_x', 'x', 'y'])), st.booleans(), st.lists(st.sampled_from(['sin', 'cos', 'exp', 'A']), max_size=2), st.booleans(), seeds), 800)
def sympy_input(case, rec):
    """Sympy expressions are returned as they are, with functions left undefined, and definitions of local names are ignored with a warning."""
    t, matrix, fs, locs, seed = case
    nontrivial(rec, [t])
    ns = {s: sympy.Symbol(s) for s in PAR + OPS}
    e = sympy.sympify(text_of(t), locals={**ns, 'I': sympy.I, 'pi': sympy.pi, **{f: sympy.Function(f) for f in FUN}})
    base = e
    for f in fs:
        g = getattr(sympy, f, None) or sympy.Function(f)
        e = e + g(ns['a'] * 2 + ns['b']) * ns['k_x']
        base = base + sympy.Function(f)(ns['a'] * 2 + ns['b']) * ns['k_x']
    inp, want = e, base
    if matrix:
        inp, want = sympy.ImmutableMatrix([[e, ns['a']], [0, e]]), sympy.ImmutableMatrix([[base, ns['a']], [0, base]])
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        with Globals():
            got = kc.sympify(inp, {'a': 'b', 'q': '2'} if locs else [None, {}][seed % 2])
    rt = [x for x in w if issubclass(x.category, RuntimeWarning)]
    req(bool(rt) == locs, f'{"no " if locs else "a "}warning about definitions of local names')
    req(got == want, f'sympify({inp}) gives {got}')
    req(all(isinstance(f, AppliedUndef) for f in got.atoms(sympy.Function)), f'functions of sympify({inp}) are not left undefined')


BAD = ['a b', '1a', 'class', 'lambda', 'k-x', '', 'for', 'a.b', ' a', 'x y', 'None', 'if', '+']


@P.law(st.tuples(st.sampled_from(BAD + [1, None, 0.5, ['x']]), st.lists(st.sampled_from(['a', 'b', 'q_1']), max_size=2, unique=True),
                 st.sampled_from(['a', 'k_x*x', '[[a, b]]', 'sigma_x']), st.booleans()), 300)
def names_of_definitions(case, rec):
    """Definitions for names that are no identifiers or are keywords raise ValueError, also if others are valid, in sympify and lambdify, without other effects."""
    bad, good, text, lam = case
    if isinstance(bad, list):
        bad = tuple(bad)
    defs = {g: '2' for g in good}
    defs[bad] = 'a'
    with Globals():
        raises(ValueError, lambda: (kc.lambdify if lam else kc.sympify)(text, defs), f'definition for {bad!r} is accepted')
    req(defs == {**{g: '2' for g in good}, bad: 'a'}, 'definitions changed')
    with Globals():         # the state is restored if the expression is malformed as well
        try:
            kc.sympify(text + ' * (')
        except Exception:
            pass
        else:
            raise Violation('malformed expression is accepted')
    # valid definitions of the same names are accepted
    e = kc.sympify(text, {g: '2' for g in good})
    req(not any(s.name in good for s in e.atoms(sympy.Symbol)), f'names {good} are not replaced in {e}')


@P.law(st.integers(0, 3), 8)
def converters(case, rec):
    """An installed converter of lists is in place again after every call."""
    mine = (lambda x: sympy.Integer(7)) if case % 2 else None
    saved = converter.get(list)
    try:
        if mine:
            converter[list] = mine
        got = kc.sympify('[[x, 1]]') if case < 2 else kc.sympify('sigma_x')
        req(isinstance(got, sympy.MatrixBase), 'list literal is not a matrix')
        req(converter.get(list) is mine, 'converter of lists is not restored')
    finally:
        converter.pop(list, None)
        if saved is not None:
            converter[list] = saved


CPAR = ['a', 'b', 'N', 'gamma', 'k_x', 'k_y', 'x', 'z', 'mu']


@st.composite
def lambda_cases(draw):
    form = draw(st.sampled_from(['scalar', 'scalar', 'matrix', 'sympy', 'local']))
    return {'form': form, 't': draw(small(trees(3, CPAR))), 'l': draw(small(trees(1, CPAR))), 'seed': draw(seeds), 'pauli': draw(st.integers(0, 3)), 'fs': draw(st.lists(st.sampled_from(['sin', 'cos', 'exp']), max_size=2))}


@P.law(lambda_cases(), 1500)
def functions(case, rec):
    """lambdify gives a function of the names and functions in the expression, in alphabetical order, whose value is the value of the expression."""
    t, form = case['t'], case['form']
    rec.label(form)
    text = ' + '.join([text_of(t)] + [f'a*{f}(k_x)+{f}(b)' for f in case['fs']])
    defs = None
    if form == 'matrix':
        text = f'({text}) * sigma_{"0xyz"[case["pauli"]]}'
    elif form == 'local':
        text, defs = f'({text}) * c', {'c': text_of(case['l'])}
    arg = text if form != 'sympy' else sympy.sympify(text, locals={**{s: sympy.Symbol(s) for s in PAR + OPS}, **{f: sympy.Function(f) for f in FUN}})
    e = kc.sympify(text, defs)
    want_names = sorted({s.name for s in e.atoms(sympy.Symbol)} | {str(f.func) for f in e.atoms(sympy.Function)})
    if not want_names:
        rec.trivial()
    with Globals():
        f = kc.lambdify(arg, defs) if defs else kc.lambdify(arg)
    got_names = list(inspect.signature(f).parameters)
    if form != 'sympy':         # cancellations may differ between commuting and noncommuting symbols
        req(got_names == want_names, f'lambdify({text!r}) takes {got_names}, expected {want_names}')
    req(got_names == sorted(set(got_names)), f'lambdify({text!r}) takes {got_names}')
    r = rs(12, case['seed'])
    num = {n: r.normal() for n in CPAR}
    co = {f: r.normal(size=3) for f in FUN}
    fns = {f: (lambda c: lambda X: c[0] + c[1] * X + c[2] * X * X)(co[f]) for f in FUN}
    fns.update(sin=np.sin, cos=np.cos, exp=np.exp)
    env = {n: v * np.eye(1) for n, v in num.items()}
    env.update({n + '()': g for n, g in fns.items()})
    args = {n: fns.get(n, num.get(n)) for n in got_names}
    req(None not in args.values(), f'lambdify({text!r}) takes {got_names}')
    val = f(**args) if case['seed'] % 2 else f(*[args[n] for n in got_names])

    def cv(t):
        op = t[0]
        if op == 'sym':
            return num[t[1]]
        if op == 'num':
            return NUM[t[1]]
        if op == 'pow':
            return cv(t[1]) ** t[2]
        if op == 'neg':
            return -cv(t[1])
        if op == 'div':
            return cv(t[1]) / NUM[t[2]]
        if op == 'fn':
            return fns[t[1]](cv(t[2]))
        a, b = cv(t[1]), cv(t[2])
        return a + b if op == '+' else a - b if op == '-' else a * b
    want = cv(t) + sum(num['a'] * fns[f](num['k_x']) + fns[f](num['b']) for f in case['fs'])
    if form == 'matrix':
        want = want * PAULI[case['pauli']]
    elif form == 'local':
        want = want * cv(case['l'])
    val = np.asarray(val, complex)
    req(val.shape == np.shape(want), f'value of lambdify({text!r}) has shape {val.shape}')
    same(val, want, f'value of lambdify({text!r})', 1e-7, scale=10 + np.max(np.abs(want)))


@st.composite
def monomial_cases(draw):
    form = draw(st.sampled_from(['all', 'gens', 'gens', 'commutative', 'commutative all']))
    g = draw(st.lists(st.sampled_from(OPS[:4] if form != 'commutative' else OPS[:4] + ['a', 'mu']), min_size=1, max_size=3, unique=True))
    names_ = (g * 2 if form == 'gens' else OPS[:4]) + ['a', 'b', 'mu', 'N']
    n, m = draw(st.sampled_from([[0, 0], [0, 0], [2, 2], [1, 2], [3, 1]]))
    return {'form': form, 'gens': g, 'shape': [n, m], 'ent': draw(st.lists(small(trees(2, names_, funcs=False)), min_size=max(1, n * m), max_size=max(1, n * m))), 'seed': draw(seeds), 'syms': draw(st.booleans())}


@P.law(monomial_cases(), 1500)
def monomials(case, rec):
    """monomials splits an expression or matrix into distinct products of the generators times coefficients without generators, whose sum is the expression."""
    form, gens, (n, m) = case['form'], case['gens'], case['shape']
    rec.label(form, f'{n}x{m}')
    ent = [kc.sympify(text_of(t)) for t in case['ent']]
    if form.startswith('commutative'):
        ent = [kc.make_commutative(e, *kc.momentum_operators, *kc.position_operators) for e in ent]
        req(all(s.is_commutative for e in ent for s in e.atoms(sympy.Symbol)), 'make_commutative leaves symbols that do not commute')
    expr = sympy.Matrix(n, m, ent) if n else ent[0]
    if not expr.atoms(sympy.Symbol):
        rec.trivial()
    if form in ('all', 'commutative all'):
        out = kc.monomials(expr)
        gnames = {s.name for s in expr.atoms(sympy.Symbol)}
    else:
        gg = [sympy.Symbol(g) for g in gens] if form == 'commutative' else list(gens)
        if form == 'gens' and case['syms']:
            gg = [kc.sympify(g) for g in gens]
        out = kc.monomials(expr, gens=gg)
        gnames = set(gens)
    req(type(out) is dict, f'monomials gives {type(out).__name__}')
    env = env_of(case['seed'])
    if form.startswith('commutative'):
        env = {k: v if callable(v) else v[0, 0] * np.eye(D) for k, v in env.items()}
    total = 0
    for k, v in out.items():
        req(isinstance(k, sympy.Basic) and not isinstance(k, sympy.Add), f'monomial {k} is not a product')
        kn = {s.name for s in k.atoms(sympy.Symbol)}
        req(kn <= gnames, f'monomial {k} of generators {sorted(gnames)}')
        req(not any(f.is_number for f in sympy.Mul.make_args(k)) or k == 1, f'monomial {k} has a numerical factor')
        vs = {s.name for s in v.atoms(sympy.Symbol)}
        req(not vs & gnames, f'coefficient {v} of {k} contains generators')
        if n:
            req(isinstance(v, sympy.MatrixBase) and v.shape == (n, m), f'coefficient of {k} is {v}')
        kv = sval(k, env)
        total = total + (mval_sym(v, env) @ kv if n else sval(v, env) @ kv)
    want = np.array([tval(t, env) for t in case['ent']])
    want = want.reshape((n, m, D, D)) if n else want[0]
    close_to(np.asarray(total) + np.zeros_like(want), want, f'sum of the monomials of {expr}')
    keys = [sympy.powsimp(k) for k in out]
    req(len(set(keys)) == len(keys), f'repeated monomials {keys}')


@st.composite
def ordered_cases(draw):
    g = draw(st.lists(st.sampled_from(OPS), min_size=1, max_size=2, unique=True))
    rest = [o for o in OPS if o not in g]
    names_ = g * 2 + draw(st.lists(st.sampled_from(rest), min_size=2, max_size=3, unique=True)) * 2 + ['a', 'mu']
    word = st.lists(st.one_of(st.sampled_from(names_).map(lambda x: ['sym', x]), st.sampled_from(names_).map(lambda x: ['pow', ['sym', x], 2])), min_size=2, max_size=5)
    num = st.sampled_from(list(NUM)).map(lambda x: ['num', x])

    def prod(ws):
        t = ws[0]
        for w in ws[1:]:
            t = ['*', t, w]
        return t
    words = word.map(prod)
    t = st.one_of(words, st.tuples(st.sampled_from(['+', '-']), words, words).map(list), st.tuples(st.just('*'), st.tuples(st.just('+'), words, num).map(list), words).map(list),
                  st.tuples(st.just('*'), words, st.tuples(st.just('-'), words, words).map(list)).map(list))
    n, m = draw(st.sampled_from([[0, 0], [0, 0], [1, 2]]))
    return {'gens': g, 'shape': [n, m], 'ent': draw(st.lists(t, min_size=max(1, n * m), max_size=max(1, n * m))), 'seed': draw(seeds), 'syms': draw(st.booleans())}


@P.law(ordered_cases(), 900)
def order(case, rec):
    """If neither the generators nor the coefficients commute, factors of monomials and factors of coefficients keep their order: evaluated with
    generators acting in one factor of a tensor product and the other operators in the other factor, the sum of coefficients times monomials is the expression."""
    global D
    nontrivial(rec, case['ent'])
    n, m = case['shape']
    ent = [kc.sympify(text_of(t)) for t in case['ent']]
    expr = sympy.Matrix(n, m, ent) if n else ent[0]
    out = kc.monomials(expr, gens=[kc.sympify(g) for g in case['gens']] if case['syms'] else list(case['gens']))
    gn = set(case['gens'])
    for k, v in out.items():
        req({s.name for s in k.atoms(sympy.Symbol)} <= gn and not {s.name for s in v.atoms(sympy.Symbol)} & gn, f'{k}: {v} in monomials of {expr} for {case["gens"]}')
    old, D = D, 4
    try:
        env = env_of(case['seed'])
        for o in OPS:
            A = env[o][:2, :2]
            env[o] = np.kron(A, np.eye(2)) if o in gn else np.kron(np.eye(2), A)
        want = np.array([tval(t, env) for t in case['ent']])
        total = np.zeros(want.shape, complex)
        for k, v in out.items():
            total = total + (np.array([sval(sympy.sympify(x), env) for x in (v if n else [v])]) @ sval(k, env))
        close_to(total, want, f'sum of the monomials of {expr} for {case["gens"]}')
    finally:
        D = old


@P.law(st.tuples(small(big(2, OPS + PAR[:2])), st.lists(st.sampled_from(OPS), min_size=1, max_size=6, unique=True), st.booleans(), st.booleans(), seeds), 500)
def make_commutative(case, rec):
    """make_commutative makes exactly the listed symbols commute, wherever they appear and however they are given."""
    t, which, matrix, given_comm, seed = case
    nontrivial(rec, [t])
    e = kc.sympify(text_of(t))
    if matrix:
        e = sympy.Matrix([[e, 1], [kc.sympify('k_x*x - x*k_x'), e]])
    rec.label('matrix' if matrix else 'scalar')
    out = kc.make_commutative(e, *[sympy.Symbol(s, commutative=given_comm) for s in which])
    for s in out.atoms(sympy.Symbol):
        req(s.is_commutative == (s.name in which or s.name not in OPS), f'{s} in make_commutative({e}, {which}) is_commutative={s.is_commutative}')
    env = env_of(seed)
    for s in which:
        env[s] = env[s][0, 0] * np.eye(D)
    want = tval(t, env)
    close_to(sval(out[0, 0] if matrix else out, env), want, f'make_commutative({e}, {which})')
    if matrix:
        close_to(sval(sympy.sympify(out[1, 0]), env), env['k_x'] @ env['x'] - env['x'] @ env['k_x'], 'make_commutative of a commutator')


@P.law(st.lists(st.integers(-60, 60).map(lambda i: i * 6), min_size=1, max_size=5), 200)
def gcd(case, rec):
    """gcd is the greatest common divisor, not negative."""
    case = case if len(case) > 1 else [abs(case[0])]
    req(kc.gcd(*case) == math.gcd(*case), f'gcd({case}) = {kc.gcd(*case)}')
