"""C01: symmetry operations form a group, with consistent equality, hash and order."""
from .lib import *

P = Property('C01', 'cases: tuples/programs of symmetry operations in 1-3 dimensions with integer, exact (sympy) or '
             'floating point rotations, unitary parts from monomial, real and generic complex unitaries or unset; '
             'non-trivial: at least two operations other than the identity, or at least one antiunitary one')


def forms(draw, dim):
    exact = draw(st.booleans())
    return dict(exact=exact, floats=not exact, lattice=draw(st.sampled_from(['cubic', 'hex', 'skew'])) if exact else draw(st.sampled_from([None, None, 'skew'])))


@st.composite
def op_lists(draw, lo, hi, withU=True):
    dim = draw(st.integers(1, 3))
    n = draw(st.integers(1, 4))
    kw = forms(draw, dim)
    ops = draw(st.lists(op_specs(dim, n, withU=withU, **kw), min_size=lo, max_size=hi))
    return {'dim': dim, 'n': n, 'ops': ops}


def note(rec, ops, refs):
    nid = sum(1 for r in refs if r.c or r.a or not np.allclose(r.R, np.eye(len(r.R))))
    if nid < 2 and not any(r.c for r in refs):
        rec.trivial()
    rec.label(*{f'form {s[0][2]}' for s in ops}, *{'antiunitary' for r in refs if r.c},
              *{'unset U' for r in refs if r.U is None})


@P.law(op_lists(3, 3), 6000)
def products(case, rec):
    """Products follow R1 R2, U1 U2^(*), xor of flags; associative; identity and inverse are two-sided; inputs intact."""
    n, ops = case['n'], case['ops']
    gs, refs = [op_make(o, n) for o in ops], [Op.spec(o, n) for o in ops]
    note(rec, ops, refs)
    g, h, k = gs
    a, b, c = refs
    check_op(g * h, a * b, 'product')
    check_op((g * h) * k, a * b * c, 'product of three')
    check_op(g * (h * k), a * b * c, 'product of three, other order')
    req((g * h) * k == g * (h * k), 'products in different order compare unequal')
    e = g.identity()
    check_op(e, a.identity(), 'identity')
    for x, r in ((e * g, a), (g * e, a)):
        check_op(x, r, 'product with identity')
    gi = g.inv()
    check_op(gi, a.inv(), 'inverse')
    check_op(g * gi, a.identity(), 'g g^-1')
    check_op(gi * g, a.identity(), 'g^-1 g')
    req(g * gi == e and gi * g == e, 'g g^-1 does not compare equal to the identity')
    check_op((g * h).inv(), (a * b).inv(), 'inverse of a product')
    check_op(gi.inv(), a, 'inverse of the inverse')
    for x, r in zip(gs, refs):
        check_op(x, r, 'operand after use', 1e-12)


progs = st.lists(st.tuples(st.sampled_from(['mul', 'mul', 'mul', 'inv', 'pow', 'id', 'dup', 'swap']),
                           st.integers(-6, 6)), min_size=1, max_size=14)


@P.law(st.tuples(op_lists(2, 4), progs), 6000)
def programs(case, rec):
    """Any program of products, inverses, powers and identities gives what the reference operations give."""
    case, prog = case
    n, ops = case['n'], case['ops']
    stack = [(op_make(o, n), Op.spec(o, n)) for o in ops]
    note(rec, ops, [r for _, r in stack])
    for cmd, arg in prog:
        g, r = stack.pop()
        if cmd == 'mul' and stack:
            h, s = stack.pop()
            g, r = g * h, r * s
        elif cmd == 'inv':
            g, r = g.inv(), r.inv()
        elif cmd == 'pow':
            g, r = g ** arg, r.power(arg)
            rec.label('negative power' if arg < 0 else 'power')
        elif cmd == 'id':
            g, r = g.identity(), r.identity()
        elif cmd == 'dup':
            stack.append((g, r))
        elif cmd == 'swap':
            stack.insert(0, (g, r))
            g, r = stack.pop()
        check_op(g, r, f'after {cmd}', 1e-6)
        stack.append((g, r))


@P.law(st.tuples(op_lists(1, 1), st.integers(-40, 40)), 1500)
def powers(case, rec):
    """g^n is the n-fold product, g^-n its inverse, g^0 the identity; laws of exponents."""
    case, p = case
    n, o = case['n'], case['ops'][0]
    g, r = op_make(o, n), Op.spec(o, n)
    note(rec, [o], [r])
    rec.label('antiunitary odd' if r.c and p % 2 else 'other')
    check_op(g ** p, r.power(p), f'power {p}', 1e-6)
    check_op(g ** 0, r.identity(), 'power 0')
    check_op((g ** p) * (g ** (3 - p)), r.power(3), 'exponents add', 1e-6)
    check_op(g ** 1, r, 'power 1')
    check_op(g ** -1, r.inv(), 'power -1')


@st.composite
def pairs(draw):
    dim = draw(st.integers(1, 3))
    n = draw(st.integers(1, 3))
    kw = forms(draw, dim)
    o = draw(op_specs(dim, n, **kw))
    q = draw(op_specs(dim, n, **kw)) if draw(st.integers(0, 3)) == 0 else [list(o[0]), o[1], o[2], o[3]]
    return {'n': n, 'a': o, 'b': q, 'flip': draw(st.sampled_from([None, None, None, 'c', 'a', 'ca'])),
            'phase': draw(st.sampled_from([0, 0, 0, 1, 2, 3, 5])), 'newU': draw(st.sampled_from([None, None, 'other', 'none'])),
            'useed': draw(seeds), 'strict': draw(st.sampled_from([[0, 0], [1, 1], [1, 0], [0, 1]])),
            'via': draw(st.sampled_from([None, None, 'left', 'right', 'inverse', 'power'])), 'reform': draw(st.booleans()), 'scaleU': draw(st.sampled_from([1, 1, 1, -1]))}


@P.law(pairs(), 7500)
def equality(case, rec):
    """Equal iff same real space action and flags (and, if strict, same unitary up to a phase); hash agrees; symmetric."""
    n, o, q = case['n'], case['a'], case['b']
    s1, s2 = map(bool, case['strict'])
    g = op_make(o, n, _strict_eq=s1)
    via = case['via']
    if via in ('left', 'right'):
        # strict comparison is inherited from either factor
        g = op_make(o, n)
        e = PointGroupElement(np.eye(g.R.shape[0], dtype=int), False, False, None if g.U is None else np.eye(n), _strict_eq=s1)
        g = e * g if via == 'left' else g * e
    elif via == 'inverse':
        g = g.inv().inv()
    elif via == 'power':
        g = g ** 1
    rec.label(f'via {via}')
    a, b = Op.spec(o, n), Op.spec(q, n)
    R2 = q[0]
    if case['reform'] and R2[0] in ('one', 'sq', 'cu'):
        R2 = [R2[0], R2[1], {'int': 'float', 'float': 'int', 'sympy': 'int', 'mutable': 'float', 'ta': 'taf', 'taf': 'ta'}[R2[2]]]
    f = case['flip'] or ''
    b.c ^= 'c' in f
    b.a ^= 'a' in f
    U = b.U
    if case['newU'] == 'none':
        U = None
    elif case['newU'] == 'other':
        U = mat(case['useed'], n, kind='unitary')
    if U is not None:
        U = U * np.exp(1j * case['phase'])
    b.U = U
    h = PointGroupElement(R_make(R2), b.c, b.a, U, _strict_eq=s2)
    dR = diff(a.R, b.R)
    if 1e-9 < dR < 1e-3:
        return rec.trivial()
    want = dR < 1e-9 and (a.c, a.a) == (b.c, b.a)
    rec.label('same basic' if want else 'different basic', f'strict {s1 or s2}')
    if want and (s1 or s2):
        if (a.U is None) != (b.U is None):
            want = False
            rec.label('one unitary unset')
        elif a.U is not None:
            M = a.U.conj().T @ b.U
            d = abs(abs(np.trace(M)) / n - 1)
            if 1e-12 < d < 1e-4:
                return rec.trivial()
            want = d <= 1e-12
            rec.label('same unitary up to phase' if want else 'other unitary')
    req(bool(g == h) == want, f'equality is {g == h}, expected {want}')
    req(bool(h == g) == want, f'equality is not symmetric: {h == g}, expected {want}')
    req(bool(g != h) != want, 'inequality is not the negation of equality')
    if want:
        req(hash(g) == hash(h), 'equal operations have different hashes')
        req(len({g, h}) == 1, 'equal operations are different members of a set')
    else:
        req(len({g, h}) == 2, 'different operations merge in a set')


@P.law(op_lists(1, 1), 2000)
def integer_forms(case, rec):
    """An integer rotation given or obtained with rounding errors is the same set member as the exact one."""
    dim, n = case['dim'], case['n']
    o = case['ops'][0]
    ig = INTGROUPS[dim][0]
    i = o[0][1]
    R = R_num([ig, i, 'int'])
    noise = rs(i, 5).uniform(-1, 1, (dim, dim)) * 1e-12
    ref = Op(R, o[1], o[2], None)
    if np.array_equal(R, np.eye(dim)):
        rec.trivial()
    ex = PointGroupElement(np.array(R, int), o[1], o[2])
    for x in (R + noise, ta.array((R + noise).tolist(), float), sympy.ImmutableMatrix(np.array(R, int).tolist()),
              sympy.Matrix(np.array(R, int).tolist()), ta.array(np.array(R, int).tolist(), int)):
        g = PointGroupElement(x, o[1], o[2])
        check_op(g, ref, f'rotation given as {type(x).__name__}', 1e-15)
        req(g == ex and hash(g) == hash(ex) and len({g, ex}) == 1, f'rotation given as {type(x).__name__} is not the same operation')
    # from factors which are not integer
    if dim > 1:
        Q = gen2(i) if dim == 2 else gen3(i)
        g = PointGroupElement(Q) * (PointGroupElement(np.linalg.inv(Q) @ R, o[1], o[2]))
        check_op(g, ref, 'product of floating point rotations', 1e-10)
        req(g == ex and hash(g) == hash(ex), 'product of floating point rotations is not the exact operation')
        rec.label('from floats')


@st.composite
def sort_sets(draw):
    dim = draw(st.integers(1, 3))
    exact = draw(st.booleans())
    items = draw(st.lists(op_specs(dim, 1, exact=exact, floats=False, withU=False), min_size=2, max_size=8))
    return {'dim': dim, 'ops': items}


@P.law(sort_sets(), 2500)
def order(case, rec):
    """< orders by flags first, then the trivial rotation, and is a strict total order of distinct operations."""
    gs = [op_make(o, 1) for o in case['ops']]
    refs = [Op.spec(o, 1) for o in case['ops']]
    note(rec, case['ops'], refs)
    n = len(gs)
    lt = [[bool(gs[i] < gs[j]) for j in range(n)] for i in range(n)]
    for i in range(n):
        for j in range(n):
            eq = refs[i].key() == refs[j].key()
            req(lt[i][j] + lt[j][i] == (0 if eq else 1),
                f'operations {i}, {j}: exactly one of <, >, = has to hold, got {lt[i][j]}, {lt[j][i]}, {eq}')
            fi, fj = (refs[i].c, refs[i].a), (refs[j].c, refs[j].a)
            if fi < fj:
                req(lt[i][j], 'flags do not come first in the order')
            if fi == fj and not eq and np.allclose(refs[i].R, np.eye(case['dim'])):
                req(lt[i][j], 'the trivial rotation does not come first')
            for k in range(n):
                if lt[i][j] and lt[j][k]:
                    req(lt[i][k], 'order is not transitive')
    out = sorted(gs)
    req(len(out) == n and all(not out[i + 1] < out[i] for i in range(n - 1)), 'sorted is not sorted')


@st.composite
def mixes(draw):
    dim = draw(st.integers(2, 3))
    return {'dim': dim, 'i': draw(st.integers(0, 23)), 's': draw(seeds), 'j': draw(st.integers(0, 47)),
            'iform': draw(st.sampled_from(['int', 'float', 'ta', 'sympy'])), 'swap': draw(st.booleans())}


@P.law(mixes(), 1250)
def mixing(case, rec):
    """Exact and non-integer floating point rotations cannot be multiplied (ValueError), integer ones mix with both."""
    dim = case['dim']
    fs = [GEN[dim], case['s'], 'float']
    ex, fl = [HEX[dim], case['i'], 'sympy'], PointGroupElement(R_make(fs))
    ig = [INTGROUPS[dim][0], case['j'], case['iform']]
    gex, gint = PointGroupElement(R_make(ex)), PointGroupElement(R_make(ig))
    def mul(x, y):
        return y * x if case['swap'] else x * y
    Rex = R_num(ex)
    if np.allclose(Rex, np.round(Rex)):
        rec.label('exact is integer')
        check_op(mul(gex, fl), Op(mul_(Rex, R_num(fs), case), 0, 0, None), 'integer times float')
    else:
        raises(ValueError, lambda: mul(gex, fl), 'product of exact and floating point rotations does not raise')
        rec.label('raises')
    check_op(mul(gex, gint), Op(mul_(Rex, R_num(ig), case), 0, 0, None), 'exact times integer')
    check_op(mul(fl, gint), Op(mul_(R_num(fs), R_num(ig), case), 0, 0, None), 'float times integer')


def mul_(a, b, case):
    return b @ a if case['swap'] else a @ b


@st.composite
def exact_words(draw):
    dim = draw(st.integers(2, 3))
    return {'dim': dim, 'w': draw(st.lists(st.tuples(st.integers(0, 23), st.booleans()), min_size=2, max_size=10)),
            'u': draw(st.integers(-30, 30))}


@P.law(exact_words(), 1000)
def exactness(case, rec):
    """Words in exact (sympy) rotations stay exact: they hash and compare as the group element they equal."""
    dim = case['dim']
    g = PointGroupElement(R_make([HEX[dim], 0, 'sympy']))
    r = np.eye(dim)
    for i, inv in case['w']:
        h = PointGroupElement(R_make([HEX[dim], i, 'sympy']))
        Rh = R_num([HEX[dim], i, 'sympy'])
        g, r = (g * h.inv(), r @ Rh.T) if inv else (g * h, r @ Rh)
    n = 12 if dim == 2 else 24
    match = [i for i in range(n) if np.allclose(R_num([HEX[dim], i, '']), r)]
    t = PointGroupElement(R_make([HEX[dim], match[0], 'sympy']))
    req(g == t and t == g, 'exact product is not equal to the exact element')
    req(hash(g) == hash(t) and len({g, t}) == 1, 'exact product has a different hash from the exact element')
    p = case['u']
    tp = np.linalg.matrix_power(R_num([HEX[dim], match[0], '']), p % 12)
    match = [i for i in range(n) if np.allclose(R_num([HEX[dim], i, '']), tp)]
    q = PointGroupElement(R_make([HEX[dim], match[0], 'sympy']))
    req(t ** p == q and hash(t ** p) == hash(q), 'exact power is not the exact element')


PA = {'sigma_0': PAULI[0], 'sigma_x': PAULI[1], 'sigma_y': PAULI[2], 'sigma_z': PAULI[3]}


@st.composite
def u_inputs(draw):
    return {'how': draw(st.sampled_from(['array', 'list', 'string', 'kron', 'sympy', 'locals', 'scalar', 'liststr'])),
            'i': draw(st.integers(0, 3)), 'j': draw(st.integers(0, 3)), 's': draw(seeds), 'n': draw(st.integers(1, 4)),
            'ph': draw(st.integers(0, 3)), 'rt': draw(st.sampled_from(['list', 'tuple', 'none', 'int']))}


@P.law(u_inputs(), 1250)
def unitary_inputs(case, rec):
    """U may be an array, nested list, sympy matrix or string with Pauli matrices and locals; it is stored as given."""
    how, i, j = case['how'], case['i'], case['j']
    ni, nj = list(PA)[i], list(PA)[j]
    ph = ['1', 'I', '(-1)', '(-I)'][case['ph']]
    want, kw = None, {}
    if how == 'array':
        U = want = mat(case['s'], case['n'], kind='unitary')
    elif how == 'list':
        want = mat(case['s'], case['n'], kind='unitary')
        U = want.tolist()
    elif how == 'string':
        U, want = f'{ph} * {ni}', 1j ** case['ph'] * PA[ni]
    elif how == 'kron':
        U, want = f'{ph} * kron({ni}, {nj})', 1j ** case['ph'] * np.kron(PA[ni], PA[nj])
    elif how == 'sympy':
        want = np.kron(PA[ni], PA[nj]) * 1j ** case['ph']
        U = sympy.Matrix([[sympy.sympify(int(x.real)) + sympy.I * int(x.imag) for x in r] for r in want])
    elif how == 'locals':
        U, want = f'{ph} * foo', 1j ** case['ph'] * np.array([[0, 2], [1, 0]])
        kw = {'locals': {'foo': [[0, 2], [1, 0]]}}
    elif how == 'scalar':
        U, want = 1j ** case['ph'], np.array([[1j ** case['ph']]])
    else:
        U, want = f'[[0, {ph}], [{ph}, 0]]', 1j ** case['ph'] * PAULI[1]
    rec.label(how)
    g = PointGroupElement(np.eye(2), True, False, U, **kw)
    check_op(g, Op(np.eye(2), True, False, np.array(want, complex)), f'U given as {how}')
    bad = {'list': [[1, 0], [0, 1]], 'tuple': ((1, 0), (0, 1)), 'none': None, 'int': 1}[case['rt']]
    raises(ValueError, lambda: PointGroupElement(bad), f'R given as {type(bad).__name__} does not raise ValueError')


@st.composite
def skewed(draw):
    """Integer rotations in a basis of the lattice that need not be reduced."""
    lat = draw(st.sampled_from(['sq', 'hex2', 'cu', 'hex3', 'cu']))
    d = 2 if lat in ('sq', 'hex2') else 3
    ops = draw(st.lists(st.tuples(st.integers(0, 47), st.booleans(), st.booleans(), maybe_seeds), min_size=2, max_size=3))
    return {'lat': lat, 'd': d, 'n': draw(st.integers(1, 3)), 'ops': ops, 'uni': draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2), st.integers(-3, 3)), max_size=5)),
            'form': draw(st.sampled_from(['int', 'ta', 'list']))}


@P.law(st.tuples(skewed(), progs), 3000)
def skewed_bases(case, rec):
    """The same for integer rotations in a skewed lattice basis, whose entries are larger than 1; they stay integer, and unitaries are kept."""
    case, prog = case
    d, lat = case['d'], case['lat']
    T = np.eye(d, dtype=int)
    for i, j, m in case['uni']:
        if i % d != j % d:
            T[i % d] += m * T[j % d]
    if np.max(np.abs(T)) > 30:
        return rec.trivial()
    B = np.eye(d)
    if lat.startswith('hex'):
        B[:2, :2] = [[1, -0.5], [0, math.sqrt(3) / 2]]
    B = B @ np.linalg.inv(T)
    stack = []
    big = 0
    for i, c, a, u in case['ops']:
        R = R_num([lat, i, ''])
        R = np.linalg.inv(B) @ R @ B
        Ri = np.round(R).astype(int)
        if np.max(np.abs(R - Ri)) > 1e-6:
            return rec.trivial()
        big = max(big, np.max(np.abs(Ri)))
        U = None if u is None else mat(u, case['n'], kind='unitary')
        arg = {'int': Ri, 'ta': ta.array(Ri.tolist(), int), 'list': Ri}[case['form']]
        stack.append((PointGroupElement(arg, c, a, U), Op(Ri, c, a, U)))
    if big < 2:
        rec.trivial()
    rec.label(lat, f'entries up to {2 ** int(math.log2(max(big, 1)))}')
    for cmd, arg in prog:
        g, r = stack.pop()
        if cmd == 'mul' and stack:
            h, s = stack.pop()
            g, r = g * h, r * s
        elif cmd == 'inv':
            g, r = g.inv(), r.inv()
            r.R = np.round(r.R)
        elif cmd == 'pow':
            g, r = g ** arg, r.power(arg)
        elif cmd == 'id':
            g, r = g.identity(), r.identity()
        elif cmd == 'dup':
            stack.append((g, r))
        elif cmd == 'swap':
            stack.insert(0, (g, r))
            g, r = stack.pop()
        r.R = np.round(r.R)
        check_op(g, r, f'after {cmd}', 1e-6)
        req(np.array(g.R).dtype.kind == 'i', 'integer rotation became floating point')
        check_op(g * g.inv(), r.identity(), 'g g^-1', 1e-6)
        req(g * g.inv() == g.identity() and hash(g * g.inv()) == hash(g.identity()), 'g g^-1 is not equal to the identity')
        stack.append((g, r))
