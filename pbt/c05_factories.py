"""C05: factory functions and predefined point groups."""
from fractions import Fraction

from .lib import *
from qsymm import identity, time_reversal, particle_hole, chiral, inversion, rotation, mirror
from qsymm.groups import square, cubic, hexagonal, generate_group

P = Property('C05', 'cases: factory calls with random dimension, angle, axis, unitary or spin (number or matrices), and the '
             'predefined groups with all option combinations; non-trivial: not the identity operation')


def spin_arg(spec):
    """spec [kind, 2s]: (argument, matrices)."""
    kind, t = spec
    S = spin(t / 2)
    if kind == 'num':
        return (t // 2 if t % 2 == 0 else t / 2), S
    if kind == 'np':
        return np.float64(t / 2), S
    if kind == 'sum':       # spin + orbital
        L = np.array([np.kron(S[i], np.eye(3)) + np.kron(np.eye(len(S[i])), L3[i]) for i in range(3)])
        return L, L
    if kind == 'conj':      # another basis
        V = mat(t + 5, t + 1, kind='unitary')
        M = np.array([V @ s @ V.conj().T for s in S])
        return list(M), M
    return S, S


spins = st.tuples(st.sampled_from(['num', 'num', 'np', 'arr', 'sum', 'conj']), st.integers(0, 4)).map(list)
axes = st.lists(st.sampled_from([0, 1, -1, 2, -3, 0.5, 0.37]), min_size=3, max_size=3).filter(any)
angles = st.one_of(st.tuples(st.integers(-12, 12), st.integers(1, 12)).map(lambda t: t[0] / t[1]),
                   st.floats(-2, 2, allow_subnormal=False).map(lambda x: round(x, 4)))


def expo(v, S):
    """exp(-i v.S) from the spectral decomposition."""
    H = np.tensordot(np.asarray(v, float), S, (0, 0))
    w, V = np.linalg.eigh(H)
    return (V * np.exp(-1j * w)) @ V.conj().T


@st.composite
def rotations(draw):
    return {'angle': draw(angles), 'axis': draw(st.none() | axes), 'inv': draw(st.booleans()),
            'what': draw(st.sampled_from(['none', 'U', 'spin', 'spin', 'both'])), 'spin': draw(spins), 's': draw(seeds),
            'axform': draw(st.sampled_from(['list', 'array', 'tuple', 'int']))}


@P.law(rotations(), 10000)
def rotation_factory(case, rec):
    """rotation: Rodrigues matrix, counterclockwise in 2D, times -1 for rotoinversions; U given or exp(-i angle n.s)."""
    th, ax, w = case['angle'], case['axis'], case['what']
    arg, S = spin_arg(case['spin'])
    kw = {}
    if w in ('U', 'both'):
        kw['U'] = mat(case['s'], 2, kind='unitary')
    if w in ('spin', 'both'):
        kw['spin'] = arg
    a = None
    if ax is not None:
        kw['axis'] = a = {'list': list, 'array': np.array, 'tuple': tuple, 'int': lambda x: [float(y) for y in x]}[case['axform']](ax)
        if case['inv']:
            kw['inversion'] = True
    rec.label(w, '2D' if ax is None else '3D')
    if w == 'both':
        raises(ValueError, lambda: rotation(th, **kw), 'both U and spin are accepted')
        return
    if ax is not None and w == 'none':
        raises(ValueError, lambda: rotation(th, axis=ax[:2]), 'axis with 2 components is accepted')
    g = rotation(th, **kw)
    t = 2 * math.pi * th
    if abs(math.remainder(t, 2 * math.pi)) < 1e-9:
        rec.trivial()
    R = rot2(t) if ax is None else rot3(ax, t) * (-1 if case['inv'] else 1)
    n = np.array([0, 0, 1]) if ax is None else np.array(ax, float) / np.linalg.norm(ax)
    U = None
    if w == 'U':
        U = kw['U']
    elif w == 'spin':
        U = expo(t * n, S)
    check_op(g, Op(R, 0, 0, U), 'rotation')
    if isinstance(a, np.ndarray):
        req(np.array_equal(a, np.array(ax)), 'axis modified')


@st.composite
def mirrors(draw):
    d = draw(st.integers(1, 3))
    return {'axis': draw(axes.map(lambda a: a[:d]).filter(any)), 'what': draw(st.sampled_from(['none', 'U', 'spin', 'spin', 'both'])),
            'spin': draw(spins), 's': draw(seeds), 'form': draw(st.sampled_from(['list', 'array']))}


@P.law(mirrors(), 6000)
def mirror_factory(case, rec):
    """mirror: reflection through the plane normal to the axis; on spins a twofold rotation about the axis."""
    ax, w = case['axis'], case['what']
    arg, S = spin_arg(case['spin'])
    if len(ax) == 1 and w == 'spin':
        w = 'none'
    a = np.array(ax) if case['form'] == 'array' else list(ax)
    kw = {}
    if w in ('U', 'both'):
        kw['U'] = mat(case['s'], 2, kind='unitary')
    if w in ('spin', 'both'):
        kw['spin'] = arg
    rec.label(w, f'{len(ax)}D')
    if w == 'both':
        raises(ValueError, lambda: mirror(a, **kw), 'both U and spin are accepted')
        return
    g = mirror(a, **kw)
    n = np.array(ax, float) / np.linalg.norm(ax)
    R = np.eye(len(n)) - 2 * np.outer(n, n)
    U = kw.get('U')
    if w == 'spin':
        U = expo(math.pi * np.append(n, [0] * (3 - len(n))), S)
    check_op(g, Op(R, 0, 0, U), 'mirror')
    req(list(np.asarray(a)) == list(ax), 'axis modified')


@st.composite
def simple(draw):
    return {'f': draw(st.sampled_from(['identity', 'time_reversal', 'particle_hole', 'chiral', 'inversion'])), 'd': draw(st.integers(1, 3)),
            'what': draw(st.sampled_from(['none', 'U', 'spin', 'both'])), 's': draw(seeds), 'spin': draw(spins), 'n': draw(st.integers(1, 4))}


@P.law(simple(), 4000)
def simple_factories(case, rec):
    """identity, time_reversal, particle_hole, chiral, inversion have the stated flags, rotation and unitary."""
    f, d, w, n = case['f'], case['d'], case['what'], case['n']
    arg, S = spin_arg(case['spin'])
    U = mat(case['s'], n, kind='unitary')
    rec.label(f)
    if f == 'identity':
        rec.trivial()
        check_op(identity(d), Op(np.eye(d), 0, 0, None), f)
        check_op(identity(d, n), Op(np.eye(d), 0, 0, np.eye(n)), f)
        check_op(identity(d, shape=n) * PointGroupElement(-np.eye(d), True, False, U), Op(-np.eye(d), 1, 0, U), 'identity times g')
        return
    flags = {'time_reversal': (1, 0), 'particle_hole': (1, 1), 'chiral': (0, 1), 'inversion': (0, 0)}[f]
    R = -np.eye(d) if f == 'inversion' else np.eye(d)
    fun = {'time_reversal': time_reversal, 'particle_hole': particle_hole, 'chiral': chiral, 'inversion': inversion}[f]
    if f == 'time_reversal' and w == 'both':
        raises(ValueError, lambda: time_reversal(d, U=U, spin=arg), 'both U and spin are accepted')
        return
    if f == 'time_reversal' and w == 'spin':
        g = time_reversal(d, spin=arg)
        T = expo(np.array([0, math.pi, 0]), S)
        check_op(g, Op(R, 1, 0, T), f)
        rec.label('spin')
        if case['spin'][0] in ('num', 'np', 'arr'):
            # angular momentum is odd and T^2 = (-1)^(2s)
            same((g * g).U, (-1) ** case['spin'][1] * np.eye(len(T)), 'square of time reversal')
            for s in S:
                same(T @ s.conj() @ T.conj().T, -s, 'time reversal does not invert spin')
    elif w == 'none':
        check_op(fun(d), Op(R, *flags, None), f)
    else:
        check_op(fun(d, U) if case['s'] % 2 else fun(d, U=U), Op(R, *flags, U), f)


@st.composite
def group_calls(draw):
    return {'f': draw(st.sampled_from(['square', 'cubic', 'hex2', 'hex3'])), 'tr': draw(st.booleans()), 'ph': draw(st.booleans()),
            'gen': draw(st.booleans()), 'sympy': draw(st.booleans()), 'spin': draw(st.none() | spins), 'defaults': draw(st.booleans())}


def improper_spin(R, S):
    """Spin rotation of R with inversion acting trivially, mirrors of the plane as twofold rotations; up to sign."""
    if len(R) == 2:
        Q = np.zeros((3, 3))
        Q[:2, :2] = R
        Q[2, 2] = 1
        R = Q
    # a mirror in 2D keeps z, so its 3D form is a mirror
    if np.linalg.det(R) < 0:
        R = -R
    ang = math.acos(max(-1, min(1, (np.trace(R) - 1) / 2)))
    if ang < 1e-6:
        n = np.array([0, 0, 1.0])
        ang = 0
    elif abs(ang - math.pi) < 1e-6:
        w, V = np.linalg.eigh((R + R.T) / 2)
        n = V[:, -1]
    else:
        n = np.array([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]]) / (2 * math.sin(ang))
    return expo(ang * n, S)


@P.law(group_calls(), 1200)
def point_groups(case, rec):
    """square, cubic, hexagonal: exactly the right set of rotations and flags, generators generate it, spin representation right."""
    f, tr, ph = case['f'], case['tr'], case['ph']
    kw = {'tr': tr, 'ph': ph}
    if case['defaults'] and tr and ph:
        kw = {}
        rec.label('defaults')
    spec = case['spin']
    if spec is not None and spec[0] in ('sum', 'conj') and tr:
        # the stated form of time reversal is one only in the standard basis
        spec = ['num', spec[1]]
    call = {'square': square, 'cubic': cubic, 'hex2': hexagonal, 'hex3': hexagonal}[f]
    if f == 'hex3':
        kw['dim'] = 3
    if f.startswith('hex') and not case['sympy']:
        kw['sympy_R'] = False
    S = None
    if spec is not None:
        kw['spin'], S = spin_arg(spec)
    rec.label(f, 'spin' if spec else 'no spin', f'tr {tr} ph {ph}')
    if spec is not None and ph:
        raises(ValueError, lambda: call(**kw), 'spin together with particle-hole symmetry is accepted')
        raises(ValueError, lambda: hexagonal(dim=4), 'hexagonal group in 4 dimensions is accepted')
        return
    group = call(**kw)
    gens = call(generators=True, **kw)
    Rs = {'square': SQ, 'cubic': CU, 'hex2': [hex2(i) for i in range(12)], 'hex3': [hex3(i) for i in range(24)]}[f]
    flags = [(c, a) for c in (0, 1) for a in (0, 1) if (tr and ph) or (c, a) == (0, 0) or (tr and (c, a) == (1, 0)) or (ph and (c, a) == (1, 1))]
    want = {Op(R, c, a, None).key(4) for R in Rs for c, a in flags}
    got = [Op.of(g).key(4) for g in group]
    req(len(got) == len(set(got)), 'element of the group listed twice')
    req(set(got) == want, f'group has {len(got)} elements, expected {len(want)}, {len(want & set(got))} in common')
    req(generate_group(gens) == group, 'generators do not generate the group')
    if len(want) > 4:
        req(len(gens) < len(group), 'all elements returned as generators')
    exact = f in ('square', 'cubic') or case['sympy']
    if exact:
        # products stay exact: set membership is by hash
        l = sorted(group)[:6]
        req(all(g * h in group for g in l for h in l), 'group is not closed')
    for g in group:
        if S is None:
            req(g.U is None, 'unitary set without spin')
            continue
        U = improper_spin(rnum(g.R), S)
        if g.conjugate:
            U = U @ expo([0, math.pi, 0], S)
        req(g.U is not None and g.U.shape == U.shape, 'unitary action missing or of wrong size')
        req(close(g.U, U, 1e-6) or close(g.U, -U, 1e-6), f'spin representation of an element is wrong: R = {rnum(g.R).tolist()}, '
            f'conjugate {g.conjugate}')
        if spec[0] in ('num', 'np', 'arr', 'conj') and spec[1] % 2 == 0 or spec[0] == 'sum' and spec[1] % 2 == 0:
            same(g.U, U, 'representation of integer spin is not single valued', 1e-6)
