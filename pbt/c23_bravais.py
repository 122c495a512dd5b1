"""C23: point groups of Bravais lattices."""
import contextlib
import io
import itertools

from qsymm.symmetry_finder import bravais_point_group

from .lib import *

P = Property('C23', 'cases: lattices in 1-3 dimensions from the 14 Bravais types and from Gram matrices with small integer entries, distorted, scaled, rotated, in a random '
             'basis and embedded in more dimensions; oracle: enumeration of all isometries of the lattice; non-trivial: the group is larger than the inversion')

CENT = {'P': [], 'C': [[.5, .5, 0]], 'A': [[0, .5, .5]], 'I': [[.5, .5, .5]], 'F': [[.5, .5, 0], [0, .5, .5]]}


def orth(seed, n):
    return np.linalg.qr(rs(seed, 7).normal(size=(n, n)))[0]


def base_gram(spec):
    """Gram matrix of one lattice basis."""
    kind, par = spec
    if kind == 'gram':
        d, ent = par
        G = np.zeros((d, d))
        it_ = iter(ent)
        for i in range(d):
            for j in range(i):
                G[i, j] = G[j, i] = next(it_)
            G[i, i] = abs(next(it_))
        # made positive definite
        w = np.linalg.eigvalsh(G)[0]
        if w < 0.3:
            G = G + math.ceil(0.5 - w) * np.eye(d)
        return G
    if kind == 'one':
        return np.array([[par[0]]], float)
    a, b, c = [x / 4 for x in par[:3]]
    cent = par[3]
    sys_ = par[4]
    if kind == '2d':
        M = {'square': np.diag([a, a]), 'rect': np.diag([a, b]), 'hex': a * np.array([[1, 0], [-.5, math.sqrt(3) / 2]]), 'oblique': np.array([[a, 0], [c - 1, b]])}[sys_]
        if cent in 'CI' and sys_ == 'rect':
            M = np.array([[.5, .5], [.5, -.5]]) @ M
        return M @ M.T
    M = {'cubic': np.diag([a, a, a]), 'tet': np.diag([a, a, c]), 'ortho': np.diag([a, b, c]), 'hex': a * np.array([[1, 0, 0], [-.5, math.sqrt(3) / 2, 0], [0, 0, c / a]]),
         'mono': np.array([[a, 0, 0], [c - 1, b, 0], [0, 0, c]]), 'rhomb': np.array([[a, b, b], [b, a, b], [b, b, a]]) if abs(a - b) > .1 else np.diag([a] * 3),
         'tri': np.array([[a, 0, 0], [c - 1, b, 0], [b - 1, a - 1, c]])}[sys_]
    T = {'P': np.eye(3), 'C': [[.5, .5, 0], [.5, -.5, 0], [0, 0, 1]], 'A': [[0, .5, .5], [0, .5, -.5], [1, 0, 0]], 'I': [[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]],
         'F': [[0, .5, .5], [.5, 0, .5], [.5, .5, 0]]}[cent if sys_ not in ('hex', 'rhomb') else 'P']
    M = np.array(T) @ M
    return M @ M.T


lat_specs = st.one_of(
    st.tuples(st.just('one'), st.lists(st.integers(1, 9), min_size=1, max_size=1)),
    st.tuples(st.just('gram'), st.sampled_from([2, 3, 3]).flatmap(lambda d: st.tuples(st.just(d), st.lists(st.integers(-6, 6), min_size=d * (d + 1) // 2, max_size=d * (d + 1) // 2)))),
    st.tuples(st.just('gram'), st.tuples(st.just(3), st.lists(st.sampled_from([1, -1, 2, 0, -2, 3, 4]), min_size=6, max_size=6))),
    st.tuples(st.just('2d'), st.tuples(st.integers(2, 9), st.integers(2, 9), st.integers(2, 9), st.sampled_from('PC'), st.sampled_from(['square', 'rect', 'hex', 'oblique', 'rect']))),
    st.tuples(st.just('3d'), st.tuples(st.integers(2, 9), st.integers(2, 9), st.integers(2, 9), st.sampled_from('PCAIF'),
                                       st.sampled_from(['cubic', 'tet', 'ortho', 'hex', 'mono', 'rhomb', 'tri', 'ortho', 'tet', 'mono']))))


@st.composite
def cases(draw, extra=(0,)):
    lat = draw(lat_specs)
    return {'lat': lat, 'dist': draw(st.sampled_from([None, None, None, None, [draw(seeds), draw(st.sampled_from([0.01, 0.1, 0.003]))]])),
            'uni': draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2), st.integers(-2, 2)), max_size=5)), 'perm': draw(seeds),
            'rot': draw(maybe_seeds), 'scale': draw(st.sampled_from([1, 1, 1, 3.7, 0.1, 25, 2.5e-10, 1e-3, 1e4])), 'extra': draw(st.sampled_from(extra)),
            'tr': draw(st.booleans()), 'ph': draw(st.booleans()), 'generators': draw(st.integers(0, 2)) == 0, 'form': draw(st.sampled_from(['array', 'array', 'list', 'int', 'noise']))}


def reduce_gram(G):
    """Greedy reduction: no combination with coefficients -1, 0, 1 is shorter."""
    d = len(G)
    T = np.eye(d, dtype=int)
    while True:
        for i in range(d):
            best = None
            for x in itertools.product((-1, 0, 1), repeat=d):
                if x[i] == 1:
                    x = np.array(x)
                    if x @ G @ x < G[i, i] * (1 - 1e-9) and (best is None or x @ G @ x < best @ G @ best):
                        best = x
            if best is not None:
                S = np.eye(d, dtype=int)
                S[i] = best
                G, T = S @ G @ S.T, S @ T
                break
        else:
            return G, T


def isometries(G, tol=1e-6, clear=1e-3):
    """Integer matrices W with W G W^T = G (rows: images of basis vectors); None if there are near misses."""
    d = len(G)
    rng = 4
    pts = np.array(list(itertools.product(range(-rng, rng + 1), repeat=d)))
    ln = np.einsum('ai,ij,aj->a', pts, G, pts)
    sc = np.min(np.diag(G))
    # all vectors as short as the longest basis vector have to be covered
    if rng ** 2 < np.max(np.diag(np.linalg.inv(G))) * np.max(np.diag(G)) * 1.01:
        return None
    out = [[]]
    for i in range(d):
        df = np.abs(ln - G[i, i]) / sc
        if np.any((df > tol) & (df < clear)):
            return None
        cand = pts[df <= tol]
        new = []
        for w in out:
            for p in cand:
                df = [abs(p @ G @ q - G[i, j]) / sc for j, q in enumerate(w)]
                if any(tol < x < clear for x in df):
                    return None
                if all(x <= tol for x in df):
                    new.append(w + [p])
        out = new
    return [np.array(w) for w in out]


def lattice(case):
    """(periods, reduced basis with the same lattice, isometries or None)"""
    G = base_gram(case['lat'])
    d = len(G)
    if case['dist'] is not None:
        s, x = case['dist']
        E = rs(s, 1).normal(size=(d, d)) * x
        L = np.linalg.cholesky(G) @ (np.eye(d) + E)
        G = L @ L.T
    G = G * case['scale'] ** 2
    G, _ = reduce_gram(G)
    W = isometries(G)
    B = np.linalg.cholesky(G)
    if case['rot'] is not None:
        B = B @ orth(case['rot'], d)
    T = np.eye(d, dtype=int)
    for i, j, n in case['uni']:
        if i % d != j % d:
            T[i % d] += n * T[j % d]
    T = T[rs(case['perm'], 2).permutation(d)]
    return T @ B, B, W, G


def group_of(B, W):
    """Orthogonal matrices of the isometries; vectors are rows, R acts on columns."""
    Bi = np.linalg.inv(B)
    return [(Bi @ (w @ B)).T for w in W]


def match(gs, Rs, flags, msg):
    """Elements gs are exactly the operations Rs x flags."""
    want = [(R, f) for R in Rs for f in flags]
    used = set()
    req(len(gs) == len(want), f'{msg}: {len(gs)} elements, there are {len(want)}')
    for g in gs:
        req(isinstance(g, PointGroupElement), f'{msg}: not a symmetry operation')
        req(g.U is None, f'{msg}: has a unitary part')
        R = rnum(g.R)
        hit = [i for i, (Q, f) in enumerate(want) if f == (bool(g.conjugate), bool(g.antisymmetry)) and Q.shape == R.shape and np.max(np.abs(Q - R)) < 1e-5]
        req(len(hit) == 1, f'{msg}: an element is not an isometry of the lattice')
        req(hit[0] not in used, f'{msg}: an element appears twice')
        used.add(hit[0])


def closure_R(els):
    els = [(np.array(R), c, a) for R, c, a in els]
    out, todo = list(els), list(els)
    while todo:
        x = todo.pop()
        for g in els:
            y = (x[0] @ g[0], x[1] ^ g[1], x[2] ^ g[2])
            if not any(np.max(np.abs(y[0] - z[0])) < 1e-5 and y[1:] == z[1:] for z in out):
                if len(out) > 200:
                    raise Violation('generators do not generate a finite group of at most 192 elements')
                out.append(y)
                todo.append(y)
    return out


def check(case, rec):
    A, B, W, G = lattice(case)
    d = len(A)
    if W is None:
        rec.label('not clear')
        return rec.trivial()
    if len(W) <= 2 and d > 1:
        rec.trivial()
    rec.label(f'{d}D', f'order {len(W)}', case['lat'][0], 'in a larger space' if case['extra'] else '')
    Rs = group_of(B, W)
    if case['extra']:
        # embedded: coordinates are with respect to the orthonormal basis of the plane that makes the periods lower triangular
        e = case['extra']
        Q = orth(case['perm'], d + e)[:d]
        periods = A @ Q
        C = np.linalg.cholesky(A @ A.T)
        O = np.linalg.solve(A, C)         # A O = C
        Rs = [O.T @ R @ O for R in Rs]
    else:
        periods = A
    if case['form'] == 'noise':
        periods = periods * (1 + 1e-12 * rs(case['perm'], 5).normal(size=periods.shape))
    arg = periods.tolist() if case['form'] == 'list' else periods.copy()
    if case['form'] == 'int' and case['scale'] >= 0.1 and np.max(np.abs(periods - np.round(periods))) < 1e-9:
        arg = np.round(periods).astype(int)
        rec.label('integer')
    before = np.array(arg)
    flags = [(False, False)] + [(True, False)] * case['tr'] + [(True, True)] * case['ph'] + [(False, True)] * (case['tr'] and case['ph'])
    got = bravais_point_group(arg, tr=case['tr'], ph=case['ph'], generators=case['generators'])
    req(np.array_equal(before, np.array(arg)), 'periods were modified')
    req(isinstance(got, set), 'result is not a set')
    if case['generators']:
        for g in got:
            req(g.U is None, 'generator has a unitary part')
        els = closure_R([(rnum(g.R), bool(g.conjugate), bool(g.antisymmetry)) for g in got])
        got = [PointGroupElement(R, c, a) for R, c, a in els]
        rec.label('generators')
    match(got, Rs, flags, 'point group')


@P.law(cases(), 5000)
def group(case, rec):
    """The point group is exactly the set of isometries of the lattice, times time reversal and particle-hole symmetry if asked; generators generate it."""
    check(case, rec)


@P.law(cases(extra=(1, 1, 2)), 500)
def embedded(case, rec):
    """For periods in a space of more dimensions it is the group in coordinates of their plane, with lower triangular periods."""
    check(case, rec)


def bravais_type(G, W):
    """Name of the Bravais type from the isometries."""
    d = len(G)
    n = len(W)
    if d == 2:
        if n == 4:
            ax = [axis_vec(w, 1) for w in W if round(np.linalg.det(w)) == -1]
            return 'simple rectangular' if abs(round(np.linalg.det(np.array(ax)))) == 1 else 'centered rectangular'
        return {2: 'oblique', 8: 'square', 12: 'hexagonal'}[n]
    name = {2: 'triclinic', 4: 'monoclinic', 8: 'orthorhombic', 16: 'tetragonal', 12: 'rhombohedral', 24: 'hexagonal', 48: 'cubic'}[n]
    order = {2: 2, 4: 2, 8: 2, 16: 4, 48: 4}.get(n)
    if n in (2, 12, 24):
        return name
    axes = []
    for w in W:
        if round(np.linalg.det(w)) == 1 and order_of(w) == order:
            v = axis_vec(w, 1)
            if not any(np.array_equal(v, x) or np.array_equal(v, -x) for x in axes):
                axes.append(v)
    if n in (4, 16):
        v, = axes
        # index of axis plus perpendicular plane: the heights of lattice points over the plane are v.G.e / |v|
        h = [v @ G @ e for e in np.eye(d)]
        hmin = real_gcd(h)
        idx = round(v @ G @ v / hmin)
        return {1: 'primitive ', 2: {4: 'base centered ', 16: 'body centered '}[n]}[idx] + name
    idx = abs(round(np.linalg.det(np.array(axes))))
    if idx == 1:
        return 'primitive ' + name
    if idx == 4:
        return 'face centered ' + name
    s = np.sum(axes, axis=0)
    return ('body centered ' if not np.any(s % 2) else 'base centered ') + name


def real_gcd(h):
    h = [abs(x) for x in h if abs(x) > 1e-6 * max(abs(y) for y in h)]
    while len(h) > 1:
        m = min(h)
        h = [m] + [x % m for x in h if x is not m]
        h = [x for x in h if 1e-4 * m < x < m * (1 - 1e-4)] + [m]
    return h[0]


def order_of(w):
    x, k = w, 1
    while not np.array_equal(x, np.eye(len(w))):
        x, k = x @ w, k + 1
    return k


def axis_vec(w, ev):
    """Primitive integer vector v (row) with v w = v."""
    m = sympy.Matrix((w.T - ev * np.eye(len(w), dtype=int)).astype(int).tolist())
    v, = m.nullspace()
    den = sympy.ilcm(*[x.q for x in v])
    v = [int(x * den) for x in v]
    g = math.gcd(*v)
    return np.array([x // g for x in v])


@P.law(cases(), 700)
def name(case, rec):
    """With verbose the name of the Bravais lattice is printed; the group does not depend on it."""
    A, B, W, G = lattice(case)
    if W is None or len(A) == 1:
        return rec.trivial()
    if len(W) <= 2:
        rec.trivial()
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        got = bravais_point_group(A, verbose=True)
    t = bravais_type(G, W)
    rec.label(t)
    match(got, group_of(B, W), [(False, False)], 'point group')
    req(out.getvalue().strip() == t, f'name printed is {out.getvalue().strip()}, lattice is {t}')


@P.law(st.tuples(st.integers(4, 5), seeds), 40)
def unsupported(case, rec):
    """More than three periods raise NotImplementedError, more periods than space dimensions ValueError."""
    d, s = case
    A = orth(s, d)
    raises(NotImplementedError, lambda: bravais_point_group(A), 'lattices in more than three dimensions are accepted')
    raises(ValueError, lambda: bravais_point_group(A[:3, :2]), 'dependent periods are accepted')
