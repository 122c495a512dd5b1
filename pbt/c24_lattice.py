"""C24: lattice reduction, closest vectors and Voronoi cells."""
import itertools

from qsymm.kwant_linalg_lll import cvp, gs, is_c_reduced, lll, voronoi

from .lib import *

P = Property('C24', 'cases: lattice bases of 1-4 vectors in up to 5 dimensions, with integer, symmetric or random vectors and in skewed bases; oracle: brute force over '
             'lattice points in a box that provably contains the answer; non-trivial: at least two vectors, and the basis is changed by the reduction, the point is not '
             'a lattice point, or the Voronoi cell is not a box')


@st.composite
def cases(draw, dmax=4, skew=4):
    d = draw(st.sampled_from([2, 3, 2, 3, 1, 4][:5 if dmax < 4 else 6]))
    kind = draw(st.sampled_from(['int', 'int', 'sym', 'random', 'random', 'long']))
    return {'d': d, 'kind': kind, 'ents': draw(st.lists(st.integers(-4, 4), min_size=d * d, max_size=d * d)), 'seed': draw(seeds), 'extra': draw(st.sampled_from([0, 0, 1, 2])),
            'rot': draw(st.booleans()), 'uni': draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3), st.integers(-3, 3)), max_size=skew)),
            'scale': draw(st.sampled_from([1, 1, 1, 0.01, 50])), 'form': draw(st.sampled_from(['array', 'list']))}


SYM = {1: [np.eye(1)], 2: [np.eye(2), np.array([[1, 0], [.5, math.sqrt(3) / 2]]), np.diag([1, 2.])],
       3: [np.eye(3), np.array([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]]), np.array([[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]]), np.diag([1, 1, 2.5]),
           np.array([[1, 0, 0], [.5, math.sqrt(3) / 2, 0], [0, 0, 1.3]])],
       4: [np.eye(4), np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [.5, .5, .5, .5]])]}


def basis(case, skew=True):
    d = case['d']
    if case['kind'] in ('int', 'long'):
        B = np.array(case['ents'], float).reshape(d, d)
        B = B + (5 if case['kind'] == 'long' else 2) * np.eye(d)
        if case['kind'] == 'long':
            B[0] *= 7
    elif case['kind'] == 'sym':
        B = SYM[d][case['seed'] % len(SYM[d])].copy()
    else:
        B = rs(case['seed'], 1).normal(size=(d, d)) + 0.5 * np.eye(d)
    if abs(np.linalg.det(B)) < 0.1 * (np.max(np.abs(B)) ** d) ** 0.5:
        B = B + 8 * np.eye(d)
    if skew:
        for i, j, n in case['uni']:
            if i % d != j % d:
                B[i % d] += n * B[j % d]
    e = case['extra']
    if e or case['rot']:
        B = B @ np.linalg.qr(rs(case['seed'], 2).normal(size=(d + e, d + e)))[0][:d]
    return B * case['scale']


def good(B):
    return np.linalg.cond(B) < 300


@P.law(st.tuples(cases(skew=8), st.sampled_from([1.34, 1.34, 1.513, 2.0717, 4.0319])), 6000)
def reduction(case, rec):
    """lll returns a basis of the same lattice with integer unimodular coefficients, and it is c-reduced."""
    case, c = case
    B = basis(case)
    if not good(B):
        return rec.trivial()
    d = len(B)
    before = B.copy()
    vecs, coefs = lll(B.tolist() if case['form'] == 'list' else B, c) if c != 1.34 else lll(B.tolist() if case['form'] == 'list' else B)
    req(np.array_equal(B, before), 'basis was modified')
    req(np.asarray(coefs).dtype.kind == 'i' and np.shape(coefs) == (d, d), 'coefficients are not a square integer matrix')
    req(np.shape(vecs) == B.shape, f'reduced basis has shape {np.shape(vecs)}')
    same(vecs, np.asarray(coefs).T @ B, 'reduced basis is not the given combination of the basis', 1e-8)
    req(abs(abs(round(np.linalg.det(coefs))) - 1) == 0, 'reduced basis spans another lattice')
    # Gram-Schmidt
    Q = np.linalg.qr(np.asarray(vecs).T)[1]
    r = np.diag(Q) ** 2
    req(np.all(r[:-1] < c * r[1:] * (1 + 1e-9)), 'basis is not reduced')
    if d < 2 or np.array_equal(np.abs(coefs), np.eye(d)):
        rec.trivial()
    rec.label(f'{d} vectors', case['kind'], f'c = {c}')
    # Gram-Schmidt decomposition
    g = gs(np.asarray(vecs))
    want = np.array([np.asarray(vecs)[i] - (np.asarray(vecs)[:i].T @ np.linalg.lstsq(np.asarray(vecs)[:i].T, np.asarray(vecs)[i], rcond=None)[0] if i else 0) for i in range(d)])
    same(g, want, 'Gram-Schmidt decomposition', 1e-7)
    req(is_c_reduced(np.asarray(vecs), c * 1.000001), 'is_c_reduced rejects the reduced basis')
    if d > 1:
        m = np.max(r[:-1] / r[1:])
        req(not is_c_reduced(np.asarray(vecs), m * 0.999), 'is_c_reduced accepts a basis that is not reduced')


def box(B, dist):
    """Ranges of coefficients of all lattice points within dist of the origin."""
    inv = np.linalg.inv(B @ B.T)
    return np.floor(dist * np.sqrt(np.diag(inv)) + 1e-9).astype(int)


@P.law(st.tuples(cases(skew=2), st.sampled_from(['random', 'half', 'zero', 'lattice', 'third', 'far', 'off']), st.integers(1, 9), st.booleans(), st.sampled_from([1e-9, 1e-9, 1e-5])), 4000)
def closest(case, rec):
    """cvp returns the n closest lattice points in order of distance, or all points at the n shortest distances."""
    case, kind, n, group, rtol = case
    B = basis(case)
    if not good(B) or np.linalg.cond(B) > 30:
        return rec.trivial()
    d = len(B)
    r = rs(case['seed'], 6)
    x = {'random': r.uniform(-1, 1, d), 'half': r.randint(-2, 3, d) / 2, 'zero': np.zeros(d), 'lattice': r.randint(-3, 4, d).astype(float), 'third': r.randint(-4, 5, d) / 3,
         'far': r.uniform(-20, 20, d), 'off': r.uniform(-1, 1, d)}[kind]
    v = x @ B
    if kind == 'off' and B.shape[1] > d:
        # outside of the plane of the lattice: closest to the projection
        y = r.normal(size=B.shape[1])
        v = v + (y - y @ np.linalg.pinv(B) @ B) * case['scale']
    if d == 4:
        n = min(n, 5)
    got = cvp(v.tolist() if case['form'] == 'list' else v, B.tolist() if case['form'] == 'list' else B, n, group_by_length=group, rtol=rtol)
    req(np.asarray(got).dtype.kind == 'i' and np.ndim(got) == 2 and np.shape(got)[1] == d, 'result is not a list of integer coefficients')
    # brute force: everything inside a ball that certainly contains enough points
    g0 = np.asarray(got)
    dist_got = np.linalg.norm((g0 - x) @ B, axis=1)
    R = np.max(dist_got) * 1.001 + 1e-3 * case['scale']
    k = box(B, R) + 1
    c0 = np.round(x).astype(int)
    if np.prod(2 * k + 1.) > 3e5:
        rec.label('too many points')
        return rec.trivial()
    pts = np.array(list(itertools.product(*[range(c - q, c + q + 1) for c, q in zip(c0, k)])))
    ds = np.linalg.norm((pts - x) @ B, axis=1)
    o = np.argsort(ds)
    pts, ds = pts[o], ds[o]
    req(len({tuple(p) for p in g0.tolist()}) == len(g0), 'a lattice point is returned twice')
    sc = case['scale']
    req(np.all(np.diff(dist_got) > -1e-7 * sc), 'points are not ordered by distance')
    rec.label(f'{d} vectors', kind, 'grouped' if group else f'n = {n}')
    if d < 2 or kind in ('zero', 'lattice') and n == 1:
        rec.trivial()
    if not group:
        req(len(g0) == n, f'{len(g0)} points returned instead of {n}')
        same(dist_got, ds[:n], 'distances are not the shortest ones', 1e-7, sc)
        return
    gaps = np.diff(ds[ds < R])
    # unclear groups
    if np.any((gaps > 1e-11 * sc) & (gaps < 1e-3 * sc)):
        rec.label('unclear groups')
        return rec.trivial()
    levels = []
    for i, t in enumerate(ds):
        if not levels or t - levels[-1] > 1e-4 * sc:
            levels.append(t)
        if len(levels) > n:
            break
    req(dist_got[-1] <= levels[n - 1] + 1e-6 * sc, 'more than n distances are returned') if len(levels) >= n else None
    want = {tuple(p) for p, t in zip(pts.tolist(), ds) if t <= dist_got[-1] + 1e-6 * sc}
    req({tuple(p) for p in g0.tolist()} == want, 'not all points at the shortest distances are returned')
    lv = 1 + int(np.sum(np.diff(dist_got) > 1e-4 * sc))
    req(lv == n, f'{lv} distances are returned instead of {n}')


def cosets(B):
    d = len(B)
    out = {}
    for c in itertools.product((0, 1), repeat=d):
        if not any(c):
            continue
        c = np.array(c)
        R = np.linalg.norm(c @ B)
        k = box(B, R) + 1
        if np.prod(2 * k + 1.) > 2e5:
            return None
        pts = np.array(list(itertools.product(*[range(-q, q + 1) for q in k])))
        pts = pts[np.all((pts - c) % 2 == 0, axis=1)]
        ds = np.linalg.norm(pts @ B, axis=1)
        m = ds.min()
        out[tuple(c.tolist())] = (pts[ds < m * (1 + 1e-7)], m, np.any((ds > m * (1 + 1e-7)) & (ds < m * (1 + 1e-2))))
    return out


@P.law(st.tuples(cases(skew=2), st.booleans()), 2500)
def cell(case, rec):
    """voronoi gives one shortest vector of every class of the lattice modulo twice the lattice, and its negative; reduced, exactly the faces of the Voronoi cell."""
    case, reduced = case
    B = basis(case)
    if not good(B) or np.linalg.cond(B) > 30:
        return rec.trivial()
    d = len(B)
    co = cosets(B)
    if co is None:
        rec.label('too many points')
        return rec.trivial()
    if reduced and any(x[2] for x in co.values()):
        rec.label('small faces')
        return rec.trivial()
    got = np.asarray(voronoi(B.tolist() if case['form'] == 'list' else B, reduced=reduced))
    req(got.dtype.kind == 'i' and got.ndim == 2 and got.shape[1] == d and len(got) % 2 == 0, 'result is not a list of integer coefficients')
    h = len(got) // 2
    req(np.array_equal(got[h:], -got[:h]), 'second half is not the negative of the first half')
    faces = {c: v for c, v in co.items() if len(v[0]) == 2}
    rec.label(f'{d} vectors', case['kind'], f'{2 * len(faces)} faces', 'reduced' if reduced else 'all')
    if d < 2 or len(faces) == d and len(faces) == len(co):
        rec.trivial()
    seen = set()
    for v in got[:h]:
        c = tuple((v % 2).tolist())
        req(any(c), 'vector is twice a lattice vector')
        req(c not in seen, 'two vectors of the same class')
        seen.add(c)
        req(any(np.array_equal(v, w) for w in co[c][0]), 'vector is not the shortest one of its class')
    if reduced:
        req(seen == set(faces), f'{2 * len(seen)} faces of the Voronoi cell found, it has {2 * len(faces)}')
    else:
        req(len(seen) == 2 ** d - 1, f'{2 * len(seen)} vectors returned instead of {2 * (2 ** d - 1)}')


@P.law(seeds, 60)
def invalid(seed, rec):
    """Bases that are not two-dimensional arrays, and for lll too many vectors, raise ValueError."""
    raises(ValueError, lambda: lll(rs(seed).normal(size=3)), 'lll accepts a vector')
    raises(ValueError, lambda: lll(rs(seed).normal(size=(3, 2))), 'lll accepts dependent vectors')
    raises(ValueError, lambda: cvp(np.zeros(2), rs(seed).normal(size=2)), 'cvp accepts a vector as basis')
    raises(ValueError, lambda: voronoi(rs(seed).normal(size=2)), 'voronoi accepts a vector as basis')
