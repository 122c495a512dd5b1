"""C30: generators of Hamiltonians and finders of symmetries agree."""
from collections import OrderedDict

from qsymm.hamiltonian_generator import bloch_family, continuum_hamiltonian
from qsymm.symmetry_finder import symmetries

from .symham import *
from .c19_discrete import R_form, candidate_ops
from .c19_discrete import cases as discrete_cases
from .c21_rotations import cases as rotation_cases
from .c21_rotations import make, real_rank_R

P = Property('C30', 'cases: Hamiltonians made of blocks with symmetries, repeated, related by operations or with broken symmetries, in a random basis, and symmetry groups '
             'with representations; found symmetries are given to the generator, generated Hamiltonians to the finder; non-trivial: there are symmetries besides the identity '
             'and the family has members')


def value(data, kind, lat, k, n):
    """Value of {k or vector: matrix} at a point."""
    out = np.zeros((n, n), complex)
    for q, M in data.items():
        if kind == 'bloch':
            out += M * np.exp(1j * k @ (BAS[lat] @ np.array(q, float)))
        else:
            out += M * np.prod([x ** e_ for x, e_ in zip(k, q)])
    return out


def sampled(f, dim):
    return realify(np.concatenate([f(x).reshape(-1) for x in points_of(dim)]))


def points_of(dim):
    return [rs(41, i, dim).uniform(-1.3, 1.3, dim) for i in range(12)]


def family_basis(fam, mom, n):
    d = len(mom)
    return np.array([sampled(lambda x: evalm(m, dict(zip(mom, x)), (n, n)), d) for m in fam]).reshape(len(fam), -1)


def contained(h, fam, mom, what):
    B = family_basis(fam, mom, h.n)
    for c in {k[1] for k in h.data}:
        part = {k[0]: M for k, M in h.data.items() if k[1] == c}
        v = sampled(lambda x: value(part, h.kind, h.lat, x, h.n), h.dim)
        req(len(B) > 0, f'{what} has no members')
        x, *_ = np.linalg.lstsq(B.T, v, rcond=1e-9)
        r = np.max(np.abs(B.T @ x - v))
        req(r < 1e-5 * (1 + np.max(np.abs(v))), f'Hamiltonian is not in the {what} (distance {r:.2g})')


def member(fam, seed, params=((0, 0),)):
    """Generic Hamiltonian in the family, with a member for each monomial of parameters."""
    if len(params) > 1:
        parts = [member(fam, seed + 100 * i) * sympy.Mul(*(sympy.Symbol(s) ** e_ for s, e_ in zip('ab', c))) for i, c in enumerate(params)]
        return sum(parts[1:], parts[0])
    x = rs(seed, 31).uniform(0.4, 1.5, len(fam)) * rs(seed, 32).choice([-1, 1], len(fam))
    out = fam[0] * x[0]
    for m, y in zip(fam[1:], x[1:]):
        out = out + m * y
    return out


def check_found(found, h, tol=1e-6):
    for g in found:
        U = np.asarray(g.U)
        req(close(U @ U.conj().T, np.eye(h.n), tol), 'unitary part is not unitary')


@st.composite
def cases(draw, **kw):
    c = draw(discrete_cases(**kw))
    c.update({'strategy': draw(st.booleans()), 'bloch': draw(st.booleans()), 'pretty': draw(st.integers(0, 3)) == 0, 'seed': draw(seeds), 'cont': draw(st.booleans()), 'cgen': draw(st.booleans())})
    return c


def regenerate(h, syms, case, mom):
    if h.kind == 'bloch':
        B = BASX.get(h.lat)
        vecs = []
        for (k, c) in h.data:
            if any(k) and tuple(k) not in vecs and tuple(-x for x in k) not in vecs:
                vecs.append(tuple(k))
        if not case['strategy']:
            vecs = sorted({tuple(k) for k, c in h.data if any(k)})
        hop = []
        for k in vecs:
            v = [sum(B[i][j] * k[j] for j in range(len(k))) for i in range(len(k))] if B else list(k)
            if case['bloch'] and B:
                v = [float(x) for x in v]
            hop.append(('A', 'A', v))
        return bloch_family(hop, syms, OrderedDict([('A', h.n)]), momenta=mom, symmetrize=case['strategy'], prettify=False, bloch_model=case['bloch'])
    return continuum_hamiltonian(syms, h.dim, max([sum(k) for k, c in h.data] + [0]), momenta=mom)


@P.law(cases(nmax=4, dims=(1, 2, 2, 3)), 400)
def regenerated(case, rec):
    """The family generated from the symmetries and conserved quantities found in a Hamiltonian contains it, and its generic member has the same
    symmetries and conserved quantities, no more and no fewer."""
    h = Ham(case['h'])
    if not h.data or not h.clear or h.n == 0:
        return rec.trivial()
    if h.kind == 'bloch' and len(h.data) ** 2 * h.n ** 2 > 260:
        case['bloch'] = False       # BlochModels with many terms are slow
    cls = case['cls'] if h.kind == 'bloch' else 'Model'
    m = h.model(cls)
    ops = candidate_ops(case)
    exact = h.kind == 'bloch'
    if exact and len(ops) > 6:
        ops = ops[:6] if h.lat.startswith('hex') else ops[:12]
    if any(h.is_symmetry(o) is None for o in ops) or h.commutant() is None:
        return rec.trivial()
    form = case['form']
    cand = [PointGroupElement(R_form(o.R, form, h.lat, exact), o.c, o.a, None) for o in ops]
    found, cons = symmetries(m, cand, generators=case['gen'])
    check_found(found, h)
    if len(found) < 2 and not cons:
        rec.trivial()
    if h.kind == 'bloch' and not any(any(k) for k, c in h.data):
        return rec.trivial()        # bloch_family needs a hopping
    if h.kind == 'bloch' and len(h.data) * h.n ** 2 > (24 if h.lat.startswith('hex') else 48):
        return rec.trivial()        # slow
    rec.label(h.kind, h.lat, f'{len(found)} symmetries', f'{len(cons)} conserved', f'N = {h.n}')
    # the size of Hamiltonians without symmetries is not known to the generator
    syms = list(found) + list(cons) or [qsymm.identity(h.dim, h.n)]
    if h.kind == 'bloch' and case['strategy'] and closure_ops([Op.of(g) for g in syms if isinstance(g, PointGroupElement)], 200) is None:
        case['strategy'] = False    # with conserved quantities the unitary parts found may generate an infinite group, averages over it are not possible
    fam = regenerate(h, syms, case, list(h.mom))
    contained(h, fam, list(h.mom), 'family generated from the symmetries found')
    if not fam:
        return rec.trivial()
    g = member(fam, case['seed'], sorted({c for k, c in h.data}))
    found2, cons2 = symmetries(g, [PointGroupElement(x.R, x.conjugate, x.antisymmetry, None) for x in cand], generators=False)
    found1 = symmetries(m, cand, generators=False)[0] if case['gen'] else found
    a, b = {Op.of(x).key(4) for x in found1}, {Op.of(x).key(4) for x in found2}
    req(a <= b, 'generic Hamiltonian with the symmetries found has fewer symmetries according to the finder')
    req(b <= a, 'generic Hamiltonian with the symmetries found has more symmetries according to the finder')
    req(len(cons2) == len(cons), f'generic Hamiltonian has {len(cons2)} conserved quantities instead of {len(cons)}')


@st.composite
def group_cases(draw):
    dim = draw(st.sampled_from([1, 2, 2, 3]))
    lat = draw(st.sampled_from(LATS[dim]))
    blocks = draw(block_specs(4))
    return {'dim': dim, 'lat': lat, 'kind': draw(st.sampled_from(['poly', 'poly', 'bloch'])), 'blocks': blocks, 'vseed': draw(maybe_seeds),
            'gens': draw(st.lists(st.tuples(st.integers(0, 47), st.booleans(), st.booleans(), seeds).map(list), min_size=1, max_size=2)), 'form': draw(st.sampled_from(['int', 'sympy', 'float', 'ta'])),
            'local': draw(st.sampled_from([None, None, None, draw(seeds)])), 'power': draw(st.integers(1, 3)), 'hop': draw(st.lists(st.tuples(*[st.integers(-1, 2)] * dim).map(list), min_size=1, max_size=2)),
            'strategy': draw(st.just(True)), 'bloch': draw(st.booleans()), 'pretty': draw(st.integers(0, 3)) == 0, 'seed': draw(seeds), 'extra': draw(st.lists(st.tuples(st.integers(0, 47), st.booleans(), st.booleans()).map(list), max_size=2))}


@P.law(group_cases(), 400)
def generated(case, rec):
    """The finder finds the symmetries and conserved quantities from which a Hamiltonian was generated, among other candidates, and all of their products."""
    dim, lat, kind, blocks = case['dim'], case['lat'], case['kind'], case['blocks']
    n = sum(t + 1 for t in blocks)
    exact = kind == 'bloch'
    gens = [gen_op(g, lat, blocks) for g in case['gens']]
    V = np.eye(n) if case['vseed'] is None else mat(case['vseed'], n, kind='unitary')
    syms = [PointGroupElement(R_form(o.R, case['form'], lat, exact), o.c, o.a, V @ o.U @ (V.T if o.c else V.conj().T)) for o in gens]
    local = None
    if case['local'] is not None:
        local = V @ np.diag(signs(blocks, case['local'])) @ V.conj().T
        if np.ptp(signs(blocks, case['local'])) == 0:
            local = None
    cont = [] if local is None else [ContinuousGroupGenerator(None, local)]
    mom = ['k_x', 'k_y', 'k_z'][:dim]
    case['pretty'] &= case['vseed'] is None     # echelon forms of generic families are not numerically stable
    orders = {o.key(4): o.R for o in closure_ops([Op(o.R, False, False, None) for o in gens], 96, key=lambda o: o.key(4)) or []}
    if kind == 'bloch':
        rec.label(f'{len(orders)} point group elements')
        vecs = {tuple(np.round(s * R @ BAS[lat] @ np.array(k, float), 4) + 0.0) for k in case['hop'] for R in orders.values() for s in (1, -1)}
        if not orders or len(vecs) // 2 * n ** 2 > (48 if lat.startswith('hex') else 108):
            return rec.trivial()        # slow
    elif math.comb(case['power'] + dim, dim) * n ** 2 > 200:
        return rec.trivial()        # slow
    if kind == 'bloch':
        B = BASX.get(lat)
        hop = []
        for k in case['hop']:
            v = [sum(B[i][j] * k[j] for j in range(dim)) for i in range(dim)] if B else list(k)
            hop.append(('A', 'A', [float(x) for x in v] if case['bloch'] and B else v))
        fam = bloch_family(hop, syms + cont, OrderedDict([('A', n)]), momenta=mom, prettify=case['pretty'] and n <= 2, bloch_model=case['bloch'])
    else:
        fam = continuum_hamiltonian(syms + cont, dim, case['power'], momenta=mom, prettify=case['pretty'])
    rec.label(kind, lat, f'{len(fam)} members', f'N = {n}')
    if not fam:
        return rec.trivial()
    m = member(fam, case['seed'])
    ops = closure_ops([Op(o.R, o.c, o.a, None) for o in gens], 48, key=lambda o: o.key(4))
    if ops is None or (exact and lat.startswith('hex') and len(ops) > 12):
        ops = list({o.key(4): Op(o.R, o.c, o.a, None) for o in gens}.values())
    want = {o.key(4) for o in ops}
    if len(want) < 2:
        rec.trivial()
    extra = [Op(R_num([lat, i % SIZE[lat], 'int']), c, a, None) for i, c, a in case['extra']]
    cands = {o.key(4): o for o in ops + extra}
    cand = [PointGroupElement(R_form(o.R, case['form'], lat, exact), o.c, o.a, None) for o in cands.values()]
    found, cons = symmetries(m, cand)
    got = {Op.of(g).key(4): g for g in found}
    req(want <= set(got), f'{len(want - set(got))} of the {len(want)} symmetries from which the Hamiltonian was generated are not found')
    if local is not None:
        Bm = [np.eye(n)] + [np.asarray(c.U) for c in cons]
        req(in_span(realify(local.reshape(-1)), np.array([realify(b.reshape(-1)) for b in Bm]), 1e-5), 'conserved quantity from which the Hamiltonian was generated is not found')
    # the unitary parts found and given differ by conserved unitaries
    for o, s in zip(gens, syms):
        U = np.asarray(got[Op(o.R, o.c, o.a, None).key(4)].U)
        W = np.asarray(s.U) @ U.conj().T
        for i in range(4):
            H = evalm(m, dict(zip(mom, rs(51, i).uniform(-1, 1, dim))), (n, n))
            req(np.max(np.abs(W @ H - H @ W)) < 1e-5 * (1 + np.max(np.abs(H))), 'unitary parts given and found are not related by a conserved unitary')
    # regenerated from what was found
    if kind == 'poly' and case['seed'] % 2:
        again = continuum_hamiltonian(list(found) + list(cons), dim, case['power'], momenta=mom)
        Bm = family_basis(again, mom, n)
        v = sampled(lambda x: evalm(m, dict(zip(mom, x)), (n, n)), dim)
        req(len(Bm) and in_span(v, Bm, 1e-5), 'Hamiltonian is not in the family generated from the symmetries found in it')


@P.law(rotation_cases(nmax=4, dims=(2, 3, 2)), 250)
def rotations(case, rec):
    """The same with continuous rotations: the family generated from the rotations and conserved quantities found in a Hamiltonian contains it, and its
    generic member has the same number of rotations and conserved quantities."""
    h = make(case)
    if not h.data or not h.clear or h.n == 0 or max(sum(k[0]) for k in h.data) > 2:
        return rec.trivial()
    if h.commutant() is None:
        return rec.trivial()
    sc = case['scale']
    h.data = {k: M / sc for k, M in h.data.items()}
    from .c21_rotations import rotations as count
    if count(h, 1) is None:
        return rec.trivial()
    m = h.model()
    _, gens = symmetries(m, set(), continuous_rotations=True)
    rot = [g for g in gens if g.R is not None and np.max(np.abs(np.asarray(g.R))) > 1e-6]
    cons = [g for g in gens if g.R is None]
    req(len(rot) + len(cons) == len(gens), 'generators without rotation and without conserved quantity')
    rec.label(f'{h.dim}D', f'{len(rot)} rotations', f'{len(cons)} conserved', f'N = {h.n}')
    if not rot:
        rec.trivial()
    mom = list(h.mom)
    power = max(sum(k[0]) for k in h.data)
    fam = continuum_hamiltonian(gens or [qsymm.identity(h.dim, h.n)], h.dim, power, momenta=mom)
    contained(h, fam, mom, 'family generated from the continuous symmetries found')
    if not fam:
        return
    g = member(fam, 7, sorted({c for k, c in h.data}))
    _, gens2 = symmetries(g, set(), continuous_rotations=True)
    rot2 = [x for x in gens2 if x.R is not None and np.max(np.abs(np.asarray(x.R))) > 1e-6]
    req(len(rot2) == len(rot), f'generic Hamiltonian with the symmetries found has {len(rot2)} rotations instead of {len(rot)}')
    req(len(gens2) == len(gens), f'generic Hamiltonian with the symmetries found has {len(gens2) - len(rot2)} conserved quantities instead of {len(cons)}')
    req(real_rank_R(rot2) == len(rot2) if rot2 else True, 'dependent rotations')
