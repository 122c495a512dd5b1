"""C04: group generation."""
import itertools

from .lib import *
from qsymm.groups import generate_group, generate_subgroups, set_multiply

P = Property('C04', 'cases: generator sets of finite groups (square, cubic, hexagonal rotations as integers, exact or floating '
             'point; time reversal, particle-hole, chiral flags; optional projective Pauli or permutation unitaries, compared or '
             'not); non-trivial: the group has at least 3 elements')


@st.composite
def gens(draw, maxgens=3, big=True):
    lat = draw(st.sampled_from(['one', 'sq', 'hex2', 'cu', 'hex3'] if big else ['one', 'sq', 'sq', 'hex2', 'cu', 'hex3']))
    form = {'one': ['int', 'float'], 'sq': ['int', 'float', 'ta', 'sympy'], 'cu': ['int', 'float', 'ta', 'sympy'],
            'hex2': ['sympy', 'float', 'taf'], 'hex3': ['sympy', 'float']}[lat]
    form = draw(st.sampled_from(form))
    kind = draw(st.sampled_from(['none', 'pauli', 'perm', 'pauli2']))
    strict = draw(st.booleans()) if kind != 'none' else False
    els = draw(st.lists(st.tuples(st.integers(0, 47), st.booleans(), st.booleans(), st.integers(0, 15)), min_size=draw(st.sampled_from([2, 2, 3, 1])), max_size=maxgens))
    size = {'one': 2, 'sq': 8, 'hex2': 12, 'cu': 48, 'hex3': 24}[lat]
    return {'lat': lat, 'form': form, 'U': kind, 'strict': strict, 'gens': [[i % size, c, a, u] for i, c, a, u in els]}


PERMS = [np.eye(3)[list(p)] for p in itertools.permutations(range(3))]


def unitary(kind, u):
    if kind == 'none':
        return None
    if kind == 'pauli':
        return PAULI[u % 4]
    if kind == 'pauli2':
        return np.kron(PAULI[u // 4], PAULI[u % 4])
    return PERMS[u % 6].astype(complex)


def canon(U):
    """Canonical form of a unitary up to a phase."""
    f = np.asarray(U, complex).ravel()
    i = int(np.argmax(np.abs(f) > 1e-6))
    f = f * (abs(f[i]) / f[i])
    return tuple(np.round(f.real, 5) + 0.0) + tuple(np.round(f.imag, 5) + 0.0)


def key(r, strict):
    return r.key(4) + ((canon(r.U),) if strict and r.U is not None else ())


def closure(ops, strict, cap=1000):
    els = {key(o, strict): o for o in ops}
    todo = list(els.values())
    while todo:
        x = todo.pop()
        for g in ops:
            y = x * g
            k = key(y, strict)
            if k not in els:
                if len(els) >= cap:
                    return None
                els[k] = y
                todo.append(y)
    return els


def make(case):
    gs, refs = [], []
    for i, c, a, u in case['gens']:
        R, U = [case['lat'], i, case['form']], unitary(case['U'], u)
        gs.append(PointGroupElement(R_make(R), c, a, U, _strict_eq=case['strict']))
        refs.append(Op(R_num(R), c, a, U))
    return gs, refs


def check_set(got, want, strict, msg):
    """got: set of operations, want: dict of reference operations."""
    ks = [key(Op.of(g), strict) for g in got]
    req(len(set(ks)) == len(ks), f'{msg}: {len(ks)} elements, but only {len(set(ks))} different ones')
    req(set(ks) == set(want), f'{msg}: {len(ks)} elements, expected {len(want)}')


@P.law(gens(), 5000)
def generated_group(case, rec):
    """generate_group gives exactly the closure: every element once, with identity and inverses, closed under products."""
    gs, refs = make(case)
    want = closure(refs, case['strict'])
    if want is None or len(want) > 400:
        return rec.trivial()
    if len(want) < 3:
        rec.trivial()
    rec.label(case['lat'], f"order {len(want)}", f"U {case['U']}", 'strict' if case['strict'] else 'not strict')
    inp = set(gs)
    n = len(inp)
    group = generate_group(inp)
    req(len(inp) == n and all(any(g is h for h in gs) for g in inp), 'set of generators modified')
    check_set(group, want, case['strict'], 'generated group')
    if case['U'] != 'none' and not case['strict']:
        # unitary part of every element is one that a word in the generators gives
        full = closure(refs, True)
        for g in group:
            req(g.U is not None, 'unitary part of a group element is missing')
            req(key(Op.of(g), True) in full, 'unitary part of a group element is not a product of those of the generators')
    for g in gs:
        req(g in group, 'generator is not in the group')
        req(g.inv() in group and g.identity() in group, 'inverse or identity is not in the group')
    req(generate_group(group) == group if len(group) <= 12 else True, 'group generated by a group is not the group')


@P.law(st.tuples(gens(), gens()), 2500)
def products_of_sets(case, rec):
    """set_multiply gives exactly the products of elements of one with elements of the other."""
    a, b = case
    b = dict(a, gens=[[g[0] % {'one': 2, 'sq': 8, 'hex2': 12, 'cu': 48, 'hex3': 24}[a['lat']]] + g[1:] for g in b['gens']])
    (ga, ra), (gb, rb) = make(a), make(b)
    if len(ga) * len(gb) < 2:
        rec.trivial()
    want = {key(x * y, a['strict']): 1 for x in ra for y in rb}
    check_set(set_multiply(set(ga), set(gb)) if not a['strict'] else set_multiply(ga, gb), want, a['strict'], 'product of sets')
    rec.label(a['lat'])


def all_subgroups(els, strict):
    """All subgroups from the multiplication table, as frozensets of indices."""
    keys = list(els)
    idx = {k: i for i, k in enumerate(keys)}
    n = len(keys)
    T = [[idx[key(els[x] * els[y], strict)] for y in keys] for x in keys]

    def close(s):
        s = set(s)
        while True:
            new = {T[i][j] for i in s for j in s} - s
            if not new:
                return frozenset(s)
            s |= new
    cyc = {close({i}) for i in range(n)}
    subs, todo = set(cyc), list(cyc)
    while todo:
        s = todo.pop()
        for i in range(n):
            if i not in s:
                t = close(s | {i})
                if t not in subs:
                    subs.add(t)
                    todo.append(t)
    return keys, subs


@P.law(gens(big=False), 2000)
def subgroups(case, rec):
    """generate_subgroups lists every subgroup of a group exactly once, each with a generating set."""
    gs, refs = make(case)
    want = closure(refs, case['strict'], 50)
    if want is None or len(want) > (16 if case['form'] == 'sympy' or case['U'] != 'none' else 48):
        # take the cyclic group of the first generator instead
        gs, refs = gs[:1], refs[:1]
        want = closure(refs, case['strict'], 50)
    if len(want) < 3:
        rec.trivial()
    group = generate_group(set(gs))
    keys, subs = all_subgroups(want, case['strict'])
    rec.label(f'order {len(want)}', f'{len(subs)} subgroups')
    before = set(group)
    res = generate_subgroups(group)
    req(group == before, 'group modified')
    got = {}
    for sg, gen in res.items():
        s = frozenset(key(Op.of(g), case['strict']) for g in sg)
        req(len(s) == len(sg), 'subgroup contains an element twice')
        req(s not in got, 'subgroup listed twice')
        got[s] = 1
        c = closure([Op.of(g) for g in gen], case['strict'])
        req(c is not None and frozenset(c) == s, f'listed generators do not generate the subgroup of order {len(s)}')
    exp = {frozenset(keys[i] for i in s) for s in subs}
    missing, extra = exp - set(got), set(got) - exp
    req(not missing, f'{len(missing)} subgroups missing, of orders {sorted(len(s) for s in missing)[:6]}')
    req(not extra, f'{len(extra)} of the sets listed are not subgroups')


@st.composite
def product_gens(draw):
    """Groups with many subgroups: products of flags, signs and Pauli matrices."""
    els = draw(st.lists(st.tuples(st.integers(0, 7), st.booleans(), st.booleans(), st.integers(0, 3)), min_size=2, max_size=4))
    return {'lat': 'sq', 'form': 'int', 'U': draw(st.sampled_from(['none', 'pauli'])), 'strict': True,
            'gens': [[[0, 1, 2, 3, 0, 3, 1, 2][i], c, a, u] for i, c, a, u in els]}


@P.law(product_gens(), 250)
def subgroups_of_products(case, rec):
    """The same for abelian and Pauli groups with many subgroups."""
    if case['U'] == 'none':
        case['strict'] = False
    subgroups(case, rec)


@st.composite
def large_gens(draw):
    """Groups of at least 24 elements."""
    lat, size = draw(st.sampled_from([('cu', 48), ('cu', 48), ('hex2', 12)]))
    els = draw(st.lists(st.tuples(st.integers(0, size - 1), st.booleans(), st.booleans()), min_size=2, max_size=3))
    flags = draw(st.sampled_from([0, 1, 2])) if lat == 'cu' else 2
    return {'lat': lat, 'form': draw(st.sampled_from(['int', 'float', 'ta'] if lat == 'cu' else ['float', 'taf'])), 'U': 'none', 'strict': False,
            'gens': [[i, c and flags > 0, a and flags > 1, 0] for i, c, a in els]}


@P.law(large_gens(), 150)
def subgroups_of_large_groups(case, rec):
    """The same for groups with up to 48 elements, where a subgroup may need more generators than the group."""
    subgroups(case, rec)
