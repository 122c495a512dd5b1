"""C07: symmetry operators from site permutations."""
from collections import OrderedDict

from .lib import *
from qsymm.groups import symmetry_from_permutation

P = Property('C07', 'cases: 1-5 sites with 1-3 orbitals and integer, string or tuple labels, any permutation among sites of equal '
             'size, onsite actions per site, common or none; non-trivial: the permutation or an onsite action is not the identity')

LABELS = {'int': lambda i: i, 'rev': lambda i: 10 - i, 'str': lambda i: 'cab ed'[i], 'tup': lambda i: (i % 2, -i), 'mixed': lambda i: [0, 'a', (1, 2), 'b', 7][i]}


@st.composite
def lattices(draw):
    ns = draw(st.integers(1, 5))
    norb = draw(st.lists(st.integers(1, 3), min_size=ns, max_size=ns)) if draw(st.booleans()) else [draw(st.integers(1, 3))] * ns
    return {'norbs': norb, 'perm': draw(st.permutations(range(ns))), 'perm2': draw(st.permutations(range(ns))),
            'lab': draw(st.sampled_from(list(LABELS))), 'on': draw(st.sampled_from(['none', 'dict', 'dict', 'one'])), 's': draw(seeds),
            'cont': draw(st.sampled_from(['od', 'tuple', 'list', 'dict'])), 'R': draw(R_specs(2)), 'R2': draw(R_specs(2)),
            'flags': [draw(st.booleans()), draw(st.booleans())], 'order': draw(st.permutations(range(ns)))}


def legal(perm, norbs):
    """Turn any permutation into one among sites with equal numbers of orbitals."""
    out = {}
    for n in set(norbs):
        sites = [i for i in range(len(norbs)) if norbs[i] == n]
        img = sorted(sites, key=lambda i: perm[i])
        out.update(zip(sites, img))
    return out


def onsite(case, norbs, which):
    if case['on'] == 'one' and len(set(norbs)) > 1:
        return {i: mat(case['s'] + 31 * i + which, n, kind='unitary') for i, n in enumerate(norbs)}, 'dict'
    if case['on'] == 'none':
        return {i: np.eye(n) for i, n in enumerate(norbs)}, 'none'
    if case['on'] == 'one':
        U = mat(case['s'] + which, norbs[0], kind='unitary')
        return {i: U for i in range(len(norbs))}, 'one'
    return {i: mat(case['s'] + 31 * i + which, n, kind='unitary') for i, n in enumerate(norbs)}, 'dict'


def full(perm, on, norbs):
    """Orbital b of site a goes to site perm[a], with the onsite action."""
    off = np.cumsum([0] + list(norbs))
    U = np.zeros((off[-1],) * 2, complex)
    for a, n in enumerate(norbs):
        for b in range(n):
            for c in range(n):
                U[off[perm[a]] + c, off[a] + b] = on[a][c, b]
    return U


def call(case, perm, on, form, R):
    norbs = case['norbs']
    lab = LABELS[case['lab']]
    items = [(lab(i), n) for i, n in enumerate(norbs)]
    nb = {'od': OrderedDict(items), 'tuple': tuple(items), 'list': items, 'dict': dict(items)}[case['cont']]
    p = {lab(i): lab(perm[i]) for i in case['order']}
    kw = {} if form == 'none' else {'onsite_action': on[0] if form == 'one' else {lab(i): on[i] for i in case['order']}}
    c, a = case['flags']
    return symmetry_from_permutation(R, p, nb, antiunitary=c, antisymmetry=a, **kw)


@P.law(lattices(), 6000)
def permutation(case, rec):
    """The unitary moves the orbitals of every site to its image, with the onsite action of the site; flags and R as given."""
    norbs = case['norbs']
    perm = legal(case['perm'], norbs)
    on, form = onsite(case, norbs, 0)
    want = full(perm, on, norbs)
    if np.allclose(want, np.eye(len(want))):
        rec.trivial()
    rec.label(form, f'{len(norbs)} sites', 'involution' if all(perm[perm[i]] == i for i in perm) else 'longer cycle')
    g = call(case, perm, on, form, R_make(case['R']))
    check_op(g, Op(R_num(case['R']), *case['flags'], want), 'symmetry from permutation')
    same(g.U @ g.U.conj().T, np.eye(len(want)), 'not unitary')


@P.law(lattices(), 1500)
def composition(case, rec):
    """Products of such operators are the operators of the composed permutations and onsite actions."""
    norbs = case['norbs']
    p, q = legal(case['perm'], norbs), legal(case['perm2'], norbs)
    (u, form), (v, _) = onsite(case, norbs, 0), onsite(case, norbs, 500)
    if all(q[p[i]] == p[q[i]] for i in p):
        rec.label('commuting')
    c = case['flags'][0]
    R, Q = [case['R'][0], case['R'][1], 'float'], [case['R2'][0], case['R2'][1], 'float']
    g, h = call(case, p, u, form, R_make(R)), call(case, q, v, form, R_make(Q))
    # first h, then g
    pq = {a: p[q[a]] for a in q}
    on = {a: u[q[a]] @ (v[a].conj() if c else v[a]) for a in q}
    check_op(g * h, Op(R_num(R) @ R_num(Q), False, False, full(pq, on, norbs)), 'product of permutation symmetries')
    if norbs == [1]:
        rec.trivial()


@P.law(st.tuples(lattices(), st.sampled_from(['missing', 'extra', 'doubled', 'size'])), 500)
def invalid(case, rec):
    """Inconsistent permutations or images of different size raise ValueError."""
    case, what = case
    norbs = list(case['norbs'])
    ns = len(norbs)
    lab = LABELS[case['lab']]
    perm = dict(enumerate(case['perm']))
    rec.label(what)
    if what == 'size':
        moved = [i for i in perm if perm[i] != i]
        if not moved:
            return rec.trivial()
        norbs = [2] * ns
        norbs[moved[0]] = 1
    else:
        norbs = [norbs[0]] * ns
    items = {lab(i): n for i, n in enumerate(norbs)}
    p = {lab(a): lab(b) for a, b in perm.items()}
    if what == 'missing':
        del p[lab(0)]
    elif what == 'extra':
        p['other'] = 'other'
    elif what == 'doubled':
        if ns == 1:
            return rec.trivial()
        p[lab(0)] = p[lab(1)]
    raises(ValueError, lambda: symmetry_from_permutation(np.eye(2), p, items), f'inconsistent permutation ({what}) is accepted')
