"""C08: printed names identify the operation."""
import re

from .lib import *
from qsymm.groups import pretty_print_pge, pretty_print_cgg, PrettyList

P = Property('C08', 'cases: operations with rotation angles that are fractions of pi (denominator up to 24) or generic, axes that are '
             'small integer vectors or generic, all flags, with and without unitary, printed short or full, as text or LaTeX, and '
             'generators; non-trivial: rotation part is not the identity')


@st.composite
def geoms(draw):
    d = draw(st.sampled_from([1, 2, 2, 3, 3, 3]))
    den = draw(st.sampled_from([1, 2, 3, 4, 6, 5, 8, 12, 24, 7, 50]))
    return {'d': d, 'num': draw(st.integers(-2 * den, 2 * den)), 'den': den, 'inv': draw(st.booleans()),
            'axis': draw(st.one_of(st.lists(st.integers(-1, 1), min_size=3, max_size=3).filter(any),
                                   st.lists(st.sampled_from([1, -2, 3, 0.5, -0.25, 0, 5]), min_size=3, max_size=3).filter(any), seeds)),
            'generic': draw(st.sampled_from([False, False, False, True])), 'ang': draw(st.floats(-3.1, 3.1).map(lambda x: round(x, 3)))}


def geometry(c):
    """(R, exact axis?)"""
    t = c['ang'] if c['generic'] else math.pi * c['num'] / c['den']
    if c['d'] == 1:
        return np.array([[-1.0 if c['inv'] else 1.0]]), True
    ax = vec(c['axis'], 3) if isinstance(c['axis'], int) else np.array(c['axis'], float)
    if c['d'] == 2:
        if not c['inv']:
            return rot2(t), not c['generic']
        n = ax[:2] if np.any(ax[:2]) else np.array([1.0, 1.0])
        n = n / np.linalg.norm(n)
        return np.eye(2) - 2 * np.outer(n, n), bool(np.all(np.isin(np.round(n * 2 ** .5, 9), [1, -1])) or np.all(np.isin(np.round(n, 9), [0, 1, -1])))
    ints = not isinstance(c['axis'], int) and set(map(float, c['axis'])) <= {0.0, 1.0, -1.0}
    R = rot3(ax, t)
    return (-R if c['inv'] else R), ints and not c['generic']


def angle(s):
    """Parse an angle, text or LaTeX."""
    s = s.replace(' ', '').replace(r'\pi', 'π')
    m = re.fullmatch(r'(-?)\\frac\{(\d*)π\}\{(\d+)\}', s) or re.fullmatch(r'(-?)(\d*)π(?:/(\d+))?', s)
    req(m is not None, f'angle is not readable: {s}')
    return (-1 if m.group(1) else 1) * (int(m.group(2)) if m.group(2) else 1) * math.pi / int(m.group(3) or 1)


def axis(s, n):
    s = s.strip()
    req(s.startswith('[') and s.endswith(']'), f'axis is not readable: {s}')
    v = np.array([float(x) for x in s[1:-1].replace(',', ' ').split()])
    req(len(v) == n and np.linalg.norm(v) > 0, f'axis has the wrong number of components: {s}')
    return v / np.linalg.norm(v)


def rot_of(name, d):
    """Rotation matrix that the name stands for."""
    name = name.replace(r'\left', '').replace(r'\right', '').strip()
    if name == '1':
        return np.eye(d)
    if name == 'I':
        return -np.eye(d)
    m = re.fullmatch(r'([RMS])\((.*)\)', name)
    req(m is not None, f'rotation is not readable: {name}')
    k, arg = m.groups()
    if k == 'M':
        n = axis(arg, d)
        return np.eye(d) - 2 * np.outer(n, n)
    if d == 2:
        req(k == 'R', f'{k} is not a name in 2D')
        return rot2(angle(arg))
    req(d == 3, f'name {name} in {d}D')
    a, ax = arg.split(',', 1)
    R = rot3(axis(ax, 3), angle(a))
    return R if k == 'R' else -R


def matrix(s, n, latex, tol, want):
    num = r'([+-]?\s*\d+\.?\d*(?:e[+-]?\d+)?)\s*([+-]\s*\d+\.?\d*(?:e[+-]?\d+)?)\s*j'
    if latex:
        m = re.search(r'\\begin\{bmatrix\}(.*)\\end\{bmatrix\}', s, re.S)
        req(m is not None, 'matrix is not readable')
        rows = [r for r in m.group(1).split('\\\\') if r.strip()]
        req(len(rows) == n, f'{len(rows)} rows printed, expected {n}')
        vals = [re.findall(num, r) for r in rows]
        req(all(len(r) == n for r in vals), 'number of columns printed is wrong')
        vals = [x for r in vals for x in r]
    else:
        vals = re.findall(num, s)
    req(len(vals) == n * n, f'{len(vals)} matrix entries printed, expected {n * n}')
    M = np.array([complex(float(a.replace(' ', '')), float(b.replace(' ', ''))) for a, b in vals]).reshape(n, n)
    req(diff(M, want) <= tol, f'printed matrix differs from the unitary by {diff(M, want):.3g}')


AZ = {'': (0, 0), 'T': (1, 0), 'P': (1, 1), 'C': (0, 1)}


@st.composite
def ops(draw):
    return {'g': draw(geoms()), 'c': draw(st.booleans()), 'a': draw(st.booleans()), 'U': draw(maybe_seeds), 'n': draw(st.integers(1, 4)),
            'latex': draw(st.booleans()), 'form': draw(st.sampled_from(['float', 'float', 'taf']))}


def tolerance(R, exact):
    # fractions of pi with denominator up to 100, axes rounded to two decimals
    return 1e-6 if exact else 0.08


@P.law(ops(), 5000)
def short_names(case, rec):
    """The short name gives back the rotation (angle as fraction of pi, axis or normal) and the T, P, C flag."""
    R, exact = geometry(case['g'])
    d = len(R)
    g = PointGroupElement(ta.array(R.tolist(), float) if case['form'] == 'taf' else R, case['c'], case['a'],
                          None if case['U'] is None else mat(case['U'], case['n'], kind='unitary'))
    if np.allclose(R, np.eye(d)):
        rec.trivial()
    latex = case['latex']
    s = pretty_print_pge(g, latex=latex)
    if case['n'] == 1:
        s = g._repr_latex_() if latex else s
    if latex:
        req(s[0] == '$' and s[-1] == '$', 'LaTeX name without $')
        s = s[1:-1]
        for x in 'TPC':
            s = s.replace(rf'\mathcal{{{x}}}', x)
    m = re.fullmatch(r'(.*?)\s*([TPC]?)', s.strip(), re.S)
    name, az = m.groups()
    rec.label(f'{d}D', s[0], 'exact' if exact else 'generic')
    req(AZ[az] == (int(case['c']), int(case['a'])), f'name {s!r} for conjugate {case["c"]}, antisymmetry {case["a"]}')
    name = name.strip() or '1'
    same(rot_of(name, d), R, f'name {s!r} stands for another rotation', tolerance(R, exact), scale=0)
    if np.allclose(R, -np.eye(d)) and d != 2:
        req(name == 'I', f'inversion is called {name}')
    if np.allclose(R, np.eye(d)):
        req(name == '1', f'identity is called {name}')


@P.law(ops(), 2500)
def full_names(case, rec):
    """The full name states the action on the Hamiltonian, the rotation, and the unitary to the printed precision."""
    R, exact = geometry(case['g'])
    d, n = len(R), case['n']
    U = None if case['U'] is None else mat(case['U'], n, kind='unitary')
    g = PointGroupElement(R, case['c'], case['a'], U)
    if np.allclose(R, np.eye(d)):
        rec.trivial()
    latex = case['latex']
    s = pretty_print_pge(g, full=True, latex=latex)
    if not latex:
        req(str(g) == s, 'str is not the full name')
    rec.label('latex' if latex else 'text', 'U' if U is not None else 'no U')
    if latex:
        s = s.strip('$').replace('{{', '{').replace('}}', '}').replace(r'\mathbf{k}', 'k').replace('^*', '*').replace('^{-1', '^-1')
        m = re.match(r'U H\(k\)(\*?) U\^-1\}? = (-?)H\((-?)R\s?k\) *\\\\R = (.*?)\\\\(?:U = (.*))?$', s, re.S)
    else:
        m = re.fullmatch(r'\s*U⋅H\(k\)(\*?)⋅U\^-1 = (-?)H\((-?)R⋅k\)\nR = (.*?)\n(?:U = (.*))?', s, re.S)
    req(m is not None, f'name is not readable: {s!r}')
    star, sign, ksign, rot, um = m.groups()
    req(bool(star) == case['c'] and bool(ksign) == case['c'], f'conjugation is misstated: {s!r}')
    req(bool(sign) == case['a'], f'sign is misstated: {s!r}')
    same(rot_of(rot, d), R, f'name {rot!r} stands for another rotation', tolerance(R, exact), scale=0)
    if U is None:
        req(not um, 'unitary printed though unset')
    else:
        req(bool(um), 'unitary not printed')
        matrix(um, n, latex, 0.0081 if latex else 0.0008, U)


@st.composite
def gens(draw):
    return {'d': draw(st.sampled_from([None, 2, 3, 3])), 'axis': draw(st.one_of(
        st.lists(st.integers(-1, 1), min_size=3, max_size=3), st.lists(st.sampled_from([1, -2, 3, 0.5, -0.25, 0]), min_size=3, max_size=3), seeds)),
        'U': draw(st.sampled_from(['none', 'zero', 'set', 'set', 'set'])), 's': draw(seeds), 'n': draw(st.integers(1, 4)), 'latex': draw(st.booleans())}


@P.law(gens(), 2500)
def generators(case, rec):
    """The name of a generator states the symmetry, the rotation axis with its orientation, and the conserved quantity."""
    ax = vec(case['axis'], 3) if isinstance(case['axis'], int) else np.array(case['axis'], float)
    R = None
    if case['d'] == 3:
        R = np.tensordot(ax, L3, (0, 0))
    elif case['d'] == 2:
        R = ax[0] * np.array([[0, -1j], [1j, 0]])
    n = case['n']
    U = {'none': None, 'zero': np.zeros((n, n)), 'set': mat(case['s'], n, kind='herm') + 0.5 * np.eye(n)}[case['U']]
    if U is not None and np.max(np.abs(U)) < 0.01:
        U = U * 0
    g = ContinuousGroupGenerator(R, U)
    hasR, hasU = R is not None and np.any(R), U is not None and np.any(np.abs(U) > 1e-12)
    if not hasR and not hasU:
        rec.trivial()
    latex = case['latex']
    s = pretty_print_cgg(g, latex=latex)
    req(s == (g._repr_latex_() if latex else str(g)), 'representation is not the name')
    rec.label('R' if hasR else 'no R', 'U' if hasU else 'no U', 'latex' if latex else 'text')
    t = s.strip('$').replace('{{', '{').replace('}}', '}').replace(r'\phi', 'ϕ').replace(r'\mathbf{k}', 'k').replace(r'\left', '').replace(r'\right', '')
    flat = re.sub(r'\s+', '', t.split('L = ')[0])
    if hasR:
        req(re.search(r'H\(k\)\S*=H\(R_\{?ϕ\}?⋅?k', flat) is not None, f'action on the Hamiltonian is not stated: {s!r}')
        req(('-iϕL' in flat) == bool(hasU), f'action on the Hilbert space is misstated: {s!r}')
        m = re.search(r'R_\{?ϕ\}? ?= ?R\(ϕ(?:, (\[[^\]]*\]))?\)', t)
        req(m is not None, f'rotation is not stated: {s!r}')
        if case['d'] == 3:
            req(m.group(1) is not None, f'axis is not stated: {s!r}')
            u = ax / np.linalg.norm(ax)
            same(axis(m.group(1), 3), u, f'axis is misstated in {s!r}', 0.012, scale=0)
        else:
            req(m.group(1) is None, f'axis stated in 2D: {s!r}')
    else:
        req('[H(k),L]=0' in flat, f'conservation law is not stated: {s!r}')
        req('R_' not in t, f'rotation stated without rotation: {s!r}')
    if hasU:
        req('L = ' in t, f'conserved quantity is not printed: {s!r}')
        body = s.split('L = ', 1)[1]
        real = not np.iscomplexobj(U)
        if not real:
            matrix(body, n, latex, 0.0081 if latex else 0.0008, U) if np.max(np.abs(U)) < 50 else None
    else:
        req('L = ' not in t, f'conserved quantity printed without one: {s!r}')


@P.law(st.lists(st.tuples(R_specs(3), st.booleans(), st.booleans()), min_size=1, max_size=4), 300)
def lists(case, rec):
    """A list of operations is displayed as the names of its members in order."""
    gs = [PointGroupElement(R_make(R), c, a) for R, c, a in case]
    s = PrettyList(gs)._repr_latex_()
    req(s[0] == '$' and s[-1] == '$', 'not LaTeX')
    names_ = [pretty_print_pge(g, latex=True).strip('$') for g in gs]
    req(s.strip('$').split(r'\\') == names_, f'list displayed as {s}')
    if len(gs) < 2:
        rec.trivial()
