"""Writes DESIGN.md from the text below, the laws in pbt/, known_findings.json and seeded/ (run by hand)."""
import ast
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''# Property-based testing of qsymm

qsymm is a pure Python library that finds symmetries of Hamiltonians and generates Hamiltonians from symmetries.  Everything it computes is a function of
its inputs (no state on disk, no concurrency, no network), and almost every statement a user relies on is a universally quantified equation between values that
can be evaluated independently: *for every* Hamiltonian, symmetry, basis, representation and option.  That makes generated-input search against explicit oracles
the natural technique for all of it; no property is listed as not applicable.

## 1. How a check works

* `pbt/cNN_*.py` holds the laws of one property.  A *law* is a Hypothesis strategy for **case descriptions** (plain JSON: integers, lists, strings, seeds for matrices),
  plus a deterministic function `law(case, rec)` that builds the objects from the description, calls qsymm, and compares with the oracle (`req`, `same`, `raises`).
  A case is the whole input; nothing else is random.  `rec.label(...)` records the distribution, `rec.trivial()` marks cases that are trivial by the rule stated
  in the property's header (written to evidence with counts and samples).
* `pbt/core.py` runs the laws: derandomized Hypothesis (seed from `VERIF_SEED`, property, law and shard; the number of cases is a fixed budget per tier split into shards on 8
  processes), shrinks a failure with Hypothesis, writes the shrunk case to `evidence/replays/<ID>-<law>.json` and prints `VIOLATION property=<ID> replay=<path>`.
  `run.py --property ID --replay FILE` runs one saved case without Hypothesis.  Each case has a time limit (100 s quick; normal cases take well below 2 s), so that a hang is
  reported as a violation; a soft budget stops new cases if the machine is very slow.  `known_findings.json` is only read.
* The tiers differ in the number of cases (quick: 5-60 s on 8 cores; thorough: 20 times as many cases with other seeds, so deeper by volume).
* The code under test is imported from `/repo` (or `VERIF_REPO`) on every run; qsymm needs no build.  `PYTHONHASHSEED=0` and one BLAS thread make runs reproducible.
* Checks judge values only: no source text is examined, no private attribute is required unless it is what the property is about (helper functions named in the anchors).  They read
  results at sample points, compare as sets or spans where the library may choose a basis, and accept any of the documented exceptions for invalid input.
* Tolerances: cases are constructed so that decisions are not near a tolerance of the code (entries of order one, singular values either < 1e-10 or > 1e-2), and `same` compares to
  1e-8..1e-10 relative to the scale of the terms that enter.  Where the tolerance itself is the subject (C14, C18, C25, C26) cases are constructed at known multiples of it.

Shared generators: `pbt/lib.py` (reference symmetry operations `Ref`, Models from term lists with an independent evaluation at points, unitaries, rotations of the cubic, hexagonal
and generic kind in integer, sympy and float representation, projective Pauli unitaries), `pbt/families.py` (real span and rank comparisons of families on sample points),
`pbt/symham.py` (Hamiltonians built of symmetric blocks with given multiplicity in a random basis).

## 2. Properties

'''
TXT = {
'C01': ('a reference operation `Ref` (R as Fraction/float/sympy matrix, flags, U as numpy array) composed by the definition: R1 R2, U1 U2 or U1 U2*, xor of flags. Words up to length 8, dimension 0-3, exponents -7..7, skewed integer bases.',
        'sampled words cover all pairs of flag combinations, of representations (int, float, sympy) and of set/unset U, which the fixed generators of the tests do not.'),
'C02': ('the matrix `± U H(±R^-1 k)^(*) U^+` evaluated with numpy from the term list that built the Model, at random momenta and parameters.', 'tests apply symmetries to Hamiltonians that have them, for which wrong rotation direction, missing conjugation of coefficients or wrong order are mostly invisible.'),
'C03': ('`1j [H, U] + dH/dk (1j R k)` with sympy-free derivative of the term list; in addition central differences along the orbit.', 'see C02; sign and order errors cancel for invariant Hamiltonians.'),
'C04': ('breadth-first enumeration of words with `Ref` operations; all subgroups by closure of subsets. Groups up to order 96, subgroup lists up to 48 elements.', 'tests compare orders of few groups.'),
'C05': ('Rodrigues formula, reflections and standard spin matrices; groups enumerated from signed permutations / C6v words with all options.', 'options multiply: angle representation, axis, dimension, spin, U, tr, ph, generators, sympy_R.'),
'C06': ('spin matrices from ladder operators; `R` from Rodrigues, representation property up to sign; orbitals as harmonic polynomials evaluated on the sphere.', 'tests use one spin and check commutation only.'),
'C07': ('block placement written directly with numpy.', 'no property of products of such operators is tested.'),
'C08': ('a parser of the printed name (text and LaTeX) that gives back the operation; angles compared as fractions, axes as directions, unitaries at the printed precision.', 'the tests never look at names.'),
'C09': ('the same program of operations on numpy matrices at sample points.', 'bugs of arithmetic need particular pairs of formats, keys and orders of operands.'),
'C10': ('an independent evaluator of the random syntax tree that printed the expression.', 'tests parse few strings.'),
'C11': ('value at the substituted point, computed from the term list.', 'collision of substituted keys, momenta that disappear and numerical exponentials need particular combinations.'),
'C12': ('evaluation of the term list; sympy expressions evaluated with `evalf`.', 'formats x exports is a product the tests sample in two places.'),
'C13': ('hopping vectors and coefficients that the expression was made of; evaluation at points.', 'hopping vectors that agree up to rounding and accesses in unusual order are not tested.'),
'C14': ('the outcome is fixed by construction: entries differ by known multiples (0.01..0.5 or 2..1000) of the tolerance.', 'the tests compare equal Models only.'),
'C15': ('null space (SVD) of the symmetry conditions on all Hermitian polynomial matrices with allowed powers, imposed at random momenta, over the reals.', 'completeness is a statement about all symmetric Hamiltonians; tests compare few dimensions.'),
'C16': ('as C15 for `Delta(k) = -+Delta(-k)^T` and `U Delta U^T = phase Delta`.', 'as C15.'),
'C17': ('null space of the symmetry conditions on all Hermitian hopping Hamiltonians on the orbit of the given hoppings.', 'as C15; orbits with overlapping hoppings and with hoppings mapped to their reverse are the difficult cases.'),
'C18': ('ranks and projections of values at random points, arithmetic of the construction.', 'as C15.'),
'C19': ('for every candidate the linear space of solutions of U H = H\' U on all coefficients (SVD) and an invertible element of it by random combination decide whether it is a symmetry.', 'the blocks, their multiplicities and exchanges and the basis decide which branch of the finder runs; tests sample few of them.'),
'C20': ('commutant of all coefficients by SVD; irreducibility and inequivalence of blocks by dimension of commutant and intertwiners.', 'as C19.'),
'C21': ('linear system for rotation axis and Hilbert space part on coefficients of the full Hamiltonian by SVD.', 'as C19.'),
'C22': ('random 3x3 matrices in place of the operators, in the order of the syntax tree that printed the expression.', 'the tests parse commuting expressions.'),
'C23': ('all integer matrices preserving the Gram matrix by enumeration of vectors of the lengths of the basis vectors.', 'tests use one parameter set per Bravais type.'),
'C24': ('brute force over boxes of lattice points that provably contain the answer (from the smallest singular value); Voronoi-relevance by the class criterion.', 'no tests exist.'),
'C25': ('null spaces known by construction, SVD of the equations in real coordinates.', 'sparse algorithms depend on shape, rank and degeneracy.'),
'C26': ('constructed spectra, exact row reduction with `fractions`, definitions in numpy.', 'only indirect tests.'),
'C27': ('symmetry conditions, allowed components by projection, signs of determinants and Pfaffians, moments with 7 standard deviations at fixed seeds (so the outcome is reproducible).', 'used by the tests as a source of data only.'),
'C28': ('the original: equality, hash, classes, values, lookups and computed results of the copy; the original read again after the copy was modified, and in the other direction; a second Python process that reads pickles.', 'no test copies or pickles anything.'),
'C29': ('the same call in a forked process that has computed nothing; results described as data (bases as spans, groups as sets). After each call of the history its results and mutable arguments are overwritten.', 'a cache with an incomplete key, a shared default or a returned internal array only shows for particular sequences of calls.'),
'C30': ('the round trip itself: membership of the Hamiltonian in the regenerated family by projection, equal sets of symmetries of Hamiltonian and generic member (having a symmetry is an algebraic condition, so the generic member cannot have more).', 'each test of the finder uses one Hamiltonian and a known answer.'),
}
TAIL = open(os.path.join(ROOT, 'tools', 'design_tail.md')).read() if os.path.exists(os.path.join(ROOT, 'tools', 'design_tail.md')) else ''


def laws(path):
    tree = ast.parse(open(path).read())
    head = ''
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'P':
            head = n.value.args[1].value
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and ast.unparse(d.func) == 'P.law':
                    yield n.name, ast.unparse(d.args[1]), ' '.join((ast.get_docstring(n) or '').split())
    yield None, head, None


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    o = [HEAD]
    for p in props:
        i = p['id']
        f = glob.glob(os.path.join(ROOT, 'pbt', i.lower() + '_*.py'))[0]
        ls = list(laws(f))
        oracle, why = TXT[i]
        o.append(f"### {i}: {p['title']}\n\n{p['statement']}\n\n* Over: {p['quantifier']['text']}.\n* Generated {ls[-1][1]}.\n* Oracle: {oracle}\n* Why the tests cannot decide it: {why}\n"
                 f"* Anchors: {'; '.join(m['name'] + ' (' + m['where'] + ')' for m in p['anchors']['mechanism'])}.\n* Laws in `pbt/{os.path.basename(f)}` (cases of the quick tier in parentheses):\n")
        for name, n, doc in ls[:-1]:
            o.append(f'  * `{name}` ({n}): {doc}\n')
        o.append('\n')
    o.append(TAIL)
    kf = json.load(open(os.path.join(ROOT, 'known_findings.json')))
    o.append('\n## 5. Genuine defects found and repaired\n\nEach is one `fix:` commit in /repo, found by the check named (or while building it), and reported again by it if it returns.\n\n| property | commit | what failed |\n|---|---|---|\n')
    for x in kf['fixed']:
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', x)
        o.append('| %s | %s | %s |\n' % m.groups())
    o.append('\nOpen findings: ' + (', '.join(map(str, kf['findings'])) or 'none') + '.\n')
    o.append('\n## 6. Planted bugs\n\nWritten from the text of the property and the code; confirmed with `tools/seed.py` (demonstration passes without and fails with the change, all 30 tests pass with it). '
             'The last column says whether the check of the property (quick tier, seed 1) reports it and by which law.\n\n| id | property | needs | what it breaks | caught |\n|---|---|---|---|---|\n')
    res = json.load(open(os.path.join(ROOT, 'tools', 'seed_results.json'))) if os.path.exists(os.path.join(ROOT, 'tools', 'seed_results.json')) else {}
    for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*'))):
        m = json.load(open(d + '/meta.json'))
        n = os.path.basename(d)
        o.append(f"| {n} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {res.get(n, '?')} |\n")
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(''.join(o))


main()
