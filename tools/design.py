"""Writes DESIGN.md from its hand-written parts (below), the harness modules' BOUNDS, known_findings.txt and seeded/*/meta.json."""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOW = {
 'C01': ('get_rank_bounds, OcgDist, create_slices run with symbolic lengths; the oracle is the partition itself (bounds adjoin, lengths add up, balance within one), and the number of workers used is stated in closed form.', 5),
 'C02': ('Each simulated worker (symex/ranks.py) runs the real code on a dimension whose local sizes are symbolic; the parts are concatenated and compared with the slice of the whole by integer arithmetic. Scatter, gather and redistribution by source index use symbolic values and files of the netCDF model.', 100),
 'C03': ('Dimension slices with symbolic start, stop, length and source offset; oracle: the clipping rule of Python slices as linear arithmetic, and numpy.arange(...)[index] for concrete index kinds.', 23),
 'C04': ('Variables and collections with symbolic values and masks; indices enumerated by S.choice inside the path, oracle: `take` (pure Python on nested lists).', 17),
 'C05': ('get_between on symbolic values, bounds and range; oracle: elementwise membership. All paths of the comparison masks are forked by the engine.', 8),
 'C06': ('set_mask on collections with symbolic masks; oracle: alignment by dimension name written as nested loops.', 3),
 'C07': ('Box subsets of grids with symbolic coordinates and cells; oracle: interval arithmetic on every cell.', 30),
 'C08': ('Masks as symbolic booleans; oracle: first and last unmasked row per axis as formulas. Several workers are simulated.', 10),
 'C09': ('Symbolic longitudes; oracle: same value modulo 360, range, order of data. Box subsets compare selected meridians modulo 360.', 9),
 'C10': ('Symbolic ascending longitudes with one jump; oracle: the permutation is read off the coordinates and must be the one applied to everything.', 7),
 'C11': ('Symbolic monotonic coordinates; oracle: closed formulas.', 2),
 'C12': ('Symbolic coordinates; oracle: closed formulas and round trips.', 3),
 'C13': ('Symbolic coordinates, buffers and masks; oracle: every destination cell in exactly one chunk and every source cell that meets a chunk selected; decompositions with symbolic jitter.', 66),
 'C14': ('Files of chunks and weights through the netCDF model with symbolic rows, columns, factors; oracle: a linear map applied chunk by chunk equals the merged map.', 10),
 'C15': ('Symbolic dates (year, month, day as integers with a Python stand-in for datetime); oracle: equal keys iff same group, bounds are the extremes.', 50),
 'C16': ('As C15, for seasons; oracle: month membership, contiguous runs for unique seasons.', 43),
 'C17': ('As C15, for requests of months and years, values symbolic.', 7),
 'C18': ('Symbolic numbers of months; oracle: calendar arithmetic by divmod 12.', 29),
 'C19': ('Statistics run through the real calculation engine on symbolic data and group assignments; oracle: loops over unmasked members.', 6),
 'C20': ('As C19 with symbolic thresholds.', 4),
 'C21': ('Symbolic series and thresholds; oracle: run lengths by recursion over the steps.', 45),
 'C22': ('Symbolic temperatures; oracle: an independent accumulation with the documented rule.', 190),
 'C23': ('Symbolic series, kernels, masks; oracle: the window sum written out.', 20),
 'C24': ('Tile schemas with symbolic sizes; tiled computations through the netCDF model compared with the computation of the whole.', 16),
 'C25': ('Symbolic arrays; oracle: loops over named positions.', 5),
 'C26': ('Expressions evaluated by the real code on symbolic data; oracle: the same expression on scalars, cell by cell (exp, log uninterpreted).', 28),
 'C27': ('Every notation of an index is formatted by the code and applied to symbolic contents; oracle: Python lists.', 7),
 'C28': ('Symbolic connectivity, coordinates; simulated workers with late messages; oracle: coordinates looked up element by element before and after.', 60),
 'C29': ('Records of symbolic variables compared with loops over positions.', 2),
 'C30': ('Stacking and assigning symbolic arrays; oracle: nested-list concatenation and assignment.', 180),
 'C31': ('Symbolic points and rectangles; oracle: the predicate as interval arithmetic for every element, one or two workers.', 254),
 'C33': ('Symbolic data, masks and areas; oracle: sum of w*x over sum of w in exact arithmetic.', 7),
 'C34': ('Every combination of entries by S.choice, values symbolic; oracle: equality after the round trip and unchanged inputs.', 8),
 'C36': ('The same selections with reading before, between or after them, through the netCDF model, values symbolic.', 130),
 'C37': ('OcgOperations.execute compared with the documented sequence of single steps written in the harness on nested lists.', 17),
 'C40': ('Write and read back through the netCDF model, values and masks symbolic; replays use the real library.', 9),
 'C43': ('The same OcgOperations on 1 and on 2-3 simulated workers; results gathered and compared; a schedule that blocks is reported as a deadlock.', 14),
 'C44': ('Affine stand-ins for the unit libraries, values symbolic; oracle: the affine rule and exact round trips.', 60),
 'C46': ('Symbolic times, cells, ranges (dates as days since an origin), picked positions, months and years; oracle: membership step by step. Requests and operations through the netCDF model.', 80),
 'C45': ('Histories of changes by S.choice; oracle: dates computed from current values, units, calendar with no cache.', 10),
}
TOP = '''# Solver-based checking of ocgis

(written by tools/design.py)

## Method

`symex/` is a symbolic execution engine for the real Python code in `/repo/src/ocgis`. Nothing is translated ahead of
time: each run imports the current tree and executes its functions on proxy objects.

* `engine.py` - symbolic integers, reals and booleans (Z3 terms). Whenever the code under test needs the truth of a
  symbolic condition (an `if`, a comparison inside numpy sorting, a mask built from a comparison, an index) Z3 decides which
  outcomes are possible and the path forks; paths are explored depth-first by re-execution on an incremental solver stack.
  Integers used as indices fork over all feasible values; more than 300 of them are reported as undecided after four.
* `arrays.py` - `SymArray`, a real `numpy.ndarray` with object storage: indexing, slicing, broadcasting, copying are numpy's
  own; element arithmetic, comparisons, reductions and float allocations are symbolic. `NpShim` replaces the module global
  `np` of ocgis modules only while a symbolic path runs.
* `session.py` - the harness interface (`S.int/real/bool/choice/reals/mask/assume/check`). Every `S.check` is a solver query
  "is there any input on this path that falsifies it". The same harness runs on plain ints/floats/arrays with nothing
  patched. That concrete mode is used (a) for one model of explored paths, as validation of the symbolic semantics
  (`traces_validated_against_impl`), (b) to confirm each counterexample before a VIOLATION is printed.
* `runner.py` - explores all (harness, structural parameter) pairs of one property in parallel, writes evidence.
* `fakenc.py` - an in-memory model of the netCDF4 library (dimensions, variables, groups, fill values, automatic masking,
  scaling off, character arrays, unlimited dimensions) that keeps symbolic values. Replays use the real library on real
  files in a scratch directory; a path whose concrete run differs between model and library is a violation of the model
  and is reported as such, so the model is validated on every run. MFDataset, MFTime and VLEN types are refused.
* `ranks.py` - simulated workers: `run(P, f)` runs `f(rank)` on P threads, one at a time, each with its own state of
  `ocgis.vm`; communicator calls (bcast, gather, scatter, reduce, Barrier, Create, (I)send/(I)recv, Iprobe, Test, Cancel)
  hand the turn to another worker. Collective calls complete when all members made the same call; a mismatch or a
  state in which nobody can go on is a `Deadlock`. `order` picks the next worker, `late` makes a message invisible to a
  probe for a while. The real library (mpi4py with Open MPI) was used by hand to confirm the findings of C28 and C43.

Stand-ins used in symbolic runs only: shapely predicates on points and boxes (`harness/geo.py`), dates as triples of integers
(`harness/dates.py`), unit and calendar conversions as affine maps (`harness/units_common.py`), areas of boxes. Each is
validated by the concrete replays, which use the libraries.

Verdicts: a property *holds within the bounds* when every path was explored and every query answered "no counterexample".
A counterexample that reproduces concretely is a VIOLATION (exit 1) with a replay file (`./check ID --replay FILE`). A
path the engine cannot follow, a solver `unknown`, a counterexample that does not reproduce, or an exhausted budget is
UNDECIDED: printed, counted in the evidence (`exhaustive: false`), and never called success; paths the engine cannot follow
are additionally run on a few concrete members. On the unchanged tree every quick check is exhaustive with 0 undecided.
A replay that takes more than 40 s is a violation ("no answer"): endless loops show this way.
A harness in which no path reaches an assertion is reported as vacuous (error exit): this is the reachability witness.

Assumptions common to all checks: floats are modelled as exact reals (rounding, overflow, NaN arithmetic outside; paths are
also run on floats); numpy's index machinery, `numpy.ma` bookkeeping and CPython are trusted; sizes are bounded as stated in
each harness (`BOUNDS`), values are not.

Budgets: a quick check stops exploring after 480 s (all finish well before: the seconds below are for 8 cores); the thorough
tier raises the bounds stated as "thorough" and allows an hour. Which tasks a tier has is in `tasks(tier)` of each harness.
'''
END = '''
## Not applicable

* **C41** coordinate transformations: the transformation is PROJ/GDAL compiled code with transcendental arithmetic; nothing within
  reach of an SMT encoding decides it.
* **C42** regridding: done by the ESMF library, which is compiled and not installed here. What ocgis itself contributes (chunks,
  weight files, corner layouts) is C12, C13, C14 and C28.

## False alarms met while building, and what was done

* Masks of bounds stay when the mask of their variable is removed; the first statement of C06 said otherwise and was narrowed to
  what the code promises (masks grow).
* Masked times of calendars other than the standard one are refused by cf_units: outside of C44.
* numpy.ma's division masks quotients that overflow: denominators are 0 or at least 1e-6 in C26.
* The netCDF library (1.5.8) fills byte variables like the others; the model did not: model corrected, found by replays of C40.
* Geometry identifiers in tables are numbered by each worker: not part of C43.
* `CFRotatedPole` cannot be constructed with the installed PROJ: outside of C09.
* The edge cells of irregular axes need not contain their coordinate (mean spacing is documented): outside of C11.
* `stack` of GeometryVariables gives a plain Variable: types of geometry variables are outside of C30.
* Expressions over operands with different extra dimensions are truncated by `zip`: refused elsewhere, outside of C26.

## Defects

Genuine defects found by these checks are in known_findings.txt: the ones repaired as "fixed:" with their commit in /repo, the ones
recorded as "finding:". The recorded ones are not repaired because a repair would change the interface: an explicit integer
type of a variable would have to change with its units (C44), and slicing ESMF meshes needs a redesign of how the node
coordinates follow their elements (C28).
'''


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('BOUNDS', 'OUTSIDE', 'ASSUMPTIONS'):
            v = ast.literal_eval(n.value)
            out[n.targets[0].id] = '; '.join(v) if isinstance(v, (list, tuple)) else v
    return out


def main():
    out = [TOP, '\n## Properties\n']
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    for p in props:
        files = glob.glob(os.path.join(HERE, 'harness', p['id'].lower() + '_*.py'))
        if not files:
            continue
        how, cost = HOW[p['id']]
        c = consts(files[0])
        out.append(f"### {p['id']} {p['title']}\n\n{how}\n\n* Harness: `harness/{os.path.basename(files[0])}`; quick check about {cost} s.")
        out.append(f"* Bounds: {c.get('BOUNDS')}.")
        if 'OUTSIDE' in c:
            out.append(f"* Outside: {c['OUTSIDE']}.")
        if 'ASSUMPTIONS' in c:
            out.append(f"* Assumed: {c['ASSUMPTIONS']}.")
        out.append(f"* Why tests cannot: {p['why_tests_cant']}\n")
    out.append(END)
    out.append('\n## Planted bugs\n\nEach was written from the property and the code, and is caught by the check of its property'
               ' (`tools/seedcheck.sh ID`) unless said otherwise.\n\n| id | property | what it breaks | caught |\n|---|---|---|---|')
    for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        m = json.load(open(f))
        out.append(f"| {f.split('/')[-2]} | {m['property']} | {m['what_it_breaks']} | {m.get('caught', 'yes')} |")
    notes = os.path.join(HERE, 'tools', 'mutants.md')
    if os.path.exists(notes):
        out.append('\n' + open(notes).read().rstrip())
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')


main()
