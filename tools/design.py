"""Writes DESIGN.md: the text below, the rules of each property with measured
costs, the repaired defects and the table of planted bugs."""
import glob
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, HERE + '/tools')
from props import PROPS, NA
from engine import main as mn

HEAD = '''# Design

## What decides a property

Every claimed property is decided by one static analysis of the source under
/repo, with a set of written rules per property. The analysis is a **global
value numbering** of whole call trees: an abstract interpretation whose domain
is the value-dependence graph. Nothing in /repo is imported or run, and no
input values are chosen. Only the standard library of Python is used (`ast`).

* **Abstract values** (engine/terms.py) are hash-consed expression terms over
  named inputs ("the column flash_area of the dataset", "the option s"). Terms
  are kept in a normal form: sums and products as polynomials, conditions as
  ordered decision diagrams, sequences as segments (single items, guarded
  items, and "one item per row"), string building as pieces, array stores as
  updates. Two spellings of one computation get the same value number.
* **Transfer functions** (engine/interp.py) walk each function's syntax tree
  once per call with a flow-sensitive heap (dicts, lists, objects, array views,
  generators, closures, coroutines). States are **joined at every merge
  point**. Paths are never enumerated and no solver is involved. A loop over
  data is summarised in one pass, as a mapping, a filter, a fold, or a grouped
  collection. A loop that fits none of these becomes the unknown value.
* **Library models** (engine/models.py) give the meaning of the numpy, pandas,
  xarray, netCDF, pyclipper and scipy calls that the package makes. Whatever has
  no model stays an uninterpreted operation of its operands.
* **Rules** (spec/*.py) are written in Python syntax and go through the same
  analysis; they are never run. An obligation names the function to look at,
  gives it abstract inputs and lists what is observed: results, contents of
  containers after the call, writes and calls to the outside, attributes, and
  the condition under which each exception type is raised. The reference
  functions (`@ref`) say what those must be. They are the oracle. They were
  written from the documentation, the GOES-R conventions and the property, not
  derived from the code by a tool.
* **Verdict** (engine/run.py): an observed value holds when both sides have the
  same value number. It is a violation when the value numbers differ and the
  value consists only of operations whose normal form is fully under control or
  that the rule itself uses. The report names the smallest differing parts and
  the line in /repo that made them. Everything else is UNDECIDED: unknown
  values, operations the rule does not relate, names that are gone. UNDECIDED
  is printed and is not an alarm. When no obligation of a property can be
  decided the check exits with 2 rather than claim that it held.

A difference is therefore reported only if the normal form shows it. This is
what keeps the checks quiet on rewrites (see "False alarms").

**Bounds.** Results are for all inputs of the shapes in the rules: any number
of rows, any ids, any values, any option values, unless a section below says
otherwise. Arithmetic is exact real arithmetic, so rounding and overflow of
floats are not seen. Arrays that are stepped through together are taken to be
equally long. Library behaviour is as modelled. Loops over literal tuples are
unrolled. Some rules fix a small count where the code takes a list (two files,
two frames, 2 x 2 tiles), always next to one with a symbolic count where the
summary is possible.

**Cost.** All obligations together take about half a minute on one core, and a
single property takes between 0.3 and 6 s. `--thorough` adds deeper budgets
and a mutation self-test of the rules on the functions of the property.

**Why this reaches what the tests cannot.** The existing tests run nine stable
cases on one sample file in one configuration. The properties quantify over all
files, ids, options and frames. The rules compare the complete dependence of
each output on each input, so a bug that needs an unusual file, option or order
is as visible as any other.

**Anchors.** Rules find functions by qualified name. They follow functions that
move to another module, and objects may gain attributes. When a function,
method or attribute that a rule names no longer exists, that rule is undecided.

## Thorough tier

`python3 check.py <id> --thorough` runs the same obligations with a larger
budget and then applies syntactic mutations (operators, constants, names,
dropped statements, swapped arguments) to the analysed functions in memory.
The evidence records how many of them change a verdict. The mutants are
analysed, never run, and do not influence the exit status.

'''

HOW = {
'C01': 'The result of `reduce_to_entities` is one row selection per level. The rule writes each selection as: ids in request order, then for every level below the rows whose parent is among the selected rows, and for every level above the parents of the selected rows. Three-level and four-level hierarchies are both analysed, for requests at every level. `get_flashes` is tied to the flash level.',
'C02': 'Counts are `[len(group of id) or 0 for id in the id column]` per level, in dataset row order, and replicated ids are chained lookups of the parent id. Checked for all level pairs of a three-level and a four-level tree and for the variables that loading adds.',
'C03': 'The conditions under which levels are empty are part of the value graph (`dimsize == 0`), so all combinations of empty levels are covered in one value. The derived variables and the lookup table are compared under them.',
'C04': 'The report of `check_parent_child` is compared item by item. The dataset after loading is compared as a conditional: pruned iff the report has any entry, with the pruning selection written out. The raise condition of a wrong hierarchy is compared.',
'C05': 'Each energy and area variable after `GLMDataset(...)` is compared as a polynomial in the file variable together with its units attribute, for symbolic values of both switches.',
'C06': 'Same obligations as C05: the repair is a conditional element-wise value in file units inside the scaled one. Encoding constants (scale, offset, fill) are symbolic per variable, so using the constants of another variable is visible.',
'C07': 'The added coordinates are calls of the navigation function with the columns of the same level; the ellipsoid argument is a conditional on the requested revision. The date table is compared as a function of the date.',
'C08': 'The navigation formula is compared as a closed expression in longitude, latitude, satellite longitude and the radii (trigonometric functions uninterpreted), with wrapped longitudes as an element-wise conditional. Input arrays are observed after the call.',
'C09': 'The selected ids are compared as a conjunction of strict comparisons over columns; each option is symbolic or absent. The event test is an existence over the events of the flash.',
'C10': 'Each column of the table is a grouped reduction keyed by the combined cell index; duplicates of flashes and groups per cell are removed by (cell, id). The dataset is observed afterwards for changes.',
'C11': 'The key is compared as the polynomial x + stride * y, with the stride compared to one more than the largest x index of the stated range. That makes the key injective on the range by the usual positional argument.',
'C12': 'Weights are compared column by column for the split lookup table and for split events, groups and flashes. The fractions are quotients of absolute polygon areas.',
'C13': 'The nested loops over polygons, cells and fragments are summarised as one flattened sequence whose row holds all columns, so a column taken from another index is visible. pyclipper calls are uninterpreted functions of their arguments.',
'C14': 'Index bounds of the regular lookup are compared as clipped searches on the edge vectors, those of the general lookup as the tree query. Corner order, areas and centres are expressions in the edge arrays.',
'C15': 'Accumulation is an indexed update of the grid. The minimum is compared as an element-wise conditional in which zero cells count as empty. Routing is compared as the set of sends per table.',
'C16': 'The pipeline set-up is interpreted down to the accumulators: each product array is compared as a fold over its own accumulator with its own column name. The label lists are compared as constants, in order.',
'C17': 'The frame loop, orientation (`flipud(transpose(...))`), slices, coordinates, times, division guards and file writes are compared for symbolic grids. The grids kept by the gridder are observed after writing.',
'C18': 'Scale, offset and type per product are compared with a table written in the rule, and the raise-to-one-step rule as an element-wise conditional on the same step.',
'C19': 'Aggregates are compared as grouped reductions over frames by interval; bins are compared by their edges and closed side.',
'C20': 'Times are compared as values read from each file, in file order, and coverage as the minimum and maximum.',
'C21': 'Tile edges are closed expressions in range, spacing and number of tiles. Tiles are compared for a symbolic number and for 2 x 2; trimming uses symbolic pad widths. The caller\'s dictionaries are observed afterwards.',
'C22': 'Each entry point is interpreted with all consumers opaque; the arguments that reach the consumers are compared, including absent and False options, for every tile of a 2 x 2 division.',
'C23': 'Chunking is compared as `array_split` of the selected ids with at least one chunk. The loop over chunks is one conversion and one send per target.',
'C24': 'Each column of the structured tables is compared with the variable of its level; a column never stored is visible as an uninitialised value.',
'C25': 'Line parsing is compared field by field; the frames and dataset calls are compared with their dimension and coordinate names.',
'C26': 'Each slice of the name and the factor it is used with are compared; both the regular-expression and field accessors.',
'C27': 'Interpolators, offsets, inflation and axes are compared as uninterpreted calls with exact arguments. Masks are compared as conditions.',
'C29': 'The abstract heap is observed after the call: the caller\'s dataset must have the value number it started with.',
'C30': 'The repair condition is a conjunction over the product times and the variable names; each repaired variable is compared with its own raw values.',
'C31': 'Calls on the plotting library are recorded in order as effects, with their arguments.',
'C32': 'The repair is a closed element-wise expression in the stored value, scale and offset.',
'C33': 'Attributes are compared as strings built from pieces, and the metadata variables as constants.',
'C34': 'Index and tables are compared per file; calls to the outside base classes are compared with their arguments.',
'C35': 'The script\'s parser set-up and `grid_setup` are compared option by option for the latlon, sector, meso and custom grids.',
}

CORR = '''## False alarms found and corrected

Three testers produce behaviour-preserving rewrites and fail on any alarm:
tools/refactor.py (about 30 kinds of local rewrites at every site),
tools/rename.py (renames over the whole package, added attributes) and, by
hand, moving whole modules. Corrections made because of them, all in the
analysis and none by listing exceptions:

* conditions: De Morgan, reordered tests, early returns, merged and split `if`s,
  `&`/`and`, masks combined with `~`, `|`, `&` or the logical functions;
* sequences: comprehension, loop with `append`, `map`, generator, `zip`,
  `enumerate`, index loops; lists grouped under computed keys through temporaries;
  arrays of one constant (`[0]*n`, `np.zeros`, `np.full`, comprehension);
* arrays: `.data`/`.values`, `np.where`, in-place updates and fresh results,
  views, chained stores, `astype`, reshapes of known shapes;
* calls: keyword and positional arguments, `**kwargs` built beforehand,
  `partial`, helper functions, nested functions and lambdas, decorators;
* strings: `%`, `format`, f-strings, `+` and `join`;
* objects: additional attributes, renamed methods and attributes, functions
  opaque to a rule that were renamed, modules that moved.
* numpy idioms for one result: `bincount`/`histogram`/`np.add.at`, `searchsorted`
  and `argmax` of a comparison, `np.full`/`empty` and filling, masked stores by
  index, `np.where`, `np.putmask`, `np.place` or `np.copyto`, sums of products
  and of slices, `np.ix_`, `np.meshgrid` and broadcasting, stacked columns;
* tables: `groupby` with `agg`, `size`, `count`, `first`, iteration over groups,
  `get_group`, `isin` and membership loops, `.loc` and boolean masks, names of a
  dataset read from the dataset, `variables` or `data_vars`;
* numbers: division by a constant and multiplication by its inverse, powers,
  truncating division of counts (which the sample rules once took as equal to
  true division, and then as different from rounding a known integer);
* attributes set to None beforehand and attributes set on first use; results
  cached in dictionaries; queues, stacks and recursion for the same traversal;
* functions that write into their argument and have no model make that argument
  unknown, so that the rule is undecided rather than wrong.
* C21's rule once demanded that two tiles have different option dictionaries.
  It now observes the values only.

## Limits

Float rounding (C90) is out of reach. Behaviour inside lmatools, xarray,
pyclipper and the plotting libraries is assumed, as is the content of data
files. Rules that become undecided on a large rewrite say so in their output
and in the evidence; they then neither hold nor alarm.

'''


def main():
    obs = {}
    for o in mn.obligations():
        for p in o.props:
            obs.setdefault(p, []).append(o)
    out = [HEAD, '## Properties\n\n']
    for p in PROPS:
        i = p['id']
        e = {}
        f = '%s/evidence/%s.json' % (HERE, i)
        if os.path.exists(f):
            e = json.load(open(f))
        c = e.get('coverage', {})
        out.append('### %s %s\n\n%s\n\n' % (i, p['title'], HOW[i]))
        out.append('- Rules: %s (%s).\n' % (', '.join('`%s`' % o.name for o in obs[i]), ', '.join(sorted({'spec/' + os.path.basename(o.path) for o in obs[i]}))))
        out.append('- Bounds: %s.\n' % p['text'])
        out.append('- Reaches beyond the tests: %s\n' % p['why'])
        if c:
            out.append('- Measured: %s values compared, %s graph nodes, %s functions, %s statements, %.1f s.\n' % (
                c['values_compared'], c['value_graph_nodes'], len(c['functions_analysed']), c['statements_analysed'], e['wall_s']))
        out.append('\n')
    out.append('## Not claimed\n\n')
    for p in NA:
        out.append('- %s %s: %s\n' % (p['id'], p['title'], p['reason']))
    out.append('\n## Defects found in the repository\n\nAll were repaired in /repo, one commit each (see known-findings.txt):\n\n')
    for l in open(HERE + '/known-findings.txt'):
        if l.startswith('fixed:'):
            _, pr, h, what = l.split(None, 3)
            out.append('- %s (%s): %s\n' % (pr.split('=')[1], h, what.strip()))
    out.append('''
Seen but left alone, because the intended behaviour is not clear or the repair
is not small: names of the image files of different tiles of one divided grid
collide; the return value of the image writer is not passed on by the lookup
table gridder; a run in which every file is empty has no attributes to copy into
the images; the repair of mis-tagged times re-reads the file by name, which is
not possible for datasets given in memory; `event_areas` is unfinished.

''')
    out.append(CORR)
    out.append('## Planted bugs\n\nEach was written from the property and the code, without looking at the rules. The last column lists all checks that\nreport it. Those first missed, and what was strengthened: b17 (`every_tile` was added, which follows the options through\nall tiles), b22 (masks became conditions), b34 (iteration over the keys of a grouping got a model), b41 and b45 (rules for\nslicing two polygons, and for the sizes of mesh and polygons, were added or extended to C12).\nb29 changes a script in examples/, which does not count as planted in the package; it is kept for the record.\n\n| id | property | what breaks | caught by |\n|---|---|---|---|\n')
    res = {}
    if os.path.exists(HERE + '/tools/caught.json'):
        res = json.load(open(HERE + '/tools/caught.json'))
    for d in sorted(glob.glob(HERE + '/seeded/*')):
        i = os.path.basename(d)
        m = json.load(open(d + '/meta.json'))
        r = res.get(i)
        out.append('| %s | %s | %s | %s |\n' % (i, m['property'], m['what_it_breaks'].replace('|', '/'), ', '.join(r) if r else ('not caught' if r is not None else 'not yet run')))
    open(HERE + '/DESIGN.md', 'w').write(''.join(out))


if __name__ == '__main__':
    main()
