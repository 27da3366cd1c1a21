import json,re
HEAD=open('/verif/DESIGN.md').read().split('\n## Properties')[0].rstrip()
S={}
def sec(i, text): S[i]=text.strip()
sec('C01','''Space: all words up to depth 3–4 (thorough 4–5) over {change one setting, evaluate flux/SED/one seed, toggle caching, corrupt the
returned array} for every radiative and functional model, each setting having values chosen to collide in the cache key (same bytes in
another unit, values equal after `str`, arrays with equal ends, same number of electrons, tables equal in shape); capacity schedules that
fill and roll the 20-entry cache; two objects interleaved. Oracle: a new object with the reached settings, evaluated in a freshly forked
process. Further words of ≤3 over equal settings in other forms (units, scalars and arrays, number types) and over objects whose
settings are swapped between two live models. Tests evaluate each model once or twice; a stale cache needs two evaluations and a specific change between them.''')
sec('C02','''Space: a catalogue of ~280 public calls (models, radiative classes, energy-content functions, validation, likelihood, fitting, every
plot with each data/option shape that reaches a special case, saving, reading, the fitter): each is called on snapshotted arguments; the
arguments must be bit-identical afterwards; everything returned is then overwritten in place and the call repeated on the same and on
new arguments; all ordered pairs of the cheap calls; all words (≤4) of evaluation / in-place change on one object; every call repeated after three in-place
changes of the numbers in its arguments and on new arguments that may live at the old addresses. Oracle: the same call
in a fresh process. (User-defined particle distributions with Kelner's model are compared to 1e-12.) Units are part of the snapshot.''')
sec('C03','''Space: every ordered subset (≤3) of five kinds of field × all words of {total, contribution by name, by index, undefined names and
indices, other energies, distance, setting change}. Oracle: models with that single field (no caching) and their sum.''')
sec('C04','''Space: ordered sub-grids with repetition of a 4-point grid × 6 units × 5 containers × 9 distances × flux/SED × keyword or positional
call × 9 model configurations, and long requests (up to 2049, thorough 5001 energies, three orders) compared with short ones. Oracle: the same model asked for one energy at a time at distance 0.''')
sec('C05','''Space: particle shapes × settings × factors × photon grids over 30 decades. Monitors: finite, ≥0, zero beyond the kinematic end
point, exact proportionality in each factor, additivity. Statement adjusted to what numerical quadrature can promise: additivity of
*different* shapes to 2 % on fine grids; Kelner's model below its transition energy matches the δ-approximation to the high-energy
calculation by construction and is therefore proportional but not additive. Particle ranges include limits at and below the rest energy
and the threshold of pion production. Known findings (not repaired): bremsstrahlung of steep electrons down to 0.6 MeV is negative at
0.5–4 MeV; bremsstrahlung of coarse grids one rounding step below a grid energy is negative; the pion lookup table reaches 1.001–2.5
times beyond the kinematic limit at 1e-6 of the peak.''')
sec('C06','''Space: all sequences (≤3) of set_We/set_Wp with limit forms × distributions × models × grids. Monitor after every step: energy content,
ratio of spectra, shape, other holders of the amplitude. Oracle: closed-form or adaptive quadrature energy content.''')
sec('C07','''Space: all words of ≤4 (5) indices from 12 values including −1 and its neighbourhood × break grids × zero masks × axes ≤3-D × x shapes
× units × per-interval results, including extreme magnitudes. Oracle: closed form with expm1. States count integrand words.''')
sec('C08','''Space: product of particle populations, ranges, grids, field strengths, seed kinds (thermal, directional, monochromatic, tabulated),
temperatures, angles, densities, units. Oracles: (a) the published formulas re-implemented on the documented grid (1e-5); (b) Gauss
quadrature / exact Planck convolution of the Jones kernel (2 %), which checks the constants in (a) against physics.''')
sec('C09','''Space: product of particle populations × ranges × grids × weights, high-energy models, enhancement, lookup table on/off/missing/other
version, units, ranges of protons that start below the threshold (which must not contribute). Oracles: published formulas (1e-5) and independent quadrature (1 %) for Kelner.''')
sec('C10','''Space: full parameter products × 27 decades of energies incl. every characteristic energy and its float neighbours × units ×
containers × words of parameter changes. Oracle: closed forms in logarithms. Known finding: a TableModel with a zero node is NaN.''')
sec('C11','''Space: all 399 redshifts × 500 energies, every cell boundary ± offsets, outside values, forms. Oracle: the raw table. Statement
adjusted: monotone in redshift to 2e-3 (scatter of the published table), no absorption below z=0.01 (documented).''')
sec('C12','''Space: all representations of each field, all pairs of representations, all ordered subsets of ≤3 (4) of 9 fields, 60+ ill-typed
descriptions. Oracle: sum of canonical single fields; rejection must happen in the constructor.''')
sec('C13','''Space: product of all column formats, units, row orders, classes, files, requested types, combinations of tables. Oracle: the abstract
rows each table was written from. Unusual numbers (zero, negative, tiny, huge, NaN errors, errors larger than the value) in every
column, pairs of columns, one row or all. F: results share no memory with their inputs.''')
sec('C14','''Space: words of re-validation with requested types over every format; save/read; all row orders × splits of rows into tables; parts of
validated data; two or three tables of measurements at the same energies with every combination of row states and table orders.
Oracle: abstract rows and equality of likelihoods over arrangements.''')
sec('C15','''Space: every single defect (missing column, each of 10 wrong physical types, flags, lists, mixed families) at every position in every
format; every model × parameter × wrong value at construction/assignment; every photon field with every wrong angle, temperature, density;
all sign patterns of arrays up to 3 elements and 10 scalars × 7 domains through the shared validation helpers; incompatible outputs in get_sampler. Oracle: an error is raised
(TypeError / ValueError / UnitsError where naima validates) and the objects still give their former results.''')
sec('C16','''Space: units of 6 families from 5 energy × 4 area × 3 time units × energies × words of conversions; words of ≤3 contents of the same (or a
new) energy array; energies side by side over 49 decades; composite spellings of the same unit. Oracle: E² in plain numbers.''')
sec('C17','''Space: all 7ⁿ×4ⁿ relations of model to each point and limit level, n ≤ 3 (4) × representations × partitions and orders. Oracle: formula.''')
sec('C18','''Space: limits/means/widths × values with both float neighbours of every boundary; 5³ prior assignments × 4³ (6³) vectors through the
real posterior. Oracle: closed-form density differences.''')
sec('C19','''Space: every random draw of a run is a choice point (starting ball, split, partner, stretch, acceptance); all choice vectors with ≤2
(3) deviations; all histories of run lengths; several samplers in turn in one process. Oracle: re-implementation of likelihood and stretch move fed with the same draws.
Draws are intercepted at `numpy.random` (module and RandomState), i.e. at the environment boundary, not in naima.''')
sec('C20','''Space: a controlled pool replaces `multiprocessing.Pool`; each assignment and execution order is a choice point (pickled hand-over,
per-worker state); every evaluation failing once in every phase; histories get/run/continue. Oracle: serial run with the same draws.
Conformance: the same runs on real pools of 1–4 processes.''')
sec('C21','''Space: label words × parameter scales × units × guess/prefit/priors/interactive actions with scripted ball draws; prefits started far from the optimum and outside the priors. Oracle: plain
energy-flux integral, plain likelihood, documented label rule.''')
sec('C22','''Space: words over {save, overwrite, read, results} × two samplers on a scratch file against a file model; all output structures and
sequences from a 14-item alphabet × chain shapes × metadata. Oracle: the sampler. Traces = complete save/read cycles.''')
sec('C23','''Space: all weak orderings of ≤6 stored log-probabilities (ties, −inf), shapes, labels, outputs, options; histories of writes. Oracle:
order statistics in plain Python. Not prescribed: rows for capitalised log labels, one-element array outputs.''')
sec('C24','''Space: weak orderings of log-probabilities and model values, ordered subsets of confidence levels, scripted sample selection; words of
2–3 plots, with the stored run replaced in between, on one sampler. Oracle:
order statistics; recomputed models judged at the vectors where the model was called.''')
sec('C25','''Space: all flag/group/error patterns of ≤4 rows × units × types × options, every artist read back; histories of 2 (3) plot calls over
20 operations with an injected failure per callee; group numbers of any type and value. Oracle: plain conversion of the rows / the same call in a fresh process. rcParams
monitored after every operation.''')
sec('C26','''Space: words of 11 user actions on the real widget (Agg): all words of length 2 from every configuration, de Bruijn sequences covering
all words of length 3 (4), optimiser outcome as an environment choice, real mouse events. Oracle: small reference machine in lockstep.
The reference follows the slider's own (unclipped) value for programmatic changes.''')
sec('C27','''Space: words of length 2–3 (+1) over 15 operations on each wrapper, pairs of parameters, points/bins in any order, Sherpa sessions.
Oracle: native model built afresh. Not covered: Sherpa's own cache-key collision of points [xlo,xhi] with bins.''')
sec('C28','''Space: every set partition and order of ≤4 (5) energies × spacings × units, all argument combinations, all pairs of tables for
estimate_B. Oracle: plain numbers. A group with a single energy has zero width (documented behaviour of the code; only positivity asked).''')
ev={}
m={c['property']:c for c in json.load(open('/verif/MANIFEST.json'))['checks']}
out=[HEAD,'\n## Properties\n']
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); i=d['id']
    out.append('### %s %s\n\n%s\n\nMethod and bounds: %s\n' % (i,d['title'],S[i],m[i]['level_note']))
import os
here=os.path.dirname(os.path.abspath(__file__))
out.append(open(os.path.join(here,'design_tail.md')).read().rstrip()+'\n')
res=json.load(open(os.path.join(here,'seed_results.json')))
out.append('| planted change | property | what it needs | checks that catch it |\n|---|---|---|---|')
for i in sorted(os.listdir('/verif/seeded')):
    meta=json.load(open('/verif/seeded/%s/meta.json'%i))
    out.append('| %s | %s | %s | %s |' % (i,meta['property'],meta['needs'].replace('|','/'),res.get(i,'?')))
open('/verif/DESIGN.md','w').write('\n'.join(out)+'\n')
