#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': hook}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

PAIRS = ('every pair of non-empty segmentations of the same text (same number of units, at least two), '
         'any number/position of boundaries')
p('C01', 'Public names resolve in any order of first use',
  'Every name the package advertises can be the first thing used in a fresh interpreter, in any order of first use and interleaved with direct imports of any submodule, and then always denotes the same object as the one defined in its home module. This includes several threads that import the package and use its names for the first time at the same time: each of them gets the same objects, none fails or waits forever. The advertised list itself never changes because of what was used before.',
  ['histories', 'schedules'], 'every order in which the advertised names (and non-test submodules) are first used/imported in a fresh process; several threads using names for the first time at once',
  'One test process uses one fixed order (the test collector imports nearly everything first), so a name that only resolves after another one was used is never seen.',
  ['segeval/__init__.py', 'segeval/util/__init__.py', 'segeval/compute.py', 'segeval/data/__init__.py'],
  [('lazy attribute loading', 'segeval/__init__.py: module.__getattr__'), ('import structure of subpackages', 'segeval/util/__init__.py, segeval/compute.py')],
  ['attribute access on the package object in fresh interpreters'])
p('C02', 'Segmentation formats convert losslessly into each other',
  'For any segmentation, converting masses to position labels and back returns the same masses, an NLTK-style string with one symbol per potential boundary converts to exactly the masses it denotes for any boundary symbol, and position labels of any kind (numbers, strings, any start value) convert to the run lengths of equal consecutive labels. The boundary string of a segmentation of n units has exactly n-1 positions, each holding the boundary type 1 if a segment ends there and nothing otherwise.',
  ['inputs'], 'all mass sequences of positive integers, all position label sequences, all NLTK strings, passed as list or tuple',
  'Tests convert about ten short literals; the relation must hold for every length, label alphabet and boundary symbol.',
  ['segeval/format.py'],
  [('mass/position conversion', 'segeval/format.py: convert_masses_to_positions, convert_positions_to_masses'), ('boundary strings', 'segeval/format.py: boundary_string_from_masses'), ('NLTK strings', 'segeval/format.py: convert_nltk_to_masses')],
  ['return values of the four conversion functions'])
p('C03', 'Metric values do not depend on how a segmentation is encoded',
  'Comparing the same two segmentations gives the same value from every metric, statistic, confusion matrix and agreement coefficient that accepts the format, whether they are passed as masses, as position labels (with any distinct labels per segment: any numbers, strings, starting value), as NLTK strings or as boundary-set strings, and whether as list or tuple, including, for a pair, a bare integer standing for a single-segment mass sequence, and including texts of a single unit, whose boundary strings are empty. This holds for pairs, for datasets and for the window metrics with every option.',
  ['inputs', 'configurations'], PAIRS + '; all encodings accepted by the metric; all documented options',
  'Tests try one literal pair per format and never compare formats against each other; labels other than small integers are never used.',
  ['segeval/format.py', 'segeval/similarity/__init__.py', 'segeval/window/pk.py', 'segeval/window/windowdiff.py', 'segeval/agreement/__init__.py', 'segeval/util/__init__.py', 'segeval/window/__init__.py'],
  [('normalisation to masses/boundary strings', 'segeval/similarity/__init__.py: __boundary_statistics__'), ('normalisation to positions', 'segeval/window/pk.py: __pk__, segeval/window/windowdiff.py: __window_diff__'), ('integer argument fix-up', 'segeval/util/__init__.py: __fnc_metric__')],
  ['return values of all public metrics over re-encoded inputs'])
p('C04', 'Boundary edit distance accounts for every differing boundary exactly once',
  'For two boundary strings of equal length, the boundary edit distance returns edits such that each boundary present in only one of the strings is covered by exactly one addition (attributed to the side that has it), one side of one substitution, or one end of one transposition, and nothing else is reported; identical strings produce no edits. Swapping the two strings swaps sides and substitution directions and changes nothing else about the counts or costs.',
  ['inputs'], 'all pairs of equal-length boundary strings over any set of numeric boundary types, every transposition limit n_t >= 1',
  'Eleven literal cases of length 10 with at most 4 types; conservation is a relation over all inputs.',
  ['segeval/similarity/distance/multipleboundary.py'],
  [('candidate edits per position', 'multipleboundary.py: __optional_set_edits__'), ('removal of transposed boundaries', 'multipleboundary.py: __transpositions__'), ('additions and substitutions', 'multipleboundary.py: __additions_substitutions_sets__')],
  ['boundary_edit_distance return value, direct and nested inside the metrics'],
  [('options_set', 'pending differences per position', 'multipleboundary.py: __boundary_edit_distance__')])
p('C05', 'Near misses are recognised exactly within the allowed span',
  'A transposition joins one boundary of a type that only one string has at one position with one boundary of the same type that only the other string has at another position at most n_t-1 positions away; transpositions are taken for the shortest span first and left to right within a span, no boundary takes part in two of them, and one is passed over only when a boundary it needs is already used or when it would break up substitutions possible at both ends. At each position the remaining differences are paired into as many substitutions as possible with minimal total distance between the paired types.',
  ['inputs'], 'all pairs of equal-length boundary strings over any numeric boundary types, every n_t >= 1',
  'Tests use n_t 2 and 3 only, on hand-picked strings; the greedy policy (which near miss wins) is only defined over all inputs.',
  ['segeval/similarity/distance/multipleboundary.py'],
  [('transposition search', 'multipleboundary.py: __transpositions__, __overlaps_existing__, __has_substitutions__'), ('substitution pairing', 'multipleboundary.py: __additions_substitutions_sets__')],
  ['boundary_edit_distance return value, direct and nested inside the metrics'])
p('C06', 'Boundary similarity equals its definition',
  'Boundary similarity of two segmentations is (edits + matches - weighted edits) / (edits + matches), where edits are those of the boundary edit distance, matches are boundaries common to both, and the weighting functions (returning integers, decimals or floats) and n_t passed by the caller are the ones applied; two segmentations without any boundary have similarity 1. One-minus gives exactly the complement, and the parts returned on request (the complement asked for as well or not) are the numerator, the denominator and the edits of that same value.',
  ['inputs', 'configurations'], PAIRS + '; one or several boundary types; all n_t >= 1, default and user weight triples',
  'A dozen literal pairs; no test covers user-supplied n_t with weights, multi-type scaling, or boundary-free pairs.',
  ['segeval/similarity/boundary.py', 'segeval/similarity/__init__.py'],
  [('fraction', 'segeval/similarity/boundary.py: __boundary_similarity__'), ('edit counts and weights', 'segeval/similarity/__init__.py: __boundary_statistics__')],
  ['boundary_similarity return value'])
p('C07', 'Segmentation similarity equals its definition',
  'Segmentation similarity of two segmentations is (P - weighted edits) / P, where P is the number of potential boundaries: potential boundary positions times the number of distinct boundary types occurring in the pair (at least one). One-minus gives the complement, the returned parts are that numerator and denominator, and the caller\'s n_t and weights are honoured.',
  ['inputs', 'configurations'], PAIRS + '; one or several boundary types; all n_t >= 1, default and user weight triples',
  'All tested pairs have a single boundary type and default options.',
  ['segeval/similarity/segmentation.py', 'segeval/similarity/__init__.py'],
  [('fraction', 'segeval/similarity/segmentation.py: __segmentation_similarity__'), ('potential boundaries', 'segeval/similarity/__init__.py: __boundary_statistics__')],
  ['segmentation_similarity return value'])
p('C08', 'Boundary statistics describe the compared pair consistently',
  'The statistics of a pair list exactly the boundaries common to both (matches), exactly the boundaries in only one of them (full misses), the total number of boundaries of both, the set of types that occur, the number of potential boundaries, the boundary edits, and the weighted edit count computed from those edits. In particular, twice the matches plus the full misses equals the total number of boundaries.',
  ['inputs', 'configurations'], PAIRS + '; one or several boundary types; all n_t and weights',
  'One literal pair is tested.',
  ['segeval/similarity/__init__.py', 'segeval/similarity/distance/__init__.py'],
  [('statistics', 'segeval/similarity/__init__.py: __boundary_statistics__'), ('type identification', 'segeval/similarity/distance/__init__.py: identify_types')],
  ['boundary_statistics return value'])
p('C09', 'The boundary confusion matrix classifies every boundary of a comparison',
  'The confusion matrix of a hypothesis against a reference holds, per boundary type, the number of matches plus the scaled near misses of that type on the diagonal, one count per substitution in the cell (hypothesis type, reference type), and one count per missed or spurious boundary against the no-boundary class: in the row of no-boundary if only the first segmentation has it, in the column of no-boundary if only the second has it. Nothing else is counted, and swapping the two segmentations transposes the matrix up to the choice among equally close substitutions.',
  ['inputs', 'configurations'], PAIRS + '; one or several boundary types; all n_t and transposition weights',
  'One eight-position literal and two dataset aggregates are tested.',
  ['segeval/similarity/__init__.py'],
  [('matrix construction', 'segeval/similarity/__init__.py: __boundary_confusion_matrix__')],
  ['boundary_confusion_matrix return value'])
p('C10', 'A confusion matrix always knows exactly its classes and its counts',
  'After any sequence of cell assignments, increments, updates (by method or in-place union) and defaults of rows, reads of cells or rows and class queries, a confusion matrix returns for each cell the value last stored (0 if never stored) and as its classes exactly the labels used so far as predicted or actual label; rows cannot be assigned wholesale. Matrices are independent: nothing done to one matrix, or to a returned set of classes, affects another matrix or later answers.',
  ['histories'], 'all interleaved histories of operations on any number of matrices with any hashable labels',
  'Three short straight-line scripts on one matrix are tested.',
  ['segeval/ml/__init__.py'],
  [('auto-created rows', 'segeval/ml/__init__.py: ConfusionMatrix.__getitem__'), ('dirty flag', 'segeval/ml/__init__.py: _InnerConfusionMatrix.__setitem__, ConfusionMatrix.classes')],
  ['ConfusionMatrix item access and classes()'],
  [('__classes__/__dirty_classes__', 'cached class set', 'segeval/ml/__init__.py: ConfusionMatrix')])
p('C11', 'Precision, recall and F-measure equal their definitions and only read',
  'For any confusion matrix, per-class precision is the diagonal count over its predicted-row total, recall over its actual-column total, and F-beta is (1+b^2)PR/(b^2 P+R), each 0 when the diagonal count is 0; micro averages divide the sums of numerators by the sums of denominators over all classes and macro averages are plain means over all classes. A dictionary of matrices yields the same statistics per entry, and asking for a statistic never changes any later answer.',
  ['inputs', 'histories'], 'all matrices with non-negative integer, decimal or float counts, any labels, any beta >= 0, present or absent classification, micro/macro, single or dictionary',
  'About eight literal two-class matrices are tested, each queried once in a fixed order.',
  ['segeval/ml/__init__.py'],
  [('averaging', 'segeval/ml/__init__.py: __value_micro_macro__'), ('per-class values', 'segeval/ml/__init__.py: __precision__, __recall__, __fmeasure__')],
  ['precision, recall, fmeasure return values'])
p('C12', 'Pk equals its sliding-window definition',
  'Pk of a hypothesis against a reference is the fraction of windows of k+1 consecutive units in which the two disagree on whether the first and last unit are in the same segment, over the n-k windows of an n-unit text, and 0 when there is no window; k is the given window size or, by default, the one computed from the reference alone. One-minus gives the complement and the returned parts, with or without one-minus, are the number of disagreeing windows and of windows.',
  ['inputs', 'configurations'], PAIRS + '; every window size >= 1 including larger than the text; every rounding function; segments of any length',
  'Literal pairs of 10-15 units with one long example; window sizes 2-4.',
  ['segeval/window/pk.py', 'segeval/window/__init__.py'],
  [('window loop', 'segeval/window/pk.py: __pk__')],
  ['pk return value'])
p('C13', 'WindowDiff equals its sliding-window definition',
  'WindowDiff of a hypothesis against a reference is the fraction of windows of k+1 consecutive units in which the two contain different numbers of boundaries, over the n-k windows of an n-unit text, and 0 when there is no window; with the Lamprier et al. correction both texts are first extended by k phantom units on each side (not belonging to any segment) and the number of differing windows is divided by n+k+1. One-minus gives the complement and the returned parts are that numerator and denominator.',
  ['inputs', 'configurations'], PAIRS + '; every window size >= 1 including larger than the text; with and without correction; segments of any length',
  'Literal pairs of 10-15 units; the correction is only checked through dataset means.',
  ['segeval/window/windowdiff.py', 'segeval/window/__init__.py'],
  [('window loop', 'segeval/window/windowdiff.py: __window_diff__'), ('phantom units', 'segeval/window/windowdiff.py: __create_paired_window__')],
  ['window_diff return value'])
p('C14', 'Window size is half the mean segment length of everything given',
  'The computed window size is half the mean segment length over all segments of the segmentation, or of all segmentations in the (arbitrarily nested) collection given, rounded by the given rounding function (half-to-even by default) and never below 2; an error raised by the rounding function reaches the caller. It does not depend on how the collection is nested or ordered, on the format of the segmentations (a dataset\'s own, or the one given), or on earlier calls.',
  ['inputs', 'configurations'], 'all mass or position segmentations, nested dictionaries and datasets of them, any rounding function',
  'Three literals are tested.',
  ['segeval/window/__init__.py', 'segeval/util/math.py'],
  [('recursive collection and rounding', 'segeval/window/__init__.py: __compute_window_size__')],
  ['compute_window_size return value and default k of pk/window_diff'])
p('C15', 'Dataset comparisons contain exactly the documented pairs with their values',
  'Evaluating a metric on one dataset yields one entry per item and pair of its coders - both orders when permuted - and on two datasets one entry per item they share and per coder of the first and coder of the second, named "item,coder,coder" in the order (first/hypothesis, second/reference). Each value equals calling the metric directly on those two segmentations with the same options and the dataset\'s format; positional, keyword and dataset call styles agree, and datasets of different formats are refused.',
  ['inputs', 'configurations'], 'all non-empty datasets (items named by anything, coder names without commas, all formats, uneven coder sets), all pairwise metrics and options, all call styles',
  'Tests look up a few keys of bundled samples; no test enumerates keys or compares values with direct calls.',
  ['segeval/compute.py', 'segeval/util/__init__.py'],
  [('pair enumeration', 'segeval/compute.py: compute_pairwise_values'), ('argument dispatch', 'segeval/util/__init__.py: __fnc_metric__')],
  ['return values of dataset-level metric calls'])
p('C16', 'Summaries are the population statistics of the values',
  'Summarising a non-empty mapping of values returns their arithmetic mean, population standard deviation, population variance, standard error (standard deviation over the square root of the count) and count, whatever the keys, the order, the number of values and whether the values are integers, decimals or floats.',
  ['inputs'], 'all non-empty mappings to integers, decimals and floats',
  'One eight-element list and a handful of aggregates are tested.',
  ['segeval/compute.py', 'segeval/util/math.py'],
  [('statistics', 'segeval/util/math.py: mean, var, std, stderr')],
  ['summarize return value'])
p('C17', 'Actual agreement pools the comparison over all coder pairs and items',
  'Observed agreement of a dataset is the sum of the comparison metric\'s numerators divided by the sum of its denominators over every unordered pair of coders and every item, with the comparison function (any callable, whose errors reach the caller) and options the caller chose; it covers exactly the coders whose segmentations the dataset contains, however the dataset was built. One-minus gives the complement; the parts are these numerators and denominators, the potential boundaries of each comparison, and what each coder placed of them.',
  ['inputs', 'configurations', 'histories'], 'all fully coded datasets with at least two coders and one boundary, in every format, as Dataset or plain dictionary, built by constructor, assignment, merging or loading from file',
  'Six aggregate values on bundled samples; all of them built by the constructor.',
  ['segeval/agreement/__init__.py', 'segeval/data/__init__.py'],
  [('pooling', 'segeval/agreement/__init__.py: __actual_agreement_linear__'), ('coder discovery', 'segeval/data/__init__.py: get_coders')],
  ['actual_agreement_linear return value'])
p('C18', 'Pi, kappa and bias are the chance-corrected coefficients of that agreement',
  'Fleiss\' pi and kappa equal (A - E)/(1 - E), where A is the observed agreement, E for pi is the square of the mean, over coders, items and pairings, of the share of potential boundaries the coder placed, and E for kappa is the mean over coder pairs of the product of the two coders\' overall shares; the bias is the difference of the two expectations. They do not depend on names or order of coders and items, never exceed 1, equal 1 exactly on complete agreement, and incompletely coded datasets are refused.',
  ['inputs', 'configurations'], 'all fully coded datasets with at least two coders in every format with at least one boundary and not saturated with boundaries; items of at least two units',
  'A dozen literal values on bundled samples.',
  ['segeval/agreement/pi.py', 'segeval/agreement/kappa.py', 'segeval/agreement/bias.py', 'segeval/agreement/__init__.py'],
  [('pi', 'segeval/agreement/pi.py'), ('kappa', 'segeval/agreement/kappa.py'), ('bias', 'segeval/agreement/bias.py'), ('potential boundaries', 'segeval/agreement/__init__.py: __potential_boundaries__, __boundaries__')],
  ['fleiss_pi_linear, fleiss_kappa_linear, artstein_poesio_bias_linear return values and parts'])
p('C19', 'Datasets merge by union without losing or changing codings; copies independent',
  'Adding datasets yields every item, coder and segmentation of both with the set of coders being their union; a coder coding an item in both is refused with a data error, the right operand is never changed, and the left one only by in-place addition. A copy is equal to but independent of its original, and the result of + independent of its left operand, including coders, properties, boundary types and format.',
  ['histories', 'inputs'], 'all sequences of construct, copy, add, in-place add and edits on datasets with overlapping or disjoint items and coders',
  'Four single-item merges are tested.',
  ['segeval/data/__init__.py'],
  [('merge', 'segeval/data/__init__.py: Dataset.__iadd__, __add__'), ('deep copy', 'segeval/data/__init__.py: Dataset.copy')],
  ['Dataset contents, coders and attributes after each operation'])
p('C20', 'JSON files round-trip datasets and malformed files are refused',
  'Writing a dataset of masses to JSON (to a file, or into a directory as output.json) and reading it back yields the same items, coders and masses as tuples, the same properties plus the segmentation type, and the coders recorded, whatever the properties are called (the structural fields win over properties of their name). A file that is not JSON, is no object, lacks or misstates the segmentation type, or lacks an object of items is refused with a data error and never yields a dataset.',
  ['inputs', 'fault_sequences'], 'all mass datasets with string labels (any Unicode) and JSON-serialisable properties; all corruptions of such files: truncation at any byte, removed or altered fields',
  'One sample file is round-tripped and five fixed broken files are tried.',
  ['segeval/data/jsonutils.py'],
  [('writer', 'segeval/data/jsonutils.py: output_linear_mass_json'), ('reader and validation', 'segeval/data/jsonutils.py: input_linear_mass_json')],
  ['files written and datasets returned'])
p('C21', 'Delimited files are read completely and exactly',
  'Reading a delimited mass file yields one item named after the file (without directory and extension) with one coder per data row and exactly that row\'s masses as a tuple of integers, whatever the delimiter, the number of rows and columns, uneven row lengths and line-ending style; the header row and blank lines never become data. A table in which a coder occurs twice or a cell is no integer is refused, never read in part. The position variant yields the masses of the same rows interpreted as position labels.',
  ['inputs'], 'all well-formed tables: any coder names, row lengths, delimiters, line endings',
  'Two sample files are read.',
  ['segeval/data/tsv.py', 'segeval/data/__init__.py', 'segeval/format.py'],
  [('reader', 'segeval/data/tsv.py: input_linear_mass_tsv, input_linear_positions_tsv'), ('item name', 'segeval/data/__init__.py: name_from_filepath')],
  ['datasets returned'])
p('C22', 'Loading a folder tree collects every data file once, whatever the listing order',
  'Loading a directory tree yields exactly the union of all data files of the requested type in it (by extension, in any letter case), at every depth, with item names prefixed by the names of the directories leading to them; files of other types are ignored. The result does not depend on the order in which the file system lists entries, a coding that occurs twice for an item is refused, and an existing dataset passed in is extended.',
  ['inputs', 'schedules'], 'all directory trees of JSON/TSV data files and unrelated files; all orders in which the file system lists each directory',
  'One call on the package directory is tested, in whatever order the file system lists it.',
  ['segeval/data/__init__.py'],
  [('tree walk', 'segeval/data/__init__.py: load_nested_folders_dict')],
  ['returned dataset under permuted directory listings'])
p('C23', 'Every file opened for input or output is closed again',
  'After any load or save operation - successful, refused because of bad content, or failing because of an I/O error at any point - every file that operation opened is closed, without relying on garbage collection; no file other than the one named by the caller is written.',
  ['fault_sequences', 'inputs'], 'all load/save calls on valid and invalid files, with a read, write, open or close failure injected at any operation',
  'Tests never look at file handles and inject no faults; on the interpreter used here unreferenced files stay open until a collection.',
  ['segeval/data/jsonutils.py', 'segeval/data/tsv.py', 'segeval/data/__init__.py'],
  [('file handling', 'segeval/data/jsonutils.py: input_linear_mass_json, __write_json__; segeval/data/tsv.py: input_linear_mass_tsv')],
  ['open/close events of the process during each call'])
p('C24', 'Evaluation is a pure function of its arguments, whatever happened before',
  'Computing any metric, statistic, matrix, agreement, window size, conversion or summary never changes its arguments, the bundled sample datasets or the defaults of later calls, and returns equal results whenever it is called with equal arguments - before or after any other calls, failed calls, edits of earlier arguments or results, or re-entrant calls from weight, rounding or comparison callbacks.',
  ['histories', 'inputs'], 'all histories of calls over the whole public API',
  'Each test calls a function once with fresh literals and looks at the return value only.',
  ['segeval/util/__init__.py', 'segeval/metric.py', 'segeval/similarity/__init__.py', 'segeval/window/__init__.py', 'segeval/agreement/__init__.py', 'segeval/compute.py', 'segeval/similarity/distance/multipleboundary.py', 'segeval/format.py'],
  [('copied keyword defaults', 'segeval/util/__init__.py: __fnc_metric__; segeval/agreement/__init__.py: __fnc_metric__'), ('fresh sets per comparison', 'segeval/similarity/distance/multipleboundary.py: __optional_set_edits__')],
  ['arguments, sample data, defaults and results around every call'],
  [('*_METRIC_DEFAULTS', 'shared default options', 'segeval/metric.py, segeval/similarity/__init__.py, segeval/window/__init__.py, segeval/agreement/__init__.py')])
p('C25', 'Concurrent evaluations do not influence each other',
  'When several threads evaluate metrics, agreement coefficients, confusion matrices and summaries at the same time - on the same or different datasets and with different options - every call returns what it returns when run alone, under every interleaving of the threads. That includes threads that query the same confusion matrix, as long as none of them edits it.',
  ['schedules'], 'all interleavings, at statement granularity, of concurrent calls to the evaluation functions after the package was imported',
  'No test uses threads.',
  ['segeval/util/__init__.py', 'segeval/compute.py', 'segeval/similarity/distance/multipleboundary.py', 'segeval/ml/__init__.py', 'segeval/agreement/__init__.py', 'segeval/window/__init__.py'],
  [('no shared mutable state between calls', 'all evaluation modules'), ('per-instance matrix state', 'segeval/ml/__init__.py: ConfusionMatrix')],
  ['results of calls made by concurrently scheduled threads'])
p('C26', 'Comparison metrics obey the laws of a similarity or penalty measure',
  'With the default or the unweighted weighting functions, boundary similarity and segmentation similarity always lie between 0 and 1, as do Pk and WindowDiff (with or without the Lamprier et al. correction); comparing a segmentation with itself gives full similarity and zero penalty; the two similarities are then 1 only for identical segmentations and are symmetric, as are the window metrics for a fixed window size; and for the same window size Pk never exceeds (uncorrected) WindowDiff. One-minus is the exact complement of each.',
  ['inputs', 'configurations'], PAIRS + '; all n_t, window sizes, formats',
  'Tests check identity on three literals and never quantify over pairs.',
  ['segeval/similarity/boundary.py', 'segeval/similarity/segmentation.py', 'segeval/window/pk.py', 'segeval/window/windowdiff.py'],
  [('fractions', 'all four metric modules'), ('symmetric edit distance', 'segeval/similarity/distance/multipleboundary.py')],
  ['return values of the four metrics on related inputs'])
p('C27', 'Weighting functions count or scale edits as documented',
  'The unweighted functions return the number of edits given; the scaled substitution weight is the sum of distances between the substituted types divided by the span of the type range (maximum - minimum + 1), and the scaled transposition weight is the sum of spans divided by the maximum allowed; all are 0 for no edits, independent of edit order, and additive over edits. Whatever triple of functions the caller supplies is the one the edit-distance based metrics apply, each to the edits of its kind together with the range of types present or the transposition limit, and an error one of them raises reaches the caller.',
  ['inputs', 'configurations'], 'all lists of additions, substitutions, transpositions over numeric types; all type ranges and limits; all user-supplied weight triples',
  'Two literals are tested; no test passes a recording weight function.',
  ['segeval/similarity/weight.py', 'segeval/similarity/__init__.py'],
  [('weights', 'segeval/similarity/weight.py'), ('application', 'segeval/similarity/__init__.py: __boundary_statistics__, __boundary_confusion_matrix__')],
  ['weight function return values and the arguments user-supplied weights receive'])
p('C28', 'Invalid comparisons are refused with an error, never answered with a number',
  'Segmentations of different lengths, formats a metric does not support, unknown formats, no arguments at all, only one of the pair by keyword, more than two positional arguments, datasets of different formats and datasets whose items differ in length between coders make the metrics raise the package\'s metric error, and unknown averaging methods likewise; agreement coefficients refuse incompletely coded or single-coder datasets with an error. After such a refusal later valid calls are unaffected.',
  ['inputs', 'histories'], 'all invalid argument combinations of these kinds over all metrics and formats',
  'One literal per error per metric.',
  ['segeval/util/__init__.py', 'segeval/similarity/__init__.py', 'segeval/window/pk.py', 'segeval/window/windowdiff.py', 'segeval/window/__init__.py', 'segeval/agreement/__init__.py', 'segeval/agreement/pi.py', 'segeval/agreement/kappa.py', 'segeval/ml/__init__.py'],
  [('argument validation', 'segeval/util/__init__.py: __fnc_metric__'), ('length checks', 'segeval/similarity/__init__.py, segeval/window/pk.py, segeval/window/windowdiff.py'), ('coder checks', 'segeval/agreement/kappa.py, segeval/agreement/pi.py')],
  ['exceptions raised by public metrics'])

p('C29', 'Datasets, confusion matrices and results survive copying and pickling',
  'A dataset, a confusion matrix, a dictionary of such matrices or the result of a metric (or the error it raised) that is copied with copy.copy, copy.deepcopy or the dataset\'s own copy(), or pickled with any protocol and unpickled, in this process or another one, on its own or within a container, any number of times in any order, is an object of the same type with the same content: a dataset keeps its items, codings, coders, properties, boundary types and boundary format and therefore evaluates to the same values; a matrix keeps its cells and classes and goes on tracking classes as cells are written, and a row copied on its own is a detached dictionary of its counts. Copying never changes the original, and a deep copy and its original are independent: changing one in any part never changes the other.',
  ['inputs', 'histories'], 'all datasets, matrices and results, all chains of copy routes, all later changes',
  'Tests copy one dataset and compare two of its attributes; none pickles anything or copies a matrix.',
  ['segeval/data/__init__.py', 'segeval/ml/__init__.py', 'segeval/similarity/__init__.py', 'segeval/similarity/distance/multipleboundary.py', 'segeval/util/__init__.py'],
  [('dataset attributes', 'segeval/data/__init__.py: Dataset'), ('matrix rows know their matrix', 'segeval/ml/__init__.py: ConfusionMatrix, _InnerConfusionMatrix'), ('edits are named tuples', 'segeval/similarity/distance/multipleboundary.py')],
  ['values of public objects before and after copying', 'results of metrics on copies'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
