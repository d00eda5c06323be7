#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list)."""
import json
import os

B = 'openquake/commonlib/'
PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe=None,
      state=None):
    assert len(title) <= 80, title
    anchors = dict(files=[B + f if not f.startswith('bin') else f
                          for f in files],
                   mechanism=[dict(name=n, where=w) for n, w in mech],
                   hook_needed=None)
    if observe:
        anchors['observe_at'] = observe
    if state:
        anchors['state'] = [dict(name=n, meaning=m, where=w)
                            for n, m, w in state]
    PROPS.append(dict(id=id, title=title, statement=statement,
                      quantifier=dict(over=over, text=text),
                      why_tests_cant=why, anchors=anchors))


P('T01', 'Table keys stay unique and key lookup finds exactly the stored record',
  'After any sequence of additions, insertions at a position, replacements, deletions and reversals, no two records of a table share the value of any of its unique constraints (primary key included), and the records are in the positions those operations define. Looking a record up by primary key returns exactly the record currently stored under that key and raises KeyError for every other key. An addition or replacement is refused with KeyError exactly when it would create such a clash.',
  ['histories', 'inputs'],
  'every history of mutating table operations, over records whose keys may or may not clash on the primary key or on a secondary unique constraint',
  'The tests do one clashing insertion and one lookup on short fixed tables; the index is maintained incrementally over arbitrary histories.',
  ['record.py'],
  [('Table.insert / __setitem__ / __delitem__ keep one dictionary per unique constraint', 'record.py: class Table'),
   ('Unique descriptors', 'record.py: class Unique')],
  ['Table methods', 'getrecord', 'iteration'],
  [('records', 'ordered content of the table', 'Table._records'),
   ('unique index', 'key -> record per constraint', 'Table._unique_data')])

P('T02', 'A refused table operation leaves the table exactly as it was',
  'Whenever a table or a table set refuses an operation (duplicate key, missing referenced record, position out of range), its content, every later lookup and every later acceptance or refusal are the same as if that operation had never been attempted.',
  ['histories', 'fault_sequences'],
  'every history in which refused operations are interleaved with accepted ones, whichever constraint refuses them',
  'A test sees that one operation is refused; that nothing of it remains only shows in what later operations do.',
  ['record.py'],
  [('all constraints are checked before any index is touched', 'record.py: Table.insert / __setitem__'),
   ('foreign keys are checked before insertion', 'record.py: TableSet.insert')],
  ['Table / TableSet methods'],
  [('unique index', 'key -> record per constraint', 'Table._unique_data')])

P('T03', 'Records enter a table set only after the records they reference',
  'A record is accepted into a table set exactly when every record it references through a foreign key is present in its table at that moment and its own keys are new there; a missing reference is reported with a foreign key error and a clash with KeyError. Accepted records go to the table of their own type, in order of insertion, a bulk insertion stops at the first record refused and keeps those before it, and iterating over the set yields its non-empty tables in definition order.',
  ['histories', 'inputs'],
  'every order of insertion of referencing and referenced records, singly or in bulk, for every shipped family of record types',
  'Insertion orders and partially present references are unbounded; the tests only convert complete, ordered files.',
  ['record.py', 'records.py'],
  [('TableSet.check_fk / insert / insert_all', 'record.py: class TableSet'),
   ('declared foreign keys', 'records.py')],
  ['TableSet.insert', 'TableSet.insert_all', 'TableSet iteration'])

P('R01', 'Casting, validity and assignment of a record always agree',
  'A record is valid exactly when every one of its columns can be converted by the rule of its field and all extra constraints of its type hold. Converting a record yields one value per column, in column order, or else an error that lists exactly the columns that cannot be converted, with their positions. Assigning a column, by name or by position, succeeds exactly when the new value is convertible, and a refused assignment leaves the record unchanged.',
  ['inputs', 'histories'],
  'every record type, every content of its columns, every sequence of column assignments',
  'The tests use one record type with a few values; types, columns and values combine freely.',
  ['record.py', 'records.py'],
  [('Record.is_valid / cast / to_tuple / __setitem__', 'record.py: class Record'),
   ('fields in definition order', 'record.py: MetaRecord'),
   ('Exposure area constraint', 'records.py: Exposure.check_area')],
  ['is_valid', 'cast', 'to_tuple', 'item assignment', 'attribute access'])

P('R02', 'Records, tables and weighted sequences are equal iff same length and content',
  'Two records or two tables, or either and a plain sequence, compare equal exactly when they have the same length and equal items in the same order, and two weighted sequences exactly when their items are so; comparing never fails because the lengths differ, and "not equal" is always the negation of "equal".',
  ['inputs'],
  'every pair of records, tables, weighted sequences or plain sequences, of equal or different lengths and contents, including one being a prefix of the other',
  'Equality must hold for all pairs; the tests compare a few equal ones.',
  ['record.py', 'general.py'],
  [('Record.__eq__/__ne__, Table.__eq__/__ne__', 'record.py'),
   ('WeightedSequence.__eq__', 'general.py')],
  ['== and !='])

P('R03', 'A record type has its own and inherited fields, keys and checks',
  'A record type has the fields of the types it derives from and its own, in order of definition, and its own and inherited unique constraints. A record made of texts given by position or by name has each text in its column and the others empty; its fields, the extractors of its type and its keys give the values and texts of their columns, and a table of the type enforces all its constraints and is valid exactly when all its records are. A check added to a type concerns the records of that type only. A type with an attribute of a reserved name is refused with NameError, one without primary key with AttributeError; searching records for invalid ones finds each inconvertible one once, with its position.',
  ['histories', 'inputs'],
  'every history of definitions of record types (with any bases, fields in any order of names, constraints), of checks added and records made',
  'The metaclass works for every definition a user may write; the tests define a handful of types without derivation.',
  ['record.py'],
  [('MetaRecord: fields sorted by ordinal, generated __init__, bound constraints', 'record.py: class MetaRecord'),
   ('Field and Unique descriptors', 'record.py: class Field, class Unique'),
   ('find_invalid', 'record.py: find_invalid')],
  ['fieldnames', 'records', 'Table', 'find_invalid'],
  [('types', 'fields, constraints and checks of every type', 'MetaRecord')])

P('V01', 'Numeric validators accept exactly the numbers in their range',
  'For every text, the numeric field validators (longitude, latitude, non-negative integer and float, probability and other float ranges) return the number written in the text (in double precision) when it is a number inside the documented closed range, and raise ValueError otherwise: for text that is not a number, for not-a-number, and for values outside the range, infinite ones included where the range is bounded.',
  ['inputs'],
  'every string',
  'Only a handful of strings are tested, none of them near the limits, signed zero, infinite, not-a-number, padded or in exponent form.',
  ['valid.py'],
  [('longitude, latitude, positiveint, positivefloat, FloatRange', 'valid.py')],
  ['the validators called on text'])

P('V02', 'Textual validators accept exactly their language',
  'For every text, the identifier, identifier list, choice, boolean, non-empty, optional-value and intensity-measure-type validators accept exactly the documented language, judged on the whole text, and return the documented value (the text, the list of names, the truth value, None for an empty optional field, the type with its period for spectral acceleration); any other text raises ValueError.',
  ['inputs'],
  'every string over the relevant alphabet, including prefixes, suffixes, letter case, embedded and trailing whitespace or newlines',
  'The tests try one good and one bad string per validator; languages are infinite and slips in anchoring, alternation or case only show on specific strings.',
  ['valid.py'],
  [('Regex, name, namelist, Choice, boolean, not_empty, NoneOr, IMTstr', 'valid.py')],
  ['the validators called on text'])

RT = 'The round-trip tests use one example file per model; optional attributes, several sets, differing orders and multiplicities are not exercised together.'
P('C01', 'Vulnerability models survive conversion to CSV and back unchanged',
  'Converting any well-formed vulnerability model (any number of sets and functions, sharing the intensity levels of their set) to CSV tables and back yields the same model: same sets and functions in the same order, with identical identifiers, categories, intensity measure type, levels, loss ratios, coefficients and distributions. The tables hold one row per set, per function and per level, and are all valid when the model is.',
  ['inputs', 'configurations'],
  'every well-formed discrete vulnerability model, through every kind of archive',
  RT, ['converter.py', 'records.py', 'csvmanager.py'],
  [('Vulnerability.node_to_records / to_node', 'converter.py'),
   ('record to_node', 'records.py'), ('write / read', 'csvmanager.py: CSVManager')],
  ['convert_from_node / convert_from_nrml', 'convert_to_node / convert_to_nrml', 'CSV contents'])
P('C02', 'Fragility models survive conversion to CSV and back unchanged',
  'Converting any well-formed fragility model, discrete or continuous, to CSV tables and back yields the same model: same description and limit states, one function set per taxonomy in the same order with its optional no-damage limit and type, measure type and unit, and for every limit state the same probabilities of exceedance or parameters. The tables hold one row per limit state, per function set and per datum, in that order.',
  ['inputs', 'configurations'],
  'every well-formed discrete or continuous fragility model, with or without the optional attributes',
  RT, ['converter.py', 'records.py', 'csvmanager.py'],
  [('FragilityDiscrete / FragilityContinuous node_to_records / to_node', 'converter.py')],
  ['convert_from_node', 'convert_to_node', 'CSV contents'])
P('C03', 'Exposure models survive conversion to CSV and back without loss',
  'Converting any well-formed exposure model (population or buildings) to CSV tables and back yields the same model: description, cost types and conversions, and every asset in order with its own location, taxonomy, number, optional area, and all its costs (with optional retrofitted, deductible and insurance values) and occupancies, whichever periods or cost types each asset has. Assets at the same place share one location row, and no asset, cost or occupancy is lost, duplicated or attached to another asset.',
  ['inputs', 'configurations'],
  'every well-formed exposure whose assets differ in costs, periods, optional attributes and shared or distinct locations',
  RT, ['converter.py', 'records.py', 'csvmanager.py'],
  [('Exposure.node_to_records / to_node / _assetgenerator', 'converter.py'),
   ('Location, Asset, Cost, Occupancy records', 'records.py')],
  ['convert_from_node', 'convert_to_node', 'CSV contents'])
P('C04', 'Ground motion field sets survive conversion to CSV and back unchanged',
  'Converting any well-formed ground motion field set (scenario) or collection (event based) to CSV tables and back yields the same data: every stochastic event set, and in it every field in the same order with its intensity measure type, spectral period, rupture and node values, never merging or reordering different fields.',
  ['inputs', 'configurations'],
  'every field set or collection of non-empty fields distinguished by measure type, period and rupture within their set',
  RT, ['converter.py', 'records.py', 'csvmanager.py'],
  [('GmfCollection.node_to_records / to_node', 'converter.py'),
   ('Gmf, GmfSet, GmfData records', 'records.py')],
  ['convert_from_node', 'convert_to_node', 'CSV contents'])
P('C05', 'Directory, zip and memory archives behave alike',
  'For every sequence of writing, closing, reading, listing and membership tests, the three archive kinds give the same answers: reading a file returns exactly what was last written and closed under that name, a name belongs to the archive exactly when it was written, names are listed by prefix, reading a missing name is reported as the same "not in archive" condition by every kind, and closing an archive (also when an error ends the block) leaves all its written files complete.',
  ['histories', 'configurations'],
  'every history of archive operations over several names and contents, for each archive kind (each name written at most once per zip archive)',
  'Only a zip write/read of two names is tested; equivalence is over histories and kinds.',
  ['csvmanager.py'],
  [('Archive.open/close/__contains__', 'csvmanager.py: class Archive'),
   ('TempFile.close pushes into the zip', 'csvmanager.py: class TempFile'),
   ('DirArchive, ZipArchive, MemArchive', 'csvmanager.py')],
  ['open, read, write, close, in, extract_filenames'])
P('C06', 'Searching an archive for invalid records reports every bad cell, once',
  'Searching the CSV files of an archive for invalid records reports exactly the rows with some cell that its field rejects, each once, file by file in table order and row by row, naming the file, the row and exactly the offending columns; with a limit, exactly the first ones up to the limit are reported. Searching neither stops at the first bad file nor misses optional or absent tables.',
  ['inputs', 'configurations'],
  'every archive of tables with any cells made invalid, any limit from zero to more than the number of bad rows',
  'One archive with one error is tested.',
  ['csvmanager.py', 'record.py'],
  [('CSVManager.find_invalid / _find_invalid', 'csvmanager.py'),
   ('record.find_invalid, InvalidRecord', 'record.py')],
  ['find_invalid', 'InvalidRecord attributes and message'])
P('C07', 'CSV tables are read back as written, and mismatched files are refused',
  'Rows written through the manager are read back as the same records in the same order whatever characters they contain, as often as they are read; a file whose header is not the list of column names of its type is refused naming the file, and a table that is absent reads as empty when a table set is built. The tables are grouped by file prefix: the conversion used is the one of the record types found, files that do not follow the naming convention are ignored, and an archive with none, or with several groups where a single one is required, is refused.',
  ['inputs', 'configurations', 'histories'],
  'every content of the cells, header, set of file names in the archive and sequence of reads',
  'Quoting, odd file names, repeated reads and combinations of present and absent files are not sampled.',
  ['csvmanager.py', 'converter.py', 'record.py'],
  [('CSVManager.read / readtable / write', 'csvmanager.py'),
   ('CSVManager._getmanagers / _getconverter / get_tableset', 'csvmanager.py'),
   ('Converter.recordtypes', 'converter.py')],
  ['read, readtable, write, get_tableset, convert_to_node'])
P('C08', 'The conversion script round-trips files and reports invalid ones',
  'Run on an XML model the script creates an archive (directory or zip) of its CSV tables, and run on such an archive it creates an XML file with the same model for every group of tables in it, in the given output archive or else in the input one. When the tables contain invalid records it prints each of them (up to the limit given) and exits with an error stating how many, without creating the XML.',
  ['inputs', 'configurations'],
  'every model kind, every combination of directory and zip for input and output, one or several groups per archive, valid or not, any limit',
  'The script has no test at all.',
  ['bin/NRMLconvert.py', 'csvmanager.py'],
  [('main, print_invalid, create', 'bin/NRMLconvert.py'),
   ('convert_to_nrml / convert_from_nrml, mkarchive', 'csvmanager.py')],
  ['files created', 'standard output', 'exit message'])

P('G01', 'Block splitting partitions the items by weight and kind, in order',
  'Splitting a sequence of weighted items into blocks yields non-empty blocks whose concatenation is exactly the items of positive weight, in order; all the items of a block have the same kind, its declared weight is the sum of theirs, and it exceeds the maximum only if it holds a single item. A block is closed only when the next item is of another kind or would make it exceed the maximum; a negative weight or a non-positive maximum raises ValueError.',
  ['inputs'],
  'every sequence of items with any weights (zero included), kinds and maximum weight',
  'Tests use two short sequences; zero-weight items at kind boundaries and exact-fit weights are unsampled.',
  ['general.py'],
  [('block_splitter', 'general.py')],
  ['the blocks yielded'])
P('G02', 'Splitting by hint gives homogeneous blocks close to the hinted number',
  'Splitting a sequence of positive total weight with a hint partitions its items of positive weight, in order, into blocks of homogeneous kind, none heavier than the total weight divided by the hint rounded up, unless it is a single item. With unit weights and a single kind the number of blocks is therefore at most the hint, and never less than half of it when the items are at least as many as the hint.',
  ['inputs'],
  'every sequence, hint, weights and kinds',
  'Two fixed sequences are tested.',
  ['general.py'],
  [('split_in_blocks', 'general.py')],
  ['the blocks yielded'])
P('G03', 'A weighted sequence always weighs the sum of what was put in it',
  'After any sequence of appends, insertions, extensions, additions of sequences and merges, a weighted sequence contains the items in the places those operations define and its weight is the sum of the weights of the items put in; adding or merging never alters the operands. Ordering between weighted sequences is by weight.',
  ['histories', 'inputs'],
  'every history of insertions and concatenations over any items and weights',
  'One merge and one append are tested.',
  ['general.py'],
  [('WeightedSequence.insert / __add__ / merge / __lt__', 'general.py')],
  ['weight, items, <'],
  [('weight', 'running total', 'WeightedSequence.weight')])
P('G04', 'Deep comparison reports equality exactly, and never raises',
  'Comparing two structures built from numbers, strings, lists, tuples, dictionaries and objects answers "equal" exactly when they have the same shape, keys and classes, numbers equal to the given number of decimals and everything else equal, disregarding at every level the excluded attributes and keys; otherwise it answers "different" with a non-empty message. It never fails with an exception of its own, whatever differs.',
  ['inputs'],
  'every pair of nested structures, any precision and exclusion list',
  'A few hand-made pairs are tested; mismatched shapes, keys and types at depth are not.',
  ['general.py'],
  [('deep_eq / _deep_eq', 'general.py')],
  ['the pair (flag, message)'])
P('G05', 'Small utilities: distinct values, ceiling division, truth words, files',
  'Removing duplicates keeps the first occurrence of every value in order; ceiling division of a number by a positive one (in double precision) is the smallest integer not below the quotient; a text is true exactly when it is one of the four documented words in any letter case; a temporary file is created in the directory asked for (made if missing) with the prefix, suffix and exact content asked for.',
  ['inputs'],
  'every sequence, pair of numbers, text, directory and content',
  'One or no example of each is tested.',
  ['general.py'],
  [('distinct, ceil, str2bool, writetmp', 'general.py')],
  ['return values', 'files created'])

P('P01', 'Parallel map-reduce applies each task once and aggregates each result once',
  'Whatever the order in which parallel tasks complete, map-reduce applies the function exactly once to each tuple of arguments and passes each result exactly once to the aggregation, in order of completion, starting from the given accumulator; when distribution is disabled the result is that of the plain sequential reduction in order of submission. A task manager can be used again after collecting or waiting, without earlier results being aggregated twice, and waiting returns the number of tasks spawned. An error raised by the aggregation function surfaces unchanged.',
  ['schedules', 'inputs', 'histories'],
  'every completion order, number of tasks (zero included), aggregation, and sequence of submit / collect / wait on one manager, with distribution on or off',
  'The parallel module has no tests, and completion order is nondeterministic.',
  ['parallel.py'],
  [('TaskManager.submit / aggregate_results / aggregate_result_set / wait', 'parallel.py'),
   ('map_reduce', 'parallel.py'), ('no_distribute', 'parallel.py')],
  ['aggregation calls', 'results', 'calls of the task function'],
  [('results', 'pending results', 'TaskManager.results')])
P('P02', 'A failing task surfaces as an error carrying its message and traceback',
  'If any task raises, collecting the results raises RuntimeError whose text contains the name and message of the task exception and its traceback, at the point the failed result is reached; results that completed before it have been aggregated and no result of a failed task ever is. Tasks themselves never propagate their exceptions to the submitter.',
  ['fault_sequences', 'schedules'],
  'every set of failing tasks, exception type and completion order, with distribution on or off, with plain or pickled arguments',
  'Failures times completion orders; no test exists.',
  ['parallel.py'],
  [('safely_call', 'parallel.py'), ('aggregate_results raises RuntimeError', 'parallel.py')],
  ['exceptions raised', 'aggregation calls'])
P('P03', 'Progress reports start with the number of tasks and end at 100%',
  'While the results of n tasks are collected the progress log first tells how many tasks of which name were spawned, then shows a new percentage whenever the integer part of the share of tasks done grows, and ends with exactly one 100% once all are done, never before; with no task at all nothing fails.',
  ['inputs', 'schedules'],
  'every number of tasks and completion order, one or several collections in a row',
  'No test; percentages and boundaries depend on the count.',
  ['parallel.py'],
  [('log_percent_gen', 'parallel.py'), ('agg_and_percent', 'parallel.py')],
  ['progress calls'])
P('P04', 'Pickled arguments keep their values and repeated objects are pickled once',
  'Pickling a sequence of objects gives one wrapper per element, in order, which unpickles to an equal object and reports its class and size; elements that are the same object share one wrapper and already pickled elements are kept as they are. Calling a function on pickled arguments gives the pickled outcome of calling it on the originals.',
  ['inputs'],
  'every sequence of picklable objects with any pattern of repetitions and already pickled elements',
  'No test exists.',
  ['parallel.py'],
  [('Pickled, pickle_sequence, safely_call(pickle=True)', 'parallel.py')],
  ['wrappers, unpickled values'])
P('P05', 'The performance monitor measures each readable process start to stop',
  'For every set of processes and whichever of them become unreadable (access denied, or process ended) before, at the start or at the end of the block, the monitor reports for each process readable at both ends the memory at the end minus the memory at the start, in order, and never mixes measures of different processes. It records the exception that ended the block, if any, without hiding it, is ready to be used again, and always calls its exit hook once per block. Identifiers of processes that are not known (None or 0) are skipped; without any, the current process is watched.',
  ['fault_sequences', 'inputs', 'histories'],
  'every list of processes, memory readings and points at which access is denied or a process ends, blocks ending normally or with an exception, several blocks in a row',
  'No test; access denial is a fault the tests cannot provoke.',
  ['parallel.py'],
  [('PerformanceMonitor.measure_mem / __enter__ / __exit__', 'parallel.py')],
  ['mem, exc, duration, start_time, on_exit'])

P('L01', 'A source model logic tree enumerates every path once, weights summing to 1',
  'Full enumeration of a valid source model logic tree yields exactly once each path from the root to a final branch, following for every branch the branch set attached to it (by the explicit list of branches, or to all still open branches of the previous level), in depth-first document order. Each realization carries the value of its root branch, the identifiers along the path and the exact product of the branch weights, and the weights sum to one.',
  ['inputs'],
  'every valid tree: any levels, branch sets per level, explicit or implicit attachment, branches that end early, decimal weights',
  'Tests use a few fixed trees; shape, attachment and early ends combine.',
  ['logictree.py'],
  [('parse_branchinglevel, apply_branchset, open ends', 'logictree.py: BaseLogicTree, SourceModelLogicTree'),
   ('BranchSet.enumerate_paths', 'logictree.py'), ('BaseLogicTree.__iter__', 'logictree.py')],
  ['iteration over the logic tree'],
  [('open ends', 'branches of the previous level without children', 'BaseLogicTree.open_ends')])
P('L02', 'Invalid logic trees are refused, naming the file and the line at fault',
  'Loading a source model or ground motion logic tree with validation accepts it exactly when it obeys all the documented rules (weights summing to one, unique branch identifiers, known and allowed filters, allowed uncertainty types per level, well-formed values, attachment only to open branches of the previous level, every tectonic region covered exactly once); otherwise it raises a validation error carrying the file name, base path and the line of the first offending element, and an unreadable document or source model a parsing error naming that document.',
  ['inputs'],
  'every tree obtained from a valid one by breaking any of the rules anywhere',
  'Each rule is tested once at one place; rules must hold wherever they are broken and in every combination.',
  ['logictree.py'],
  [('validate_filters, validate_branchset, validate_uncertainty_value, validate_tree, parse_branches, apply_branchset', 'logictree.py'),
   ('ValidationError.lineno', 'logictree.py')],
  ['exception raised by the constructor'])
P('L03', 'Sampling picks the branch whose weight interval holds the random number',
  'Sampling a weighted sequence picks, for each random number, the branch whose cumulative weight interval contains it, consuming one number per sample; sampling a path through a logic tree does so at every branch set and follows the children of the branch picked until a final branch. Sampling is determined by the seed, gives exactly the number of samples asked for, each a path the full enumeration has, and never picks a branch of weight zero.',
  ['inputs', 'schedules'],
  'every sequence of weights summing to one, every random stream, every tree, seed and number of samples',
  'Tests check frequencies on one sequence with one seed.',
  ['logictree.py'],
  [('sample_one, sample', 'logictree.py'), ('BaseLogicTree.sample_path / __iter__', 'logictree.py')],
  ['samples returned', 'random numbers consumed'])
P('L04', 'Path uncertainties modify exactly the sources their filters select',
  'Applying the uncertainties of a path to a source applies, in path order, each uncertainty of the path to the magnitude distribution of the source exactly when the source passes all the filters of its branch set (identifier, tectonic region, source type with area distinct from point) and the distribution is Gutenberg-Richter, changing exactly the parameters that uncertainty is about. Every other source is left untouched.',
  ['inputs', 'histories'],
  'every path, every filter combination, source type and distribution, several sources in turn',
  'Tests apply one uncertainty to one source with mocked distributions.',
  ['logictree.py'],
  [('make_apply_uncertainties', 'logictree.py'),
   ('BranchSet.filter_source / apply_uncertainty', 'logictree.py')],
  ['parameters of the source after application'])
P('L05', 'The ground motion logic tree maps each known region to the chosen model',
  'A ground motion logic tree read for a set of tectonic regions keeps exactly the branch sets of those regions, in file order, skipping the others wherever they are; enumerating it gives the full product of their branches with the exact product of weights summing to one, and the mapping of a path has one entry per region of the tree, namely the model named by the branch the path takes there.',
  ['inputs'],
  'every ground motion logic tree, every set of known regions, every path',
  'Tests use trees in which all regions are known or the unknown ones are last.',
  ['logictree.py'],
  [('GMPELogicTree.skip_branchset_condition / make_trt_to_gsim', 'logictree.py'),
   ('parse_branchinglevel', 'logictree.py')],
  ['iteration, make_trt_to_gsim'])
P('L06', 'Ground motion realizations are the weighted product over regions',
  'The realizations of a ground motion logic tree file filtered on a set of regions are exactly the combinations of one branch per selected region present in the file: each maps every region to the model of its branch, carries the identifiers of its branches and the exact product of their weights, the combinations are all distinct, sum to weight one and are as many as the declared number of paths, itself the product of the declared branches per branch set. Several branch sets in a level, a non ground-motion uncertainty, a region defined twice, weights not summing to one, repeated regions in the request, or no region found are refused.',
  ['inputs'],
  'every file, whatever the identifiers of branch sets and branches and their order, and every requested set of regions',
  'One file whose identifiers happen to be in order is tested; the outcome must not depend on names.',
  ['logictree.py'],
  [('GsimLogicTree._parse_lt / __iter__ / get_num_paths / get_num_branches', 'logictree.py'),
   ('ordering of branches', 'logictree.py: BranchTuple')],
  ['realizations, get_num_paths, get_num_branches, values'])

P('S01', 'Reading a source model groups every source once by tectonic region',
  'Reading a source model returns one group per tectonic region present, ordered by number of sources and then by name, that together hold every source of the model exactly once, in file order and after the uncertainties were applied to it exactly once; the minimum and maximum magnitude of a group are those of its sources. A repeated source identifier is refused, naming it.',
  ['inputs', 'histories'],
  'every sequence of sources over any regions, magnitudes and identifiers, any uncertainty function',
  'One example file is tested.',
  ['source.py'],
  [('parse_source_model', 'source.py'), ('SourceCollector.update / __lt__', 'source.py')],
  ['groups returned'])
P('S02', 'Splitting a source conserves its rates and gives distinct, faithful parts',
  'Splitting a fault source gives one source per magnitude of non-zero rate, in order, each with exactly that magnitude and rate; splitting an area source gives one point source per point of its grid, each with the magnitudes of the area and an equal share of its rates; any other source is returned as it is. The parts have distinct identifiers derived from that of the source, inherit all its other attributes, and the source itself is unchanged.',
  ['inputs'],
  'every source kind, any distribution with any pattern of zero rates, any discretization',
  'One example of each kind, with no zero rates, is tested.',
  ['source.py'],
  [('split_source, split_fault_source, area_to_point_sources', 'source.py')],
  ['sources yielded'])
P('S03', 'Filtering and blocking sources keeps exactly the selected parts, once',
  'Filtering a group of sources gives a group of the same region with exactly the sources the filter accepts, in order, with their magnitude range. Generating blocks with a filter yields every part having ruptures of every accepted source exactly once, in order, in blocks not heavier in ruptures than the limit for the group (its maximum weight times n/(n+100) for n sources) unless of a single part; afterwards the group holds exactly the parts of the accepted sources, its rupture count is that of these parts (also when the blocks are generated again), and its filtered/total counters are the number of these parts and that number plus the sources rejected.',
  ['inputs', 'histories'],
  'every group of sources, filter, maximum weight and discretization',
  'One configuration is tested.',
  ['source.py', 'general.py'],
  [('SourceCollector.filter_sources / gen_blocks / update_num_ruptures', 'source.py'),
   ('block_splitter', 'general.py')],
  ['blocks, sources, num_ruptures, filtered_sources'],
  [('sources', 'sources of the group', 'SourceCollector.sources'), ('filtered_sources', 'counters', 'SourceCollector.filtered_sources')])
P('S04', 'Conversion to hazard sources keeps every parameter and is repeatable',
  'Converting a source or rupture description of any kind (point, area, simple, complex and characteristic fault; simple and complex rupture; either magnitude distribution; every surface kind) gives the corresponding hazard object carrying exactly its parameters and the calculation ones, with geometries point by point in order. The description itself is not altered, so converting it again gives the same result, and an error in the conversion is raised with its own type, naming the identifier and name of the source.',
  ['inputs', 'histories'],
  'every kind of description with any valid or invalid parameter values, converted once or several times, also with different calculation parameters',
  'One example of each kind is compared once.',
  ['source.py'],
  [('NrmlHazardlibConverter', 'source.py')],
  ['attributes of the converted objects', 'exceptions'])

P('I01', 'A job configuration yields every parameter and absolute paths of all inputs',
  'Parsing a configuration file gives every option of every section with its value; options naming files become, under their short name, absolute paths resolved against the directory of the configuration file unless already absolute; a site file becomes the multipoint of its coordinates in order; a source model logic tree adds the sorted, duplicate-free list of the source model files it references, resolved in the same way, whatever whitespace surrounds their names.',
  ['inputs', 'configurations'],
  'every set of sections and options, relative or absolute paths, current directory, site list and logic tree',
  'Two configurations are tested.',
  ['readini.py'],
  [('parse_config, _collect_source_model_paths, _parse_sites_csv', 'readini.py')],
  ['the dictionary returned'])
P('K01', 'Vulnerability risk models hold exactly the functions of the given files',
  'Loading risk models for a list of loss types gives, for each taxonomy found in any of the vulnerability files present (the retrofitted ones if asked), one model holding exactly the functions defined for it, under the loss type of their file (fatalities being those of the occupants file), each with the levels, ratios, coefficients, measure type and distribution of the file. Absent files are skipped; a taxonomy defined twice in a file or an invalid function is refused with ValueError naming it.',
  ['inputs', 'configurations'],
  'every combination of loss types, files present, taxonomies shared or not, normal or retrofitted',
  'One file is tested.',
  ['riskloaders.py'],
  [('get_taxonomy_vfs, get_risk_models, _get_vulnerability_functions', 'riskloaders.py')],
  ['risk models returned', 'ValueError'])
P('K02', 'Damage models hold one function per limit state for each taxonomy',
  'Loading a fragility model gives the damage states, "no_damage" followed by the limit states in order, and for each taxonomy a model with the intensity measure type of its function set and exactly one function per limit state, in order, with the levels and probabilities (or mean and deviation) of the file; in a discrete model a no-damage limit is prepended as a level of zero probability, and without one the first level is the limit.',
  ['inputs'],
  'every discrete or continuous fragility model, function sets with or without no-damage limit, distinct taxonomies',
  'Two files are tested.',
  ['riskloaders.py'],
  [('get_damage_states_and_risk_models', 'riskloaders.py')],
  ['damage states and models returned'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(p) + '\n')
print(len(PROPS), 'properties')
