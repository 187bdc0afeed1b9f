"""Writes properties.jsonl (one place to edit the wording)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

p('C01', 'Flat logit results are the exact multinomial-logit distribution',
  'For a model without nests, every decision unit whose utilities are usable gets, from a stochastic run, probabilities in [0, 1] that sum to 1 and equal exp(utility) divided by the sum of exponentials over that unit\'s alternatives, with exactly 0 for an alternative whose utility is minus infinity. The returned per-unit total and per-alternative logsum terms are that sum of exponentials and the individual exponentials. This holds for either utility precision, any number of alternatives and units, and each unit\'s result depends only on its own row of utilities.',
  ['inputs', 'configurations'], 'every utility table (including unavailable and very large/small utilities), both precisions, any table shape and thread count',
  'The tests compare one hard-coded 8-vector of positive utilities and a 5x6 table against the function itself; zero-probability cells, single-precision, magnitude extremes and cross-row effects are never evaluated.',
  ['cheval/core.py', 'cheval/model.py'],
  [('multinomial_probabilities', 'cheval/core.py'), ('worker_multinomial_probabilities', 'cheval/core.py'), ('ChoiceModel.run_stochastic', 'cheval/model.py')],
  observe=['ChoiceModel.run_stochastic return values'])

p('C02', 'Nested logit results equal the recursive nested-logit formula',
  'For every nesting structure, assignment of logsum scales in (0, 1] and utility table, the probabilities of the elemental alternatives equal the product of conditional choice probabilities down the tree computed by the recursive nested-logit formula, sum to 1 for each decision unit, and never put mass on a nest node or below an infeasible nest. With utility scaling on, the utilities below a nest are divided by that nest\'s logsum scale, and with scaling off they are not; the total and per-node logsum outputs follow the same recursion. The result does not depend on the order in which the tree was built.',
  ['inputs', 'configurations'], 'every tree shape and construction order, logsum-scale vector, scaling flag and utility table including unavailable alternatives and unavailable nests',
  'One 8-node tree with one utility vector is compared to one stored answer; other shapes, depths, construction orders, disabled nests and unscaled utilities are untested.',
  ['cheval/core.py', 'cheval/model.py', 'cheval/api.py'],
  [('nested_probabilities', 'cheval/core.py'), ('ChoiceModel._flatten', 'cheval/model.py'), ('ChoiceModel._build_nested_stochastic_frame', 'cheval/model.py')],
  observe=['ChoiceModel.run_stochastic return values'])

p('C03', 'Sampling inverts the cumulative distribution and never picks the impossible',
  'For every probability vector and every uniform draw in [0, 1], the sampled alternative is one whose share of the cumulative distribution contains the draw, so its probability is strictly positive. This holds for single and repeated draws, flat and nested models and plain weights, including leading, trailing and interior zero-probability alternatives and draws at or next to 0 and 1. Raising the draw never moves the sampled alternative to an earlier position.',
  ['inputs'], 'every probability vector or utility row with any pattern of zeros, every draw value including the end points and cumulative break points',
  'Tests try a few mid-interval draws on a handful of vectors; the last floating-point value below 1, zero-probability tails and the break points of each search path are not covered.',
  ['cheval/core.py'],
  [('sample_once', 'cheval/core.py'), ('logarithmic_search', 'cheval/core.py'), ('sample_multi', 'cheval/core.py'), ('simple_sample / multinomial_sample / nested_sample', 'cheval/core.py')],
  observe=['return values of the sampling functions', 'ChoiceModel.run_discrete'])

p('C04', 'Results are reproducible and independent of threads and schedules',
  'With a given integer seed a discrete run returns the same choices and logsums every time, for every thread count and every way the decision units are distributed over or interleaved between worker threads; stochastic runs and partial-utility additions are likewise independent of threading. The draw applied to a decision unit depends only on the seed, the unit\'s position, the draw number and whether draws are repeated, never on the other units\' utilities, and different units and draws get different uniform numbers. A run seeded from a random generator object is a function of that generator\'s state.',
  ['schedules', 'configurations', 'inputs'], 'all thread counts, iteration-to-thread assignments and interleavings of the parallel loops, all seeds and draw counts',
  'Tests run the parallel workers once with the default thread count; no test varies threads, chunking or interleaving, so shared scratch state or thread-local randomness is invisible to them.',
  ['cheval/core.py', 'cheval/model.py'],
  [('worker_* prange loops', 'cheval/core.py'), ('generate_rand_*_for_parallel', 'cheval/core.py'), ('_fast_indexed_add_*', 'cheval/core.py'), ('ChoiceModel.run_discrete', 'cheval/model.py')],
  observe=['ChoiceModel.run_discrete / run_stochastic / add_partial_utilities'])

p('C05', 'Unusable utilities are always reported, never turned into results',
  'If any cell of the utility table is not-a-number, or some decision unit\'s exponentiated utilities overflow, the run raises the utility-bounds error instead of returning results. If a unit has no feasible alternative, a discrete run always raises that error and a stochastic run raises it unless the infeasibility check was disabled, in which case that unit\'s probabilities are all 0 and every other unit is unaffected. The report is independent of which unit is bad, how many there are, the thread count and the schedule.',
  ['inputs', 'fault_sequences', 'schedules'], 'every position and number of bad cells/units, flat and nested models, every thread count and schedule',
  'No test feeds NaN, infeasible or overflowing utilities; an error raised inside one parallel iteration is only visible for particular schedules.',
  ['cheval/core.py', 'cheval/model.py'],
  [('NaN scan in ChoiceModel._evaluate_utilities', 'cheval/model.py'), ('infeasibility checks in worker_*', 'cheval/core.py')],
  observe=['exceptions raised by ChoiceModel.run_discrete / run_stochastic'])

p('C06', 'Run outputs are labelled with the right units and alternatives',
  'Results of a run carry the decision units as their index in the given order, and stochastic tables carry the model\'s alternatives as columns in insertion order (elemental alternatives only for nested probabilities). In a discrete run, for every requested result type and number of draws, the label reported for a unit and draw is the alternative at the sampled position (a path tuple for nested models), so all result types agree with the positional result for the same seed. Squeezing and naming affect only the container: a Series for one squeezed draw, otherwise a table with one column per draw.',
  ['inputs', 'configurations'], 'every combination of result type, draw count, squeeze flag, naming, index kind (including duplicate labels) and tree shape',
  'No existing test calls run_discrete or run_stochastic on a model at all.',
  ['cheval/model.py'],
  [('ChoiceModel._convert_result', 'cheval/model.py'), ('ChoiceModel.choices / elemental_choices', 'cheval/model.py')],
  observe=['ChoiceModel.run_discrete / run_stochastic return values'])

p('C07', 'Utility expressions mean what the written formula means',
  'The utility contributed by an expression equals the value of the written formula under ordinary Python precedence, evaluated cell by cell over decision units and alternatives, with and/or/not acting element-wise, chained comparisons meaning the conjunction of their links, and scalar, unit-oriented, alternative-oriented and table operands broadcast to the full table. This includes unary minus on any operand, nested function calls, boolean terms, links to related tables inside the formula, and the special values for not-a-number and minus infinity. Syntax that cannot be honoured is rejected rather than evaluated to something else.',
  ['programs', 'inputs'], 'every expression of the supported grammar over every kind of operand',
  'The expression tests are commented out in the repository, and one test evaluates one where() expression; operator combinations, precedence and operand kinds are untested.',
  ['cheval/parsing/ast_transformer.py', 'cheval/parsing/expressions.py', 'cheval/model.py'],
  [('ExpressionParser visitors', 'cheval/parsing/ast_transformer.py'), ('ChoiceModel._evaluate_utilities / _kernel_eval', 'cheval/model.py')],
  observe=['per-alternative exponentials returned by ChoiceModel.run_stochastic'])

p('C08', 'Alternative-specific terms touch exactly the alternatives they name',
  'A dictionary literal in an expression contributes its constants, at the model\'s precision, exactly to the alternatives named by its keys and 0 elsewhere: a dotted path names exactly that node, and a path ending in an underscore names every node below that nest but not the nest itself, whatever the order of the keys. An expression restricted to one alternative with "@" changes only that alternative\'s utility, and by the value the unrestricted formula has there. This holds at every depth of nesting, for every operand kind in the formula, and names that match no alternative are rejected.',
  ['inputs', 'programs'], 'every tree shape, target node, key form, key order and operand kind',
  'Dictionary-literal tests are commented out; filters and underscore keys are not exercised anywhere.',
  ['cheval/parsing/expressions.py', 'cheval/parsing/ast_transformer.py', 'cheval/model.py', 'cheval/api.py'],
  [('Expression._prepare_dict_literals/_insert_dict_val', 'cheval/parsing/expressions.py'), ('ChoiceModel._make_column_mask', 'cheval/model.py'), ('ChoiceNode.nested_id', 'cheval/api.py')],
  observe=['per-alternative exponentials returned by ChoiceModel.run_stochastic'])

p('C09', 'Assigned data is matched to units and alternatives by label',
  'Data assigned to a declared variable enters the utilities of exactly the decision unit and alternative its labels name: vectors and tables must carry the matching index or be rejected, and matrices are placed by row and column label in any order, in either declared orientation, with uncovered rows or columns filled with the declared fill value when expansion is allowed. A matrix with labels unknown to the model, or needing an expansion that is not allowed, a wrong length, a missing mandatory attribute or a forbidden linked table is rejected instead of being misplaced. The variable keeps its last successfully assigned data.',
  ['inputs', 'configurations'], 'every row/column subset and permutation, orientation, expansion flags, fill value, data type and index kind',
  'No test assigns data to a model symbol.',
  ['cheval/api.py'],
  [('VectorSymbol/TableSymbol/MatrixSymbol.assign', 'cheval/api.py'), ('TableSymbol._get', 'cheval/api.py')],
  observe=['utilities observed through ChoiceModel.run_stochastic'])

p('C10', 'Utilities add up however the specification is organised',
  'The utility of a decision unit for an alternative is the sum of all its expressions plus any partial utilities added to the model, regardless of the order of the expressions, their split into groups, whether the partial utilities arrive as one table or several (aligned by label, expanded with zeros where allowed and rejected where not), or whether a group was pre-evaluated first. Running a single group uses exactly that group\'s expressions. Pre-evaluating a group and running the rest gives the same result as running everything, in the original model and in copies, and removes from the scope only variables that no remaining expression uses. Combining two specifications with + holds the expressions of both, group by group and in order, and leaves both untouched and independent of the result.',
  ['histories', 'inputs', 'configurations'], 'every partition of expressions into groups, pre-evaluation order and option, partial-utility label subset, and interposed copy',
  'No test uses expression groups, pre-evaluation or partial utilities.',
  ['cheval/model.py', 'cheval/api.py', 'cheval/core.py'],
  [('ChoiceModel.preval', 'cheval/model.py'), ('ChoiceModel.add_partial_utilities', 'cheval/model.py'), ('fast_indexed_add', 'cheval/core.py'), ('ExpressionGroup', 'cheval/api.py')],
  observe=['ChoiceModel.run_stochastic'])

p('C11', 'A model\'s results depend only on its current specification, not its past',
  'After any history of assignments, runs (successful or failing), re-assignments, changes of decision units and pre-evaluations, a run returns what a freshly built model with the same alternatives, expressions, partial utilities and assigned data would return. In particular running a model twice gives the same answer twice, and changing the decision units discards everything tied to the old ones while keeping unit-independent scalars. Disabling the release of assigned data keeps the model immediately runnable again; leaving it enabled releases the data.',
  ['histories', 'fault_sequences'], 'every operation sequence up to a bounded length, including failing operations',
  'No test runs any model operation sequence; all model tests use a tree only to build arrays.',
  ['cheval/model.py', 'cheval/api.py'],
  [('cached partial utilities', 'cheval/model.py'), ('decision_units setter', 'cheval/model.py'), ('AbstractSymbol.empty', 'cheval/api.py')],
  state=[dict(name='partial utility cache', meaning='utilities already accumulated for the current units', where='cheval/model.py')],
  observe=['ChoiceModel.run_stochastic / run_discrete after each history'])

p('C12', 'Copies and subsets are independent and equivalent to the original',
  'A copy of a model gives the same results as the original for the parts that were requested to be copied, and a copy restricted by a boolean mask gives exactly the original\'s results for the selected decision units, in order. From then on assignments, expression changes, group removal, pre-evaluation, partial utilities, decision-unit changes and alternatives added at the top level on either one never affect the other. Options that exclude declared variables, assigned data, expressions, decision units or partial utilities exclude exactly those.',
  ['histories', 'inputs', 'configurations'], 'every mask, every combination of copy options and every pair of operations applied after copying on either side',
  'copy() and copy_subset() are not called by any test.',
  ['cheval/model.py', 'cheval/api.py'],
  [('ChoiceModel.copy / copy_subset', 'cheval/model.py'), ('*Symbol.copy, ExpressionGroup.copy', 'cheval/api.py')],
  observe=['ChoiceModel.run_stochastic on both models'])

p('C13', 'The choice tree stays consistent under every construction history',
  'After any sequence of adding alternatives and nests, singly or in batches, including re-adding an existing name at any level, the model\'s alternatives are exactly the latest definition of each node in order of (re-)insertion, a replaced node takes its old descendants with it, and depth, elemental alternatives and hierarchy agree with that tree. A rejected addition (illegal name or logsum scale) leaves the tree as it was. Partial utilities computed for a previous tree are never applied to a changed one, and a model with fewer than two top-level alternatives or a nest with one child refuses to run.',
  ['histories'], 'every sequence of add operations up to a bounded length, with repeated and illegal names and scales',
  'One test builds one fixed tree.',
  ['cheval/model.py', 'cheval/api.py'],
  [('ChoiceModel._create_node/add_choice/add_choices', 'cheval/model.py'), ('ChoiceNode', 'cheval/api.py'), ('ChoiceModel.validate', 'cheval/model.py')],
  observe=['ChoiceModel.choices/elemental_choices/depth, run results'])

p('C14', 'A model runs if and only if what it uses is declared and assigned',
  'A run is refused with the not-ready error exactly when decision units are missing, the tree is incomplete, or a variable used by an expression that would be evaluated is undeclared or unassigned; variables that only appear in other groups, in removed groups or in rejected expressions never matter. An expression that is rejected for syntax or for using one name both as a plain variable and as a table leaves the specification exactly as it was. Reserved names cannot be declared and need no declaration to be used.',
  ['histories', 'programs'], 'every sequence of declare, assign, append (valid or rejected, grouped or not), drop, clear, copy and run up to a bounded length',
  'No test exercises validation.',
  ['cheval/model.py', 'cheval/api.py', 'cheval/parsing/ast_transformer.py'],
  [('ChoiceModel.validate', 'cheval/model.py'), ('ExpressionGroup.append and symbol sets', 'cheval/api.py')],
  observe=['exceptions and results of run_stochastic/run_discrete/validate'])

p('C15', 'A linked attribute is the key join, with fill for unmatched rows',
  'For every pair of tables and every supported way of naming the link keys (columns, index levels or whole indexes, one or several), looking up an attribute through a non-aggregating link returns, for each source row in order and carrying the source\'s index, the attribute of the one target row with the same key, or the type\'s fill value if there is none. The link reports that aggregation is required exactly when source keys are unique and target keys are not, and many-to-many or mis-specified links are rejected. Links over several hops compose: each hop follows the keys of the row reached before it.',
  ['inputs', 'configurations'], 'every assignment of keys (repeated, missing, unmatched, unordered) to small source, intermediate and target tables, every key mode, data type and eager or deferred indexing',
  'Tests use one 5-row and one 4-row table with complete keys and one 4/3-row table with one missing key.',
  ['cheval/ldf/api.py', 'cheval/ldf/missing_data.py'],
  [('_LinkMeta', 'cheval/ldf/api.py'), ('_IndexMeta.get_indexer', 'cheval/ldf/api.py'), ('_BaseNode._resolve_history', 'cheval/ldf/api.py')],
  observe=['frame.link.attribute lookups'])

p('C16', 'Aggregating through a link reduces exactly the matching target rows',
  'Reducing an attribute or expression through a one-to-many link gives each source row, in order and carrying the source\'s index, the reduction over exactly those target rows whose key equals its own; target rows with missing or unmatched keys contribute to no one. Source rows without matches get a missing marker: the integer fill (default -1) where the reduced values are integers, false for booleans, a null otherwise. This holds for all supported reductions, for key orders and group sizes of any kind, and at the end of a multi-hop path.',
  ['inputs', 'configurations'], 'every assignment of keys to target rows (unsorted, repeated, missing, unmatched), every supported reduction and value type',
  'Tests cover sum on one table whose keys are complete and already sorted.',
  ['cheval/ldf/api.py'],
  [('_LeafAggregation._Aggregator.__call__', 'cheval/ldf/api.py'), ('_LinkMeta._make_indexer', 'cheval/ldf/api.py')],
  observe=['frame.link.<reduction>(expr) results'])

p('C17', 'Row operations never detach links from their rows',
  'After any sequence of row selections and reorderings of a linked table (masks, positional and label selection, slices with any step, head/tail, sampling, sorting, dropping, group iteration, re-indexing), copies and column selections, in place or not, a link that is still available returns for every row what it returned for that row in the original table, and rows introduced by re-indexing match only what their own (missing or index) key matches. Row selection by mask, label, position or slice, head, tail and copies always keeps the links, and so does group iteration unless both the key columns and unique row labels are gone. This is independent of whether the link was indexed eagerly, lazily or already used.',
  ['histories', 'inputs'], 'every sequence of row/column operations up to a bounded length, every link kind and indexing state',
  'Tests apply one mask, one label list and one groupby; sequences, sorting, sampling, reversed slices and deferred links are untested.',
  ['cheval/ldf/api.py'],
  [('LinkedDataFrame.__finalize__ and slicing overrides', 'cheval/ldf/api.py'), ('_LinkMeta.copy', 'cheval/ldf/api.py')],
  state=[dict(name='row indexer of each link', meaning='target position for each source row', where='cheval/ldf/api.py')],
  observe=['frame.link.attribute after the operations'])

p('C18', 'Eager, deferred and refreshed link indexes agree and track the tables',
  'A link indexed at creation, on first use or by an explicit request gives the same answers, and an already used link that is explicitly refreshed after its key values changed answers according to the new keys, including which rows are unmatched. Values changed in, or columns added to, the target table after linking are visible through the link without refreshing. Requesting indexes without refreshing never changes an already indexed link.',
  ['histories'], 'every sequence of link, look-up, key change, value change, column addition, index request and refresh up to a bounded length',
  'compute_indexers and deferred indexing are not called by any test.',
  ['cheval/ldf/api.py'],
  [('_LinkMeta.precompute / indexer_and_missing', 'cheval/ldf/api.py'), ('LinkedDataFrame.compute_indexers', 'cheval/ldf/api.py')],
  observe=['frame.link.attribute and link_summary()'])

p('C19', 'Evaluating an expression on a linked table is row-wise arithmetic',
  'Evaluating an expression on a linked table returns one value per row, aligned with the table\'s index, equal to the written formula applied to that row\'s columns, supplied local values, linked attributes (over any number of hops) and aggregations. Columns take precedence over supplied locals of the same name, an output column receives the same values, and neither the table nor the supplied values are changed. Unknown names or links are rejected.',
  ['programs', 'inputs'], 'every expression of the grammar over columns, locals, links and aggregations on every small table, with any index including duplicates',
  'One where() expression on one complete table is tested.',
  ['cheval/ldf/api.py', 'cheval/parsing/ast_transformer.py', 'cheval/parsing/expressions.py'],
  [('LinkedDataFrame.evaluate', 'cheval/ldf/api.py'), ('ExpressionParser', 'cheval/parsing/ast_transformer.py')],
  observe=['LinkedDataFrame.evaluate return values'])

p('C20', 'Pivoting by linked attributes equals pivoting a table that contains them',
  'A pivot of a linked table whose values, rows and columns are given as column names or link expressions, singly or as lists, equals the ordinary pivot of a plain table into which those columns and linked attributes were copied row by row. Unmatched links enter with their fill value. The result carries no links and the table is unchanged.',
  ['inputs', 'configurations'], 'every small table, choice of values/rows/columns (plain, linked, aggregated; single or list) and aggregation function',
  'Two pivots of one data set are tested, each with one value, one row key and one column key.',
  ['cheval/ldf/api.py'],
  [('LinkedDataFrame.pivot_table / _resolve_columns', 'cheval/ldf/api.py')],
  observe=['LinkedDataFrame.pivot_table results'])

p('C21', 'Fill values for unmatched rows follow the configured precedence',
  'The value returned for an unmatched row is the fill configured for that column of the target if there is one, else the target table\'s own default for the attribute\'s data type (the class-wide default for a plain table), else the documented default of the type. Setting, temporarily overriding and resetting defaults on one table or on the class affects exactly that table or class, leaves column fills alone, and a temporary override ends with its block even if the block fails. A fill never changes matched rows.',
  ['histories', 'inputs'], 'every sequence of fill operations on class, target and bystander tables up to a bounded length, for every data type',
  'Tests only look at the built-in float and integer fills.',
  ['cheval/ldf/missing_data.py', 'cheval/ldf/api.py'],
  [('SeriesFillManager', 'cheval/ldf/missing_data.py'), ('LinkedDataFrame.set_column_fill/set_fill_defaults/reset_fill_defaults', 'cheval/ldf/api.py')],
  observe=['frame.link.attribute for unmatched rows'])

p('C22', 'User data is never modified and results are never shared',
  'Assigning data to a model, running it in any mode, pre-evaluating, copying, linking tables, looking up, aggregating, evaluating and pivoting never change the arrays, Series and tables the user supplied: values, dtypes, shapes, indexes and column sets stay as they were. A returned result can be modified freely without changing the model, the linked tables or any result returned before or after.',
  ['inputs', 'histories'], 'every operation, operand kind, memory layout and data type, and every pair of operations with an intervening modification of the result',
  'No test checks its inputs after a call.',
  ['cheval/api.py', 'cheval/model.py', 'cheval/ldf/api.py', 'cheval/utils.py', 'cheval/core.py'],
  [('VectorSymbol.assign shallow views', 'cheval/api.py'), ('convert_series/to_numpy views', 'cheval/utils.py'), ('_resolve_history copies', 'cheval/ldf/api.py')],
  observe=['user-held objects before and after each call'])

p('C23', 'Text and category comparisons in expressions are exact',
  'Comparing a text or categorical column or vector with a text literal, in a utility expression or a linked-table expression, is true exactly for the rows whose value equals the literal: no prefix matches, truncation or padding effects for any string lengths, any set and order of categories, unused categories or either operand order. Text reached through links and their fill value behaves the same way. Numeric, boolean and nullable-integer columns keep their values, with missing integers becoming not-a-number.',
  ['inputs'], 'every small vocabulary of strings with shared prefixes and different lengths, every representation (object, category, via links) and comparison form',
  'One equality on one column of short words is tested.',
  ['cheval/utils.py', 'cheval/parsing/ast_transformer.py', 'cheval/api.py', 'cheval/ldf/api.py'],
  [('convert_series', 'cheval/utils.py'), ('ExpressionParser string handling', 'cheval/parsing/ast_transformer.py')],
  observe=['ChoiceModel.run_stochastic, LinkedDataFrame.evaluate'])

p('C24', 'Tables derived by other means carry only links of their own keys',
  'The result of a table operation other than a selection of rows (aggregation, grouped transformation, reshaping, joining, concatenating, relabelling, arithmetic, editing columns in place, serialisation) has the same values, labels and columns as with a plain table. A link such a result still offers gives, for each of its rows, what the join of that row\'s own keys gives (or, where its rows are still those of the source, what the source row gave); a link whose keys are gone or ambiguous is not offered, or refuses look-ups with an ordinary error, and never gives values of other rows. Copies and unpickled tables keep every link. The links listed by dir() are those which are offered. Looking up a name which is neither a column nor a link is an ordinary missing-attribute error on every such table.',
  ['inputs', 'histories'], 'every operation and pair of operations of a catalogue, before and after row selections and look-ups, with every kind of link, key and row label, eager and deferred',
  'The tests only look up links of freshly linked tables; no derived table is looked at.',
  ['cheval/ldf/api.py', 'cheval/ldf/linkages.py'],
  [('LinkedDataFrame.__finalize__/_constructor', 'cheval/ldf/api.py'), ('LinkedDataFrame.__getstate__/__setstate__', 'cheval/ldf/api.py'), ('LinkedDataFrame.__getattr__', 'cheval/ldf/api.py')],
  observe=['frame.link.attribute of a derived table', 'hasattr(frame, link)'])

p('C25', 'Tracing a decision unit shows how its utilities add up',
  'With debug_id set to the label of any decision unit (zero and the empty text included), a run returns exactly what it returns without tracing, and debug_results then has one row per evaluated expression, in order of evaluation, labelled with the text of the expression and with one column per alternative: the utilities of that unit accumulated so far, starting from its partial utilities, of which the last row is the utility the run used. This holds for every kind of run, for refused runs (not-a-number utilities), for copies and subsets and after any history of runs and changes; without a traced unit no trace is made. A logger given to a run is told of the same expressions in the same order, and changes nothing.',
  ['histories', 'inputs'], 'every sequence of expressions and groups, unit label, kind of run and precision, and every operation sequence up to a bounded length',
  'No test sets a traced unit.',
  ['cheval/model.py'],
  [('ChoiceModel.debug_id / debug_results', 'cheval/model.py'), ('ChoiceModel._evaluate_utilities', 'cheval/model.py')],
  observe=['ChoiceModel.debug_results', 'ChoiceModel.run_stochastic', 'ChoiceModel.run_discrete'])

p('C26', 'Threads which read the same linked tables do not disturb each other',
  'Several threads may use the same linked tables at once, as long as none of them modifies a table, refreshes a link or assigns a symbol: look-ups through links (one hop or several), aggregations over them, expressions, pivots, selections of rows and copies, and runs of a model (without clearing its scope), of its copies and of its subsets. Whatever the interleaving, every thread gets exactly what it gets when it runs alone, without an error and without waiting forever, and what is found afterwards is right too. This includes links which were made without computing their indexer, whose indexer the threads have to compute while they look up.',
  ['schedules'], 'every interleaving of two readers at the lines which access what they compute lazily, up to a bounded number of preemptions; eager and deferred links; every pair of operations',
  'The tests use a single thread.',
  ['cheval/ldf/api.py', 'cheval/model.py', 'cheval/api.py'],
  [('_LinkMeta.precompute / indexer_and_missing', 'cheval/ldf/api.py'), ('LinkedDataFrame.__getitem__ / copy', 'cheval/ldf/api.py'), ('ChoiceModel.copy / run_stochastic', 'cheval/model.py')],
  observe=['LinkedDataFrame.__getattr__', 'LinkedDataFrame.evaluate', 'ChoiceModel.run_stochastic'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
