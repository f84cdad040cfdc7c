# pylint: disable=undefined-variable
U = 'arolla/util/'

prop('C01', 'Shared object is reclaimed exactly once, by its last owner',
     'However owners of a shared object are created, copied and released by concurrent threads, exactly one release reports that it was the last, and it is the release after which no owner remains. A release that reports "not last" is never followed by a state with no owners unless a later release reports it. Assigning, resetting or moving a handle neither loses nor duplicates ownership.',
     'schedules histories', 'Every interleaving of retain / release / last-owner-fast-path release by any number of threads.',
     'refcount_test counts a single-threaded sequence on one counter and never interleaves releases.',
     'arolla/util/refcount.h arolla/util/refcount_ptr.h',
     [('atomic decrement and skewed fast path', 'arolla/util/refcount.h'), ('smart pointer that deletes on the last release', 'arolla/util/refcount_ptr.h')],
     'TLA+ spec of atomic counter steps (TLC exhaustive) + TLC behaviours replayed and threaded executions trace-validated',
     'All interleavings of the abstract algorithm for small thread counts; every TLC behaviour is replayed step by step on the real counter, and threaded executions are recorded and validated. Hardware memory-order effects are only sampled.')

prop('C02', 'Parallel task execution runs every task once and waits for all',
     'Running N tasks with a parallelism limit executes each task index exactly once, never more than the limit at the same time, and returns only after every started task has finished. This holds for every scheduling of the worker threads, every positive limit and every N, including zero.',
     'schedules inputs configurations', 'Every interleaving of workers, every task count and parallelism limit, every task duration.',
     'No test of the threading utility runs in the stable suite; others use one schedule.',
     'arolla/util/threading.h arolla/util/threading.cc',
     [('shared task counter and join loop', 'arolla/util/threading.cc')],
     'TLA+ spec of the worker pool (TLC exhaustive, safety and termination) + schedule-controlled and free-running executions trace-validated',
     'Model exhaustive for small N/limits incl. liveness; the real pool is driven through schedules with a gated interface and free-running; observed start/end events validated.')

prop('C03', 'Bit-vector primitives agree with the mathematical bit sequence',
     'Every word-level bit operation (get, set, set range, count, count in range, find next, lowest/highest set bit, and, and with bit offsets, shifted copy, rounding) returns and writes exactly what the same operation does on the plain sequence of bits, and changes no bit outside the addressed range.',
     'inputs', 'All words, bit offsets, lengths and word types, in particular ranges crossing and ending at word boundaries.',
     'Tests sample a few words and offsets; boundary combinations are cubic in offset, length and alignment.',
     'arolla/util/bits.h arolla/util/algorithms.h arolla/util/algorithms.cc arolla/util/bits.cc',
     [('word bit helpers', 'arolla/util/bits.h'), ('offset conjunction and shifted copy', 'arolla/util/algorithms.h')],
     'TLA+ bit-sequence semantics; TLC enumerates boundary cases, results of the real code validated by TLC',
     'Exhaustive over boundary-structured cases for small widths plus seeded random ones; TLC computes every expected bit.')

prop('C04', 'Search and iteration helpers follow the abstract sequence',
     'Searching a sorted sequence returns the first position whose element is not less than the key (whatever the length and duplicates), indexed iterators obey random-access arithmetic and ordering over the underlying sequence, and key listings of a map are complete, sorted and duplicate free.',
     'inputs histories', 'All sorted sequences and keys; all iterator walks; all maps.',
     'Tests use a few handpicked sequences.',
     'arolla/util/algorithms.h arolla/util/iterator.h arolla/util/map.h',
     [('exponential lower bound', 'arolla/util/algorithms.h'), ('const array iterator', 'arolla/util/iterator.h'), ('sorted map keys', 'arolla/util/map.h')],
     'TLA+ sequence/iterator state machine; TLC enumerates sequences and iterator walks, replayed in the real code',
     'Exhaustive for sequences up to a small length over a small alphabet, all iterator walks to a bounded depth, plus seeded random longer ones.')

prop('C05', 'Scalar comparison and integer arithmetic are total and consistent',
     'For any two values (including NaN, infinities and signed zeros) exactly the mathematically appropriate comparison outcomes hold, comparisons of a pair are mutually consistent, and masks agree with booleans. Integer addition, subtraction, multiplication and negation wrap modulo 2^width, floor division and modulo satisfy a = floordiv(a,b)*b + mod(a,b) with the sign of the divisor, and division by zero is reported as an error instead of crashing.',
     'inputs', 'All pairs of operands of every numeric type, in particular extreme values, -1 and zero divisors, NaN and signed zeros.',
     'Tests sample a few operand pairs; overflow and special-value combinations are not enumerated.',
     'arolla/qexpr/operators/bool/comparison.h arolla/qexpr/operators/math/arithmetic.h arolla/qexpr/operators/core/utility_operators.h',
     [('comparison functors', 'arolla/qexpr/operators/bool/comparison.h'), ('wrapping arithmetic, floor division', 'arolla/qexpr/operators/math/arithmetic.h')],
     'TLA+ integer/extended-real semantics (limb arithmetic for wide words); TLC-enumerated operand pairs validated against the real functors',
     'All pairs over a boundary-dense operand set per type plus random operands; expected values computed by TLC.')

prop('C06', 'Elementary math functions respect their order, range and special values',
     'The elementary functions (logarithms, exponentials, sigmoid, logit, log-sigmoid, symmetric logs, roots, rounding) are monotone where the mathematical function is, stay inside its range, satisfy its symmetries and inverse pairs, and give the mathematical limit at zeros, infinities and NaN, for every float of both precisions without intermediate overflow.',
     'inputs', 'All floats, in particular large magnitudes, subnormals, infinities, NaN and signed zeros.',
     'No math test is in the stable suite; tests compare a few points.',
     'arolla/qexpr/operators/math/math.h arolla/qexpr/operators/math/arithmetic.h',
     [('math functors', 'arolla/qexpr/operators/math/math.h')],
     'TLA+ abstract-real specification (order, range, special points, symmetry); traces of the real functors over ordered float grids validated by TLC',
     'Order/range/symmetry/special-value relations over dense ordered grids; not last-digit accuracy.')

prop('C07', 'Accessor packs keep every name with its own accessor, in order',
     'Turning a flat pack of names and accessors into an input loader or slot listener keeps every name paired with the accessor that followed it, in the given order, with nothing dropped, duplicated or re-associated.',
     'inputs', 'Packs of any length and of mixed accessor types.',
     'The test checks packs of one to three accessors of fixed types.',
     'arolla/io/accessor_helpers.h arolla/io/accessors_input_loader.h',
     [('pack to nested tuple', 'arolla/io/accessor_helpers.h')],
     'TLA+ pairing specification; TLC-generated pack shapes compiled and observed',
     'Every pack length up to a bound with distinguishable accessors.')

prop('C08', 'Scalar proto fields map to values without loss',
     'Reading a scalar field through the generated-accessor helpers yields the stored value with its canonical value type, presence is reported exactly when the field is set, resizing a repeated or map-like container yields exactly the requested size with defaulted new elements and preserved old ones.',
     'inputs histories', 'All scalar kinds and values, all container sizes and resize histories.',
     'No stable test exercises these helpers.',
     'arolla/io/proto_types/types.h arolla/io/proto_types/types.cc',
     [('single value conversion', 'arolla/io/proto_types/types.h'), ('container resize', 'arolla/io/proto_types/types.h')],
     'TLA+ container state machine; TLC behaviours replayed on real containers and messages',
     'All behaviours to a bounded depth; value mapping over boundary values.')

prop('C10', 'Accessor lists are canonical, complete and evenly sharded',
     'The list of generated accessors depends only on the set of (name, accessor) pairs given, not on their order: it is sorted by name, has each name once, merges identical duplicates and rejects conflicting ones by naming all of them. Splitting into shards keeps every accessor exactly once and in order, with shard sizes differing by at most one and none empty, and required includes are exactly the union of the accessors\' includes.',
     'inputs', 'All multisets of accessors in any order and any requested number of shards.',
     'Tests sample three lists and a handful of shard counts.',
     'arolla/codegen/io/accessors.py',
     [('sorting and conflict detection', 'arolla/codegen/io/accessors.py'), ('sharding', 'arolla/codegen/io/accessors.py')],
     'TLA+ spec of canonicalisation and sharding; TLC enumerates all small accessor multisets and shard counts, replayed in Python',
     'Exhaustive for small alphabets, random larger; expected lists computed by TLC.')

prop('C11', 'Shared proto traversal plan serves every requested path exactly once',
     'For any set of requested proto paths, the traversal plan contains every requested path exactly once and no other, numbers nodes densely and children before parents, keeps path order along edges, bounds the fan-out without changing paths, and marks as "size" and "collected" exactly those nodes whose size or values are needed below. Conflicting path sets are rejected rather than silently dropping an accessor.',
     'inputs', 'All sets of protopaths, including prefixes, duplicates, sizes and wide fan-out.',
     'Tests fix four or five path sets; fan-out splitting and intermediate collection depend on set shape.',
     'arolla/codegen/io/multi_protopath.py',
     [('tree construction', 'arolla/codegen/io/multi_protopath.py'), ('post-order numeration', 'arolla/codegen/io/multi_protopath.py'), ('big-node splitting', 'arolla/codegen/io/multi_protopath.py')],
     'TLA+ spec of the path tree and its numeration; TLC enumerates path sets; dumped plans of the real code validated by TLC',
     'Exhaustive over small path universes, random larger and wide ones.')

prop('C12', 'Generated proto access returns exactly what the path denotes',
     'The access code generated for a path reads exactly the elements that the path denotes in the message: in document order, one entry per leaf position, missing where any optional step or index is absent, with sizes equal to the number of elements at each repeated step, and never reads out of range or a default instance as if present.',
     'inputs programs', 'All paths over messages with optional, repeated, map and indexed steps, and all message contents including absent and empty ones.',
     'Tests compare the text of generated snippets; they never run them on messages.',
     'arolla/codegen/io/protopath.py arolla/codegen/io/array_generator.py arolla/codegen/io/multi_protopath.py',
     [('access code generation', 'arolla/codegen/io/protopath.py'), ('array building', 'arolla/codegen/io/array_generator.py')],
     'TLA+ denotation of protopaths over message trees; generated C++ compiled and run on enumerated messages, traces validated by TLC',
     'Fixed family of generated paths compiled against protobuf; messages enumerated by TLC to a bound.')

prop('C13', 'Names and paths in generated code are stable and collision free',
     'Names of tables, columns, sizes and map parts built for a path compose associatively and distinct paths get distinct names, runtime path ids read back to the same path, operator and identifier names derived from arbitrary printable text are valid and distinct for distinct text, include lines denote exactly the header they were made from, guards are valid macro names, and a namespace and name rejoin to the same full name.',
     'inputs', 'All sequences of path steps and all printable names.',
     'Tests check one or two names per helper.',
     'arolla/codegen/io/cpp.py arolla/codegen/io/table.py arolla/naming/table.h arolla/naming/table.cc arolla/naming/protopath_id.cc arolla/naming/policy.cc',
     [('C++ names and guards', 'arolla/codegen/io/cpp.py'), ('table paths', 'arolla/codegen/io/table.py'), ('runtime table paths', 'arolla/naming/table.cc')],
     'TLA+ naming spec with injectivity invariants (TLC exhaustive); TLC-enumerated names validated against Python and C++ code',
     'Exhaustive over short names/paths.')

prop('C14', 'Build-time calls receive exactly the arguments that were declared',
     'A function call declared in a build rule, with positional and keyword arguments nested to any depth, is evaluated with exactly those values: nested call requests are replaced by their results, everything else is passed unchanged, dictionaries merge with the later value winning, and all files and dependencies needed by any nested call are declared once in sorted order.',
     'inputs programs', 'All nested argument structures, merge sequences and dependency sets.',
     'Tests evaluate a handful of flat calls.',
     'arolla/codegen/utils.py arolla/codegen/utils.bzl arolla/codegen/eval_python_function_call.py',
     [('recursive evaluation', 'arolla/codegen/utils.py'), ('spec construction and dependency extraction', 'arolla/codegen/utils.bzl')],
     'TLA+ evaluation semantics of nested call terms; TLC-enumerated terms pushed through the real bzl -> JSON -> Python pipeline',
     'All terms to a bounded depth/width, plus random deeper ones.')

prop('C15', 'Text passes through build commands and templates unchanged',
     'Any text passed as an argument through a generated shell command reaches the tool unchanged (make variables expanded only where asked for), and text embedded by templates as a C string literal or identifier denotes the original text: the literal decodes to the same bytes and the identifier is valid.',
     'inputs', 'All strings, in particular quotes, backslashes, dollar signs, newlines, non-ASCII bytes and digits after escapes.',
     'Tests escape two or three strings.',
     'arolla/codegen/utils.bzl arolla/codegen/render_jinja2_template.py arolla/codegen/io/flag_utils.py arolla/codegen/io/jinja_util.py',
     [('shell quoting', 'arolla/codegen/utils.bzl'), ('C escaping and identifiers', 'arolla/codegen/render_jinja2_template.py')],
     'TLA+ lexer models of the shell and of C literals; TLC enumerates strings and checks that the recorded escapes decode to the original',
     'Exhaustive over strings to a bounded length on a hostile alphabet; also executed by a real shell.')

prop('C16', 'Accessor filters and path declarations select exactly what they name',
     'Filtering, merging and renaming accessor generators yields exactly the accessors selected by name (prefix stripping, model-input selection, path maps, wildcards), each with the path declared for it, independent of declaration order, and a declared name that cannot be resolved is an error rather than silently ignored.',
     'inputs programs', 'All generator compositions over all accessor sets.',
     'No stable test covers generators.',
     'arolla/codegen/io/accessor_generator.py arolla/codegen/io/protopath.py',
     [('generators', 'arolla/codegen/io/accessor_generator.py'), ('path parser', 'arolla/codegen/io/protopath.py')],
     'TLA+ set semantics of generator terms; TLC-enumerated terms evaluated by the real generators',
     'All small compositions; parser round trip for all short paths.')

prop('C17', 'Generated operator registrations cover exactly the declared operators',
     'The operator registration targets and sources produced from declarations contain each declared overload exactly once with its declared name, types and implementation, and the composed libraries depend on all of them.',
     'inputs programs', 'All sets of operator and type declarations.',
     'Build rules are only exercised by building the fixed declarations.',
     'arolla/codegen/qexpr/register_operator.bzl arolla/codegen/qexpr/simple_operator.cc.jinja2 arolla/codegen/qexpr/operator_family_registration.cc.jinja2',
     [('registration macros', 'arolla/codegen/qexpr/register_operator.bzl')],
     'TLA+ set specification of declarations to registrations; TLC-enumerated declarations run through the real macros and templates',
     'All small declaration sets.')

prop('C20', 'Pointwise array computation equals elementwise scalar computation',
     'Applying a scalar operation to arrays yields, for every position, the scalar result on the elements there, missing exactly when any required input is missing there, and leaves other positions untouched; the result does not depend on how the array stores presence (no bitmap, shifted bitmap, slices, full or sparse forms).',
     'inputs', 'All arrays of any length and presence pattern and any physical representation.',
     'Tests use short arrays with one representation each.',
     'arolla/dense_array/dense_array.h arolla/dense_array/bitmap.h arolla/dense_array/ops/dense_ops.h arolla/array/pointwise_op.h arolla/array/array.h',
     [('word-wise iteration over bitmaps', 'arolla/dense_array/bitmap.h'), ('sparse pointwise evaluation', 'arolla/array/pointwise_op.h')],
     'TLA+ sequence-of-optional semantics; TLC-generated arrays and physical representations executed by the real operations and validated',
     'Exhaustive over short arrays and representation choices; random arrays across the 32-bit word boundary.')

prop('C21', 'Array representation changes preserve the logical array',
     'Building, slicing, converting between dense, sparse and constant forms, changing the id filter, concatenating or making an array owned never changes which positions are present or their values; two arrays are equivalent exactly when their logical contents agree, arrays with equal fingerprints have equal contents, and the fingerprint of a dense array depends only on its contents.',
     'inputs histories', 'All histories of representation-changing operations on all arrays.',
     'Tests apply single conversions to a few arrays.',
     'arolla/array/array.h arolla/array/id_filter.h arolla/array/id_filter.cc arolla/array/array_util.cc arolla/dense_array/dense_array.h',
     [('id filter algebra', 'arolla/array/id_filter.cc'), ('form conversions', 'arolla/array/array.h')],
     'TLA+ state machine whose actions change representation only; TLC behaviours replayed on real arrays',
     'All behaviours to a bounded depth over small arrays, random long ones.')

prop('C22', 'Grouping edges agree with the row-to-group relation they denote',
     'An edge given by split points, by a mapping or by a uniform size denotes one row-to-group relation; aggregation, expansion, composition and conversion between forms give the result defined by that relation, and descriptions that denote no such relation are rejected.',
     'inputs', 'All edges (monotone or not, with unmapped rows and empty groups) in all forms.',
     'Tests use a few small edges.',
     'arolla/dense_array/edge.h arolla/dense_array/edge.cc arolla/array/edge.h arolla/array/edge.cc arolla/dense_array/ops/dense_group_ops.h arolla/array/group_op.h',
     [('edge conversions and composition', 'arolla/dense_array/edge.cc'), ('group operations', 'arolla/array/group_op.h')],
     'TLA+ relation semantics of edges; TLC-enumerated edges and data executed and validated',
     'Exhaustive over small edges; random larger.')

prop('C23', 'Three-valued logic and presence obey their truth tables on every carrier',
     'Logical and presence operations follow the three-valued truth tables (true, false, missing), are commutative, associative and short-circuit consistent, and give the same answer for scalars, optionals and every array form.',
     'inputs', 'All combinations of operand values and carriers.',
     'Tests cover selected combinations per carrier.',
     'arolla/qexpr/operators/bool/logic.h arolla/qexpr/operators/core/logic_operators.h',
     [('logic functors', 'arolla/qexpr/operators/bool/logic.h'), ('presence functors', 'arolla/qexpr/operators/core/logic_operators.h')],
     'TLA+ truth tables with algebraic laws model-checked; TLC enumerates all operands, real functors validated',
     'Exhaustive over all operand combinations.')

prop('C25', 'Expression identity: equal fingerprints exactly for equal structure',
     'Two expressions have the same fingerprint exactly when they are structurally equal, traversal visits every distinct node once with children first, and rewriting replaces exactly the matched nodes while preserving sharing and everything else.',
     'inputs programs', 'All expression graphs, including shared sub-expressions and deep chains.',
     'Tests use a few small expressions.',
     'arolla/expr/expr_node.cc arolla/expr/expr_visitor.cc arolla/expr/expr_visitor.h arolla/util/fingerprint.h',
     [('node fingerprinting', 'arolla/expr/expr_node.cc'), ('post-order transformation', 'arolla/expr/expr_visitor.cc')],
     'TLA+ term-graph specification; TLC-enumerated graphs built and rewritten by the real code, traces validated',
     'All small graphs and rewrite rules, random larger.')

prop('C26', 'Call arguments bind to operator parameters by the declared signature',
     'Binding positional and keyword arguments to a signature assigns each argument to exactly one parameter, fills defaults only where no argument was given, collects extras only in a variadic parameter, and rejects every other call; a signature survives a round trip through its textual form.',
     'inputs', 'All signatures and all call shapes.',
     'Tests sample some signatures and calls.',
     'arolla/expr/expr_operator_signature.h arolla/expr/expr_operator_signature.cc',
     [('argument binding', 'arolla/expr/expr_operator_signature.cc')],
     'TLA+ binding semantics; TLC enumerates signatures and calls, real results validated',
     'Exhaustive for small parameter counts.')

prop('C27', 'Compiled evaluation equals the meaning of the expression',
     'Compiling and running an expression gives the value obtained by applying its operators bottom-up to the inputs, whatever optimizations, literal folding, slot reuse, sharing, side outputs or lowering are used, for every input and on every repeated run of the same program.',
     'inputs programs configurations', 'All expressions, inputs and compilation options.',
     'Tests evaluate selected expressions under selected options.',
     'arolla/expr/eval/eval.cc arolla/expr/eval/executable_builder.cc arolla/expr/eval/slot_allocator.cc arolla/expr/eval/prepare_expression.cc arolla/expr/optimization/optimizer.cc arolla/expr/optimization/peephole_optimizer.cc',
     [('compilation pipeline', 'arolla/expr/eval/eval.cc'), ('slot reuse', 'arolla/expr/eval/slot_allocator.cc'), ('peephole optimization', 'arolla/expr/optimization/peephole_optimizer.cc')],
     'TLA+ denotational semantics of a core operator set; TLC-enumerated expressions and inputs compiled and run under all option sets, traces validated',
     'All small expression shapes and random larger ones over a core operator set.')

prop('C28', 'Serialization round trip preserves values and expressions',
     'Decoding an encoded container gives back the same values and expressions in the same order with the same identity and sharing, and malformed containers are rejected without partial results.',
     'inputs fault_sequences', 'All supported values and expressions; all truncations and reorderings of the steps.',
     'Tests round-trip one value per codec.',
     'arolla/serialization/encode.cc arolla/serialization/decode.cc arolla/serialization_base/encoder.cc arolla/serialization_base/decoder.cc',
     [('encoder step graph', 'arolla/serialization_base/encoder.cc'), ('decoder state', 'arolla/serialization_base/decoder.cc')],
     'TLA+ spec of the container step machine; TLC-generated graphs and corrupted step sequences run through the real codec',
     'Small graphs exhaustively; payload fidelity only through identity.')

prop('C29', 'All decision forest evaluators agree with the meaning of the forest',
     'For every forest, input and tree filter, evaluating pointwise, batched or through an operator gives, per output, the sum of the adjustments reached by following each selected tree\'s conditions, with missing inputs following the failed-condition branch; invalid forests are rejected.',
     'inputs configurations', 'All forests, split conditions, filters and inputs, including missing values.',
     'Tests compare evaluators on random forests of one shape.',
     'arolla/decision_forest/decision_forest.cc arolla/decision_forest/pointwise_evaluation/forest_evaluator.cc arolla/decision_forest/batched_evaluation/batched_forest_evaluator.cc',
     [('forest validation', 'arolla/decision_forest/decision_forest.cc'), ('pointwise evaluator selection', 'arolla/decision_forest/pointwise_evaluation/forest_evaluator.cc'), ('batched evaluator', 'arolla/decision_forest/batched_evaluation/batched_forest_evaluator.cc')],
     'TLA+ tree-walk semantics; TLC-generated forests and inputs run by every evaluator and validated',
     'Enumerated small forests and random larger with integer-valued adjustments.')

prop('C30', 'A bounded cache returns only what was stored and keeps the most recent',
     'A lookup returns exactly the value last stored under an equal key or nothing; the cache never holds more than its capacity and always holds the most recently used entries, with a lookup counting as use.',
     'histories', 'All histories of put, lookup and clear at all capacities.',
     'The test runs one short history.',
     'arolla/util/lru_cache.h',
     [('recency list and index', 'arolla/util/lru_cache.h')],
     'TLA+ state machine (TLC exhaustive); every TLC behaviour replayed, random histories trace-validated',
     'All behaviours to the model bound; random long histories.')

prop('C31', 'Cancellation is sticky, scoped and reported once requested',
     'Once a computation is cancelled every later check in its scope fails with the first cancellation reason and none before it does; scopes nest and restore the previous scope on exit, and subscribers are notified exactly once unless unsubscribed earlier.',
     'histories schedules', 'All histories of scopes, cancellations, subscriptions and checks.',
     'Tests cover short single-scope histories.',
     'arolla/util/cancellation.h arolla/util/cancellation.cc',
     [('cancellation context and subscriptions', 'arolla/util/cancellation.cc')],
     'TLA+ state machine of nested scopes and subscriptions; TLC behaviours replayed, threaded runs trace-validated',
     'All behaviours to the model bound.')

prop('C32', 'Initializers run once each, in dependency order, or fail loudly',
     'Every registered initializer runs exactly once after all the initializers it depends on and before those that declare it a dependant, independent of registration order; cycles, duplicate names and missing dependencies are errors, and nothing runs out of order before the error.',
     'inputs histories', 'All initializer dependency graphs and registration orders.',
     'Tests use two or three graphs.',
     'arolla/util/init_arolla_internal.cc arolla/util/init_arolla_internal.h arolla/util/init_arolla.cc',
     [('topological execution', 'arolla/util/init_arolla_internal.cc')],
     'TLA+ coordinator state machine (TLC exhaustive over graphs); recorded executions of enumerated graphs validated',
     'All graphs to a bounded number of initializers and batches.')

prop('C34', 'Memory layout gives every value its own, properly managed place',
     'Slots allocated in a frame never overlap and are aligned, every value placed in a frame is initialized once before use and destroyed once after; blocks handed out by a buffer factory never overlap; buffers and string buffers read back what was written to them through any building, slicing, sharing, copying or reordering, and a buffer that owns its data does not depend on foreign memory.',
     'inputs histories', 'All layouts, slot requests, copies and buffer histories.',
     'Tests check selected layouts.',
     'arolla/memory/frame.h arolla/memory/frame.cc arolla/memory/buffer.h arolla/memory/simple_buffer.h arolla/memory/strings_buffer.h arolla/memory/strings_buffer.cc arolla/util/algorithms.h',
     [('layout builder', 'arolla/memory/frame.h'), ('strings buffer builder', 'arolla/memory/strings_buffer.cc')],
     'TLA+ layout and buffer state machines; TLC behaviours replayed with instrumented types, traces validated',
     'All behaviours to a bounded depth.')

prop('C35', 'Input loaders and slot listeners move each named value to its own slot',
     'Loading fills exactly the requested slots with the values of the named inputs, whether inputs come from one loader or a chain (first provider wins), under renaming, filtering and prefixes; listeners read exactly the requested outputs; asking for unknown names is an error and names not asked for have no effect.',
     'inputs programs configurations', 'All loader compositions, name sets and requested subsets.',
     'Tests check selected compositions.',
     'arolla/io/input_loader.h arolla/io/input_loader.cc arolla/io/slot_listener.h arolla/io/chain_slot_listener.h arolla/io/delegating_input_loader.h',
     [('loader binding', 'arolla/io/input_loader.cc'), ('chain', 'arolla/io/chain_slot_listener.h')],
     'TLA+ partial-map semantics of loader terms; TLC-enumerated compositions executed and validated',
     'All small compositions.')

prop('C37', 'Operator lookup is unambiguous and follows the latest registration',
     'Looking up an operator for given argument types yields the exact overload if registered, otherwise the unique least implicit conversion, otherwise an error; registering a conflicting overload is an error, and names resolve to the current registration with stale cached results never used.',
     'histories inputs', 'All registration histories and lookups.',
     'Tests cover a few overload sets.',
     'arolla/qexpr/operators.cc arolla/qexpr/casting.cc arolla/qexpr/casting.h arolla/expr/registered_expr_operator.cc',
     [('operator registry', 'arolla/qexpr/operators.cc'), ('overload choice', 'arolla/qexpr/casting.cc'), ('revision ids', 'arolla/expr/registered_expr_operator.cc')],
     'TLA+ registry state machine; TLC behaviours replayed on the real registry',
     'All behaviours to the model bound.')

prop('C38', 'Control-flow dominators mark what every path passes through',
     'In any acyclic flow graph the computed immediate dominator of a node is the last other node that every path from the entry passes through, and the dominator tree and frontiers agree with that definition.',
     'inputs', 'All acyclic flow graphs with a single entry.',
     'Tests use a few graphs.',
     'arolla/algorithm/control_flow_graph.h arolla/algorithm/control_flow_graph.cc',
     [('dominator tree', 'arolla/algorithm/control_flow_graph.cc')],
     'TLA+ path-based definition; TLC enumerates all small graphs, real results validated',
     'All graphs up to a small node count, random larger.')

prop('C39', 'Jagged shapes denote the row partition they were built from',
     'A multi-dimensional jagged shape built from edges or sizes keeps every dimension\'s partition, flattening, removing and adding dimensions compose the partitions accordingly, broadcasting to a deeper shape expands rows along the partition, and inconsistent sizes are rejected.',
     'inputs', 'All consistent and inconsistent lists of partitions.',
     'Tests cover small selected shapes.',
     'arolla/jagged_shape/jagged_shape.h arolla/jagged_shape/util/concat.h',
     [('shape operations', 'arolla/jagged_shape/jagged_shape.h')],
     'TLA+ nested-sequence semantics; TLC-enumerated shapes and operations executed and validated',
     'All small shapes.')

prop('C40', 'A piecewise linear curve interpolates its points and clamps outside',
     'A curve evaluates to the given value at each of its points, moves monotonically between neighbouring points along the straight segment, is constant outside the outermost points, propagates NaN (unless the curve is constant), gives the same result for single and bulk evaluation, and rejects invalid point lists.',
     'inputs', 'All point lists and arguments.',
     'Tests use a few curves.',
     'arolla/pwlcurve/curves.h arolla/pwlcurve/curves.cc',
     [('curve evaluation', 'arolla/pwlcurve/curves.cc')],
     'TLA+ rational interpolation semantics on an integer grid; TLC-enumerated curves and arguments executed and validated',
     'All small curves with exactly representable values.')
