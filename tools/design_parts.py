"""Per-property text of DESIGN.md."""
METHOD = {}
METHOD['C01'] = '''Spec `Refcount` (atomic steps of retain/release/skewed release, exhaustively checked for "exactly one last release, after which no owner remains"), `HB` (happens-before between writes before a release and the reclaiming thread, incl. a weak-memory variant that must fail with relaxed orders), `RefPtr` (handles: copy, move, assign, reset, release, NewRef, Own). Every TLC behaviour of 2-3 threads is replayed on the real `Refcount` under a cooperative scheduler (atomics replaced by `sched_atomic`); handle histories are replayed on `RefcountPtr`. Why beyond tests: all interleavings at atomic-step level.'''
METHOD['C02'] = '''Spec `TaskPool` (workers drawing from a shared counter; OncePerTask, Limit, ReturnAfterAll, liveness EventuallyReturns). TLC schedules are replayed on the real pool with threads/atomics under the cooperative scheduler, plus free-running executions; the recorded start/finish/return events must be a behaviour of the observable spec.'''
METHOD['C03'] = '''Spec `Bits`: memory = set of one-bit positions; every operation as set algebra (laws model-checked in MC_Bits). TLC enumerates boundary-structured parameters, the check puts contents at the edges of the addressed range and at random; memory is guarded by canaries.'''
METHOD['C04'] = '''Specs `SeqSearch` (the galloping search as a state machine, cursor inside the sequence; the pre-fix algorithm is kept as a configuration that must be rejected) and `Iter` (two iterators over one sequence). All sorted sequences to a bound, all iterator walks, narrow, far (> 2^32) and by-reference arrays.'''

METHOD['C05'] = '''Spec `Num` (extended reals and machine integers; wide words as limbs): comparison outcomes, wrapping add/sub/mul/neg, floor division and modulo, min/max, rounding of exact values. A boundary-dense operand set per type is taken in all pairs (plus random ones) through the real functors, TLC computes every expected result.'''
METHOD['C06'] = '''Spec `Trace_Math` (abstract real functions: order, range, symmetry, inverse pairs, special points and limits). The real functors are run over ordered grids (ulp neighbours of every landmark, all exponents, random); TLC validates the relation between neighbours and the landmarks. Last-digit accuracy is only bounded.'''
METHOD['C07'] = '''Spec `Pack` (flat pack of name, accessor, name, accessor … to pairs). TLC enumerates pack shapes (value categories, accessor kinds, sizes); a translation unit with one function per shape is generated and compiled, every accessor is distinguishable and all calls, copies and moves are observed.'''
METHOD['C08'] = '''Specs `Container` and `Trace_ProtoTypes` (container as a sequence with default growth; value mapping per scalar kind; presence). TLC behaviours (resize histories) are replayed on repeated fields, pointer fields, vectors, and value mapping is checked on boundary values.'''
METHOD['C10'] = '''Spec `AccList` (multiset of named accessors to a canonical list or conflict; laws model-checked in MC_AccList). TLC-enumerated multisets in all orders, plus random ones, go through AccessorsList, sharding and conflict reporting of the real Python code.'''
METHOD['C11'] = '''Spec `Plan` (set of requested proto paths to the set of leaves and traversal plan; the plan must reach every requested path with its own accessor, share only equal prefixes). TLC enumerates path sets; the tree built by multi_protopath is walked by the driver and validated.'''
METHOD['C12'] = '''Spec `Path` (trees of messages and structs; a path denotes the sequence of its leaf positions, each missing or a value; `Put`/`PutMany` write through a path; `NameOf` is the default name). TLC enumerates every path to depth 3 (4) over the harness schema; each is parsed and declared through the real `Protopath`, the generated lambdas are compiled with g++ against real protobuf classes and run on random sparse trees (out arguments pre-filled with garbage), and TLC compares value, type, name and the tree left by a write with the denotation. Accessors that do not compile are violations. Sets of paths are also rendered as sharded loaders, listeners and wildcard loaders through the real mains, compiled, bound to random subsets of slots and run on sequences of messages; listeners are validated as the fold of the writes, sizes first.'''
METHOD['C13'] = '''Spec `Naming` over `Text` (a path is a sequence of segments; every name a function of it; laws of composition, injectivity and order model-checked in MC_Naming). C++ `arolla::naming` and the Python naming code run on the same kind of generated paths; operator names are checked to be injective over all one and two character names and thousands of longer ones. `tools/mbt.py` runs both drivers.'''
METHOD['C14'] = '''Spec `Calls` (a tree of values in which call nodes are replaced by the value of the called function, `merge` by the later-wins union; dependency and data closure). TLC enumerates small trees and the check draws random deep ones; the trees are declared through the repository's `utils.bzl` (executed with Starlark stand-ins, `harness/py/bzl.py`), the produced genrule commands are run by bash, and the result, dependencies and data are compared with the meaning of the tree by TLC.'''
METHOD['C15'] = '''Spec `Shell` (bash's double-quoted-word scanner, the make-variable expander, the C string-literal reader and the identifier grammar as state machines over code points; `MC_Shell` shows that escaping inverts scanning for all short texts, `MC_ShellStrong` that it cannot for `$name` with the escape as it is). All texts of up to three special characters and long random ones go through `bash_escape`, real bash, and the jinja filters; g++ decodes the literals.'''
METHOD['C16'] = '''Spec `Filter` (over `PathName`): a declaration is a tree of path, wildcard and message-descriptor leaves under merge, filter-by-name and model-configuration nodes; it denotes a bag of accessors (name, path steps, type, include) or an error. `MC_Filter` checks the laws (filters keep a sub-bag, commute, equal the filter by the intersection, distribute over merge, a prefix is removed once and only from the names that have it). Some 900 random trees over random message schemas (nested and recursive messages, extensions, maps, skip functions, naming policies, text prefixes, several model files of both kinds) are evaluated by the real generators, either called directly or declared through `io.bzl`, passed through the JSON and the shell command line the rule writes, and read back; TLC compares the bag. Not reached by tests: no stable test touches generators.'''
METHOD['C17'] = '''Spec `Ops`: an operator library declaration (an expression over `lift`, `overload lists`, concatenation, selects, package and visibility) denotes a multiset of overloads, and the declaration denotes targets, generated registration sources and metadata. `MC_Ops` checks the lowering against the denotation over all small declarations and rejects distorted lowerings (dropped overload, swapped arguments, one shared name). All 21 BUILD packages of the repository are executed and every operator declaration is validated; random declarations are executed, their registration and metadata sources rendered by the real templates, compiled against the real qexpr registry in three link sets (whole library, individual operators, both), and every overload is looked up and called.'''
METHOD['C30'] = '''Spec `Lru` (entries from most to least recently used; put, lookup, clear, eviction; boundedness, key uniqueness and retention of the latest entry are checked on every state). All histories of four (five) operations are enumerated and a sample plus long random ones (heterogeneous lookups, colliding hashes, equal but distinct keys, zero and oversized weights) run on the real `LruCache`; the driver counts live keys and values, so TLC sees exactly which entries are held.'''
METHOD['C31'] = '''Spec `Cancel` (contexts with a sticky reason, per-thread scope stacks, registrations and handles, callbacks that cancel, subscribe or drop handles themselves; stickiness, once-only and no early notification on all states). Enumerated and random histories run with real worker threads and are validated step by step: reason, current context, called and still-allocated callbacks. `Trace_CancelRace` validates unsynchronized threads; the real `cancellation.cc` is compiled with its flag and mutex under the scheduler of `harness/common/sched.h`, so enumerated and random interleavings are deterministic, and also runs free.'''
METHOD['C32'] = '''Spec `Init` (batches of initializers, the order they impose, what makes a batch ill-formed). Gen_Init executes whatever is ready on every small batch and checks that exactly the well-formed ones complete. All small batches and random sequences of batches (in several registration orders, with one planted mistake or none) run through the real Coordinator, and through `Registration`/`InitArolla`/`InitArollaSecondary`/`CheckInitArolla` in child processes.'''
METHOD['C38'] = '''Spec `Dom` (dominance by paths: the nodes not reachable when one is avoided). MC_Dom checks on all graphs of up to five nodes that immediate dominators exist, are the meet of the predecessors, that an empty frontier means what the header says, and that externalization keeps the tree. All graphs to six nodes (sampled in the quick check) with parallel edges, random larger ones and invalid descriptions go through the real code.'''
METHOD['C37'] = '''Specs `Casts` (implicit casting and the common type over every modelled type), `Registry` (state: registered overloads with priorities, operator families, and the names that were tried) and `ExprReg` (names, aliases, references, revisions). MC_Casts checks on all types that casting is a partial order, that the common type is the least upper bound (order-insensitive, associative) and that broadcasting only adds a container. Every history of up to three registrations and lookups over a small alphabet (Gen_Registry) and random longer ones drive the real registry; each lookup must choose the exact overload, else the unique overload the rules allow, else report missing or ambiguous.'''
METHOD['C26'] = '''Spec `Signatures`: validity, the textual form in both directions, and binding as an assignment of arguments to parameters. MC_Signatures checks over all signatures of up to two (thorough: three) parameters and all calls that the textual form carries everything, that every argument is used exactly once and a default only where no argument was given, and that precisely the calls with such an assignment are accepted. Random and systematic signatures (with stray blanks, bad names, misplaced defaults and policies) and calls go through Make, ValidateSignature, BindArguments, BindOp, ValidateDepsCount and the textual round trip of the real code.'''
METHOD['C25'] = '''Spec `Exprs`: a graph is a list of items over earlier ones; two are identical iff built alike from identical things, and rewriting (bottom-up, on original nodes, repeated to a fixpoint, calls of defined operators) is defined on the unfolded terms. MC_Exprs checks on all graphs of two calls with all rules that identity is equality of terms, that rewriting without a match changes nothing, that finished repeated rewriting is stable and that lowering removes every defined operator. Random graphs with repeated parts, linked rules, defined operators and high arities, large shared graphs (by address, so that lost sharing shows) and deep chains go through the real nodes, traversals, Transform, DeepTransform, substitutions and ToLowest.'''
METHOD['C34'] = '''Specs `Frames` (layouts as disjoint aligned places, frames as values, constructor and destructor calls), `Buffers` (immutable sequences over owned or foreign memory; a claim of ownership is taken at its word), `RawBuf` (live blocks), with two designs model checked: `StringsPhys` (biased offsets into characters denote the logical strings through slicing, copying, reshuffling) and `Arena` (pages, big blocks, resizing, reset keep blocks disjoint). All histories of six frame steps and four buffer operations (Gen_Frames, Gen_Buffers; sampled in the quick check) and random longer ones over all element kinds and factories drive the real code, with guard zones around the memory.'''
METHOD['C20'] = '''Spec `Arrays` (a store of arrays and dense arrays as sequences of optional values; the pointwise actions apply one row function to all rows). The actions are drawn over every representation of the arguments (dense with or without a shifted bitmap, sparse with or without a default, constant, sliced), kinds of element (number, text, unit), arities 1 to 3, required and optional arguments, and failing row functions; a row function counts its calls, so that an error of a row that does not exist is seen. Short behaviours are enumerated by TLC (Gen_Arrays), long ones are random; every observation is validated with TLC (Trace_Arrays).'''
METHOD['C21'] = '''The representation-changing actions of spec `Arrays` leave the abstract value alone: slicing, sparse, dense and constant forms, new id filters, owning copies, concatenation, builders, bitmap offsets. After each step the array is read back by index, by iteration in all four ways, through the iterator, by present count and form predicates, compared with every other array of the store (equivalent exactly when the contents agree), and the other arrays are seen to be unchanged. Equal fingerprints imply equal contents; for dense arrays equal contents imply equal fingerprints.'''
METHOD['C22'] = '''Spec `Edges`: an edge is a parent size and a child-to-parent relation, whatever its form; composition, expansion, group operations (an order-sensitive digest, so that any deviation in which rows are used and in which order shows), the accumulators of the library, take, group-by, pairs and resizing are defined on the relation. MC_Edges checks the laws connecting them (composition is associative, expansion and aggregation commute with it, split points and mappings are inverse, pairs and resizing relate to sizes) over all small edges. Random edges in every form and representation, valid or not, drive the real dense-array and array implementations (the latter with and without falling back to the dense one) on the heap and in an arena.'''
METHOD['C23'] = '''Spec `Logic` (three-valued and presence logic as row functions; MC_Logic checks their laws). Complete truth tables and random columns of every representation are given to the functors as scalars and optionals, and through the lifters to optionals, dense arrays and arrays, and to the native array implementations, lazy branches included; validated row by row (Trace_Logic).'''
METHOD['C39'] = '''Spec `Jagged` (on `Edges`): a jagged shape is given its meaning by the nested lists it denotes; flattening, removing and adding dimensions, broadcasting, concatenation and stacking (of shapes and of arrays of values) are defined on the nested lists, and the sizes of the result are read off them. MC_Jagged checks, over all small shapes, that this agrees with composing edges, that elements stay in order, that stacking is concatenation along a unit dimension and that concatenation is associative. Random sessions over four registers, with edges in every form, valid or not, drive dense-array and array shapes through the class and the operators; every step is validated (Trace_Jagged), including repr, all comparisons with the other registers, broadcast edges and that no other register changed.'''
METHOD['C29'] = '''Spec `Forest`: a tree is split nodes and adjustments over conditions on optional inputs; a forest denotes, for each group of trees, the sum of the adjustments reached on a row. MC_Forest checks on enumerated trees that validity means one parent each, that the bitmask design (each leaf is the intersection of the masks of the conditions that do not hold) and the piecewise-constant design (split points and one probe between neighbours) agree with the walk, and that the split into submodels and groups loses nothing. TLC enumerates small trees of every shape and the check draws forests for every evaluator (bitmask in several mask widths, oblivious, single input, default, empty), with interval, set, and boundary conditions over float and integer inputs including infinities, NaN, missing and the neighbours of every threshold; the naive evaluation, the pointwise evaluator, the batched evaluator (with several limits of splits per evaluator, from slots of arrays and dense arrays), and both as operators must all give the denotation, per output of a list of tree filters; adjustments are exactly representable, so that sums do not depend on order.'''
METHOD['C40'] = 'Spec `Curve`: a curve is a kind (linear, logarithmic, log1p, symmetric log1p) and a list of points in the coordinate in which it is linear, extended by the infinities and by arguments below the domain; validity, the value at an argument (a constant or an exact fraction on the line of the segment) and the text form are defined on it. MC_Curve checks on all small lists of points that the curve passes through its points, is monotone between neighbours and constant outside, and that mirroring commutes with evaluation. Random curves of every kind and point type are built from points and from texts (also broken ones), and evaluated at, between and beyond the points, one by one, in bulk over buffers of many sizes, and through the operator over missing rows; point lists that are empty, unsorted, unreachable at infinity or hold NaN must be refused.'
METHOD['C35'] = 'Spec `Loaders`: a loader or listener is a tree (accessor lists, spans, tuples, typed references, wildcards, dynamic chains; under chains, filters, name prefixes and input transformations); which names it knows, of which type, which loader of a chain serves a name, and what a request for a list of names does (an error, or each slot written with the right field of the right part of the input, and no other slot touched) are functions of the tree. MC_Loaders checks laws of composition on all small trees and requests: chaining is associative and idempotent, prefixes distribute over chains, filters intersect, what the first loader of a chain provides is not taken from the second, and a request that can be served can be served in parts. Random trees up to depth three with requests over full and partial slot sets are built and bound with the real combinators and run on inputs (reused for several inputs, in shuffled orders, over poisoned frames) and all slots are compared.'
METHOD['C28'] = "Spec `Serial`: the decoder is a machine over decoding steps (results by index, codecs by index or detected in order, announced usage counts after which a result is dropped) over values and expressions as terms. MC_Serial runs it on all short step sequences next to one that ignores hints: hints change no output, outputs are never taken back, and nothing dropped is used. Step sequences (mostly sensible, with all kinds of faults; both container versions; codecs numbered on their own or not) run through the real `Decoder`, and the result or the refusal must be the spec's. In the other direction, random graphs of values and expressions with much sharing are written by the real `Encoder`; the recorded steps are decoded by the spec as well as by the real decoder, must give the outputs in order, and must hold every part exactly once. Spec `Codecs` gives values of the library as terms (scalars of every type as bit patterns, optionals, arrays in all forms, edges, shapes, tuples, named tuples, slices, types by their composed names, quoted expressions, operators, expressions): random lists of them are written and read back by the real codecs, and what is read (through the types\' own accessors) and its fingerprints must be what was written; a container cut short gives exactly the outputs before the cut, a lost or emptied step is noticed unless it was an output, and codecs are found where the reference is left out."
METHOD['C27'] = 'Spec `Eval`: the value of every node of an expression graph, bottom-up, over a set of operators with integers, optionals, presence bits, tuples and nested tuples, including operators defined by lambdas of lambdas, choices (strict or lazy), loops and operators that fail. MC_Eval is the binding of a graph to slots as a state machine (last uses, slots given back and taken again, nodes that rename a part of their argument and so prolong its life, literals in slots of their own, inputs that may or may not be overwritten, the place of the output, side outputs), run for all small graphs: each instruction finds its arguments, outputs are there at the end, also in a second run, and inputs that must be kept are kept; with the prolongation left out TLC finds the lost value. All graphs of three operators over two inputs or literals, and random programs as trees and as graphs with much sharing, are compiled by the real compiler under all option sets (literal folding, an optimizer with pattern rules, overwriting of inputs, stack traces, side outputs, bound once, twice in one frame, or invoked) and run on rows of inputs, twice where inputs are kept: results, side outputs and inputs afterwards must be those of the spec, and a run fails exactly if a node that is needed fails (a program without sharing never fails because of a branch that is not taken).'
NOTES = ['`bash_escape` leaves `$name` to the shell (C15, known findings): not repaired, because the same function also escapes the arguments of `py_test` rules, which Bazel tokenizes without a shell expansion and for which the repository documents `$` inside regular expressions; adding a backslash there would change those.']
