"""Writes /verif/properties.jsonl (kept as a script so that the prose stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for (n, m, w) in state],
                               mechanism=[dict(name=n, where=w) for (n, w) in mech],
                               observe_at=list(observe), hook_needed=hook)))
L, D, S, Z = ("pcollections/_list.py", "pcollections/_dict.py", "pcollections/_set.py", "pcollections/_lazy.py")
AS, AM, AT, AC = ("pcollections/abc/_seq.py", "pcollections/abc/_map.py", "pcollections/abc/_set.py", "pcollections/abc/_core.py")
U = "pcollections/util/_core.py"

prop("C01", "plist edit histories give exactly what list gives",
 "After any history of plist edits (construct, set, delete, drop, pop, append, prepend, insert, extend, +, *, remove, sort, reverse, clear, slicing), each resulting plist holds exactly the elements, in exactly the order, that the built-in list holds after the corresponding edits, and is again a plist. Negative and out-of-range indices follow list: insert clamps, drop returns the list as it is, set/delete/pop raise IndexError and remove of an absent value raises ValueError.",
 ["inputs", "histories"],
 "all finite edit histories, branching from any earlier version, over arbitrary elements, any index (negative, out of range, either half of the list) and sizes across trie-node boundaries, including lists grown or shrunk at the front",
 "test_random runs one fixed sequence of 100 operations with valid indices (the suite seeds random), and never slices, extends, sorts or removes a list that was prepended to; the guarantee is over every history.",
 [L, AS], [("plist edit methods", L), ("PersistentSequence mixins", AS)],
 [("trie + start offset", "elements live at consecutive integer keys beginning at an offset that may be negative", L)],
 ["return values of plist methods"])
prop("C02", "Reading a list at any index or slice agrees with the built-in list",
 "For every plist, tlist, llist and tllist, however it was built, len, iteration, reversed, positive and negative indexing, every slice (any start, stop and step, positive or negative, in or out of range), membership, count, and index with optional start and stop give what the built-in list of the same elements gives. A slice is a new list of the same type, and an index out of range raises IndexError.",
 ["inputs", "histories"],
 "all lists reachable by edits (including negative internal offsets and sizes over several trie levels), all integer indices, all slice triples, all search values and search bounds",
 "The suite reads a handful of fixed positions and forward slices of range(10); slices with a zero stop, a negative step, or on a list that was prepended to are never read.",
 [L, AS, Z], [("__getitem__/__iter__ of plist and tlist", L), ("count/index/__contains__/__reversed__", AS)],
 [("trie + start offset", "iteration has to put negative keys before non-negative ones", L)],
 ["return values of read methods"])
prop("C03", "pdict edit histories give exactly what dict gives",
 "After any history of pdict edits (construct from mapping, pairs and keywords; set, drop, delete, pop, popitem, setdefault, update, setall, dropall, deleteall, clear), each resulting pdict holds exactly the key-value pairs the built-in dict would hold, in dict's insertion order, and every lookup (indexing, get, in, len) agrees with it. This holds for all hashable keys, including different keys whose hashes collide, equal keys of different types and keys that are only equal to themselves by identity; a missing key raises KeyError (delete, pop, deleteall, indexing) or leaves the dict as it is (drop, dropall).",
 ["inputs", "histories"],
 "all finite edit histories branching from any version, over arbitrary hashable keys (chosen hash collisions of any chain length) and arbitrary values (including None and Ellipsis)",
 "The suite only uses small ints and one-letter strings as keys, whose hashes never collide, so the collision chains are never built; dropall, deleteall, setdefault and popitem are never called.",
 [D, AM], [("pdict.set/drop/pop/get", D), ("PersistentMapping mixins", AM)],
 [("index by hash + chained entries", "entries with the same hash are linked; insertion number orders them", D)],
 ["return values of pdict methods"])
prop("C04", "Dict views agree with dict's views and follow insertion order",
 "For every pdict, tdict, ldict and tldict, keys(), items() and values() (and iteration and reversed on the dict itself) list exactly what the equal built-in dict's views list, in insertion order and its exact reverse, and membership, len, and the set operations and comparisons of the keys and items views agree with dict's. A view of a transient dict keeps reflecting the dict's later changes.",
 ["inputs", "histories"],
 "all dicts reachable by edits, all probe keys/values/pairs (present, absent, None and Ellipsis values, non-pairs), all right operands of view set operations",
 "The suite compares views of a few literal dicts as sets and lists; membership in values(), reversed views, view algebra and liveness are not exercised.",
 [D, Z], [("pdict_keys/items/values, tdict_keys/items/values and lazy variants", D)],
 [], ["iteration and membership results of views"])
prop("C05", "pset behaves like set under every history and set operation",
 "After any history of pset edits (construct, add, discard, remove, pop, addall, discardall, removeall, clear), each pset has exactly the members the built-in set has, each once, including members whose hashes collide; remove of an absent member raises KeyError and discard of one returns the set as it is. Union, intersection, difference and symmetric difference, as operators in either operand position and as methods with any number of iterable arguments, yield psets equal to what set yields.",
 ["inputs", "histories"],
 "all finite edit histories branching from any version, over arbitrary hashable members (chosen hash collisions), and all operand pairs over pset, tset, set, frozenset, dict key views and plain iterables",
 "test_random uses 21 small ints, which never collide, and only add/discard/remove; the algebra is tested on three fixed three-element sets.",
 [S, AT], [("pset.add/discard", S), ("PersistentSet operators and methods", AT)],
 [("index by hash + chained entries", "members with the same hash are linked", S)],
 ["return values of pset methods and operators"])
prop("C06", "tlist behaves like list under every mutation history",
 "Any history of tlist mutations (item assignment and deletion, append, prepend, insert, extend, pop, remove, sort, reverse, clear, +=, *=) leaves it with exactly the elements and order the built-in list has after the same mutations, with the same return values and the same IndexError/ValueError on bad indices or absent values. +, * and copy produce new, equal tlists without changing the operands, and passing the list itself as an operand works as it does for list.",
 ["inputs", "histories"],
 "all finite mutation histories over arbitrary elements and indices, starting from empty, an iterable or a persistent list at any offset",
 "test_random runs one fixed sequence over append/prepend/insert/pop/setitem; remove, sort, reverse, index, +=, *= and reflected + are never called on a tlist.",
 [L, AS], [("tlist mutators", L), ("TransientSequence mixins", AS)],
 [("mutable trie + start offset + remembered origin", "every mutation must keep all three in step", L)],
 ["tlist contents after each call"])
prop("C07", "tdict behaves like dict under every mutation history",
 "Any history of tdict mutations (item assignment and deletion, pop, popitem, setdefault, update, clear) leaves it with exactly the pairs, in insertion order, that the built-in dict has after the same mutations, with the same return values and KeyErrors (popitem may take any pair, which it removes and returns); lookups and copy agree too. This holds for colliding hashes, equal keys of different types and identity-only-equal keys.",
 ["inputs", "histories"],
 "all finite mutation histories over arbitrary hashable keys and arbitrary values, starting from empty, a mapping, pairs, or a persistent dict",
 "The suite drives tdict with non-colliding int keys through one fixed sequence; popitem, setdefault, update and clear are never called on it.",
 [D, AM], [("tdict.__setitem__/__delitem__/pop/clear", D), ("TransientMapping mixins", AM)],
 [("index by hash + chained entries + version + origin", "all must change together", D)],
 ["tdict contents after each call"])
prop("C08", "tset behaves like set under every mutation history",
 "Any history of tset mutations (add, discard, remove, pop, addall, discardall, removeall, update, the *_update methods, |=, &=, -=, ^=, clear) leaves it with exactly the members the built-in set has after the same mutations, with the same KeyErrors, also when the set itself is the operand. The non-mutating operators and methods return new tsets equal to set's result and leave both operands unchanged; colliding hashes make no difference.",
 ["inputs", "histories"],
 "all finite mutation histories over arbitrary hashable members, all operands over the set types and plain iterables including the set itself",
 "The suite drives tset only through add/discard/remove of non-colliding ints; no tset operator or *_update method is called.",
 [S, AT], [("tset.add/discard/clear", S), ("TransientSet operators and methods", AT)],
 [("index by hash + chained entries + origin", "all must change together", S)],
 ["tset contents after each call"])
prop("C09", "Persistent values never change; every object is isolated from all others",
 "Once created, a plist, pset, pdict, llist or ldict never changes in contents, length, order or hash, whatever is later done with it, with values derived from it, with transients it came from or gave rise to, or with the native containers it was built from; attribute or item assignment and deletion on it raise TypeError. Mutating a transient changes no other object: not its origin, its copies, the persistent values taken from it, a derived view-free conversion of it, nor the arguments passed in; iterators of a persistent value always run over that value.",
 ["histories"],
 "all interleavings of operations on a pool of persistent, transient and native objects linked by construction, transient(), persistent(), copy and holdlazy conversions",
 "The tests check a few direct before/after pairs; aliasing only shows in histories that keep several linked objects alive and mutate one after a conversion.",
 [L, D, S, Z, AC], [("copy-on-write tries", L), ("transient()/persistent()/copy()", AC), ("as_pdict/as_plist/as_tdict", Z), ("Persistent.__setattr__", AC)],
 [("remembered origin of a transient", "persistent() returns it while unmodified", L)],
 ["contents of every live object after each operation"])
prop("C10", "Conversions between types preserve contents and give the right type",
 "Building any collection type from any compatible collection (persistent, transient, lazy, native, or a one-shot iterator) gives an object of exactly the requested type with equal contents in the same order; converting a lazy collection to a non-lazy type evaluates its lazy values, while lazy types and holdlazy keep them (holdlazy returns an object that is not lazy as it is, or raises TypeError if told to require a lazy one). p.transient().persistent() is p itself while the transient is unmodified and reflects every modification otherwise; empty collections collapse to the type's single empty instance when constructed, cleared or persisted.",
 ["inputs", "histories"],
 "all source types x target types, all contents (empty, large, prepended, colliding), transients with any modification history including ones that undo themselves",
 "The suite checks a few pairs of types on one literal value; the transient round trip is checked for dicts with one modification.",
 [L, D, S, Z], [("constructors", L), ("persistent()/transient()", D), ("as_plist/as_pdict/holdlazy", Z)],
 [("remembered origin", "cleared by every modification", D)],
 ["type, identity and contents of the results"])
prop("C11", "Equality is content equality, and equal values hash equal",
 "== between any two collections of the same kind (list, set or dict kind; persistent, transient, lazy or native) is True exactly when the equal native collections are equal, is symmetric, agrees with !=, never depends on how the values were built, and is False rather than an error for any other object. Hashes of persistent values are stable and equal whenever the values are equal, including against hashable built-ins and lazy variants, so they work as dict keys and set members.",
 ["inputs", "histories"],
 "all pairs of reachable collections over arbitrary elements, including nested collections and elements that support equality but not ordering, each built by different histories",
 "The suite compares collections of ints, which are totally ordered and hash trivially; it never checks that equal values have equal hashes.",
 [AS, AM, AT, U, D, L, S], [("__eq__/__ne__/__hash__", AS), ("seqcmp/setcmp", U)],
 [("cached hash", "computed once per persistent object", L)],
 ["results of ==, != and hash"])
prop("C12", "Ordering comparisons agree with list and set",
 "<, <=, > and >= between list-kind values give what the built-in list gives for the same elements (lexicographic, including partially ordered or incomparable elements, where list's error is raised), and between set-kind values they, isdisjoint, issubset and issuperset give what the built-in set gives, empty sets included. The public helpers classify the same way: comparing two sequences yields -1/0/1 by list order, comparing two sets yields subset -1, equal 0, superset 1, disjoint None, otherwise overlapping.",
 ["inputs"],
 "all pairs of list-kind values over ordered, partially ordered and unordered elements; all pairs of set-kind values including empty, nested, disjoint and overlapping ones, mixed with native operands on either side",
 "The suite compares slices of range(10) and a few literal sets.",
 [AS, AT, U], [("__lt__/__le__/__gt__/__ge__", AS), ("setcmp/seqcmp", U)],
 [], ["results of comparisons"])
prop("C13", "Pickling, copying and JSON conversion reproduce the value",
 "Pickling and unpickling any collection with every pickle protocol, and copy.copy and copy.deepcopy, give an object of the same type that equals the original with the same element order, and mutating a copy of a transient never affects the original. A deep copy shares no mutable element with the original (but an object that occurs twice is again one object in the copy), lazy collections round-trip as their evaluated values, and the JSON form of a list or dict collection parses back to the equal native list or dict.",
 ["inputs", "histories"],
 "all reachable collections of the ten types over picklable elements (nested collections included), all protocols, all three copying routes",
 "No test pickles, copies (beyond identity) or dumps a collection.",
 [AS, AM, AT], [("__reduce__/__json__", AS)], [], ["result of pickle/copy/json round trips"])
prop("C14", "A lazy value is computed at most once and reports failures faithfully",
 "A lazy value is constructed like functools.partial (any positional and keyword arguments), runs its function with exactly those arguments only when first called, and from then on returns that same object without running it again, whatever the value (None and falsy ones included), after which it is ready and no longer keeps the function or arguments alive. If the function raises an exception, the call raises a LazyError whose context is that exception and whose text shows the arguments, the value stays not ready, and a later call runs the function again.",
 ["inputs", "histories", "fault_sequences"],
 "all functions, arguments, results, sequences of failing and succeeding evaluations, and interleavings of calls, readiness queries and unlazy",
 "The tests count evaluations of one counter function returning ints; failures, falsy results, keyword arguments and release of the arguments are untested.",
 [Z], [("lazy.__new__/__call__/is_ready", Z), ("LazyError", Z)],
 [("pending computation", "dropped once the value is cached", Z)], ["calls to the wrapped function, results"])
prop("C15", "Concurrent requests compute a lazy value once and all see it",
 "When several threads request the same lazy value at the same time, directly or through a lazy list or dict that shares it, its function completes successfully at most once, never runs in two threads at once, and every request returns that one result; if an attempt fails, that request raises LazyError and some later request may try again. No schedule makes a request hang, return before the value exists, or see a ready flag before the value can be returned.",
 ["schedules", "fault_sequences"],
 "all interleavings of two to four requesting threads at bytecode-line granularity, with any pattern of failing attempts",
 "No test uses threads.",
 [Z], [("lock and re-check in lazy.__call__", Z), ("value stored before pending state is dropped", Z)],
 [("pending computation / value", "two fields updated in order under a lock", Z)], ["function call counts, results per thread"])
prop("C16", "Lazy collections behave as if their values were computed in advance",
 "Any history of operations on llist, tllist, ldict and tldict whose elements or values are lazy gives, at every step, what the same history gives on the eager list or dict of the computed values: contents, reads, searches, edits, comparisons, pops, views and errors. Every derived collection is again of the lazy type, and a lazy object itself is only ever returned by getlazy, as_plist/as_pdict/as_tdict and holdlazy.",
 ["inputs", "histories"],
 "all operation histories over lazy collections with any mixture of lazy and plain values, compared with the eager model",
 "The lazy tests read two-element literals; edits of lazy collections (delete, pop, count, values membership, setdefault, batch edits) with lazy values are untested.",
 [Z, L, D, AS, AM], [("llist/tllist/ldict/tldict overrides", Z)], [], ["results of every operation"])
prop("C17", "Lazy values are evaluated only when their value is requested",
 "Building, editing (set, append, prepend, insert, delete, drop, item assignment and deletion, clear), slicing, converting between lazy types, holding, copying with copy(), printing, measuring and key-iterating a lazy collection, and asking is_lazy, is_ready or getlazy, evaluates none of its lazy values. Reading or popping one element evaluates at most that element and no other, ready_all evaluates all of them, and all collections sharing a lazy value share its single evaluation.",
 ["inputs", "histories"],
 "all histories of the listed operations on lazy collections derived from each other, with any subset of elements lazy",
 "The tests count evaluations on two-element literals for reads only.",
 [Z, L, D], [("getlazy/is_lazy/is_ready/ready_all/as_plist/as_pdict", Z), ("transient()/persistent() of lazy types", Z)],
 [("pending computation", "shared by every collection holding the lazy value", Z)], ["number of calls of each wrapped function"])
prop("C18", "Failing operations raise cleanly and leave every object intact",
 "When an operation fails, because of a bad argument or because a user callback (hash, equality, ordering, iterator, sort key, lazy function) raises at any point, the callback's own exception or the documented error reaches the caller, no persistent value changes, and a transient holds exactly its previous contents (single-element operations) or those plus the elements processed before the failure (batch operations). Afterwards every object involved keeps working normally.",
 ["fault_sequences", "inputs", "histories"],
 "all operations, all collections (colliding keys included), the fault injected at every possible callback invocation of the operation",
 "The tests check the error class of a few invalid arguments and never look at the object afterwards; no test makes a callback raise.",
 [L, D, S, AS, AM, AT], [("search before modify in every mutator", D), ("batch operations via a private transient", AM)], [], ["contents after the failed call and after follow-up operations"])
prop("C19", "Printed forms show the contents faithfully and str is bounded",
 "The repr of a collection shows the repr of every element (key: value for dicts) in iteration order, comma-separated inside two-character brackets. Its str (and so format and %s) shows the same text when that is at most 60 characters inside the brackets and otherwise the longest prefix of whole elements that leaves room for an ellipsis, followed by that ellipsis, never exceeding 60; persistent lazy collections print a placeholder in place of a lazy value. The text of a dict view shows each of its elements, in order. Formatting a sequence with a maximum length obeys that maximum for every length of three or more.",
 ["inputs"],
 "all collections and elements with representations of any length, including exact boundary lengths; all maximum lengths and separators",
 "No test prints a collection.",
 [U, AS, AM, AT, Z], [("seqstr", U), ("__str__/__repr__", AS)], [], ["returned strings"])
prop("C20", "Conversions are constant time and single updates share structure",
 "transient() and persistent() and the creation of a transient from a persistent value take an amount of work and new memory that does not grow with the size of the collection, and single-element updates and lookups (append, prepend, removal at either end, set and get of lists; in, add, discard, set, get and drop of sets and dicts) of every type take at most logarithmic work and memory. In particular none of them hashes, compares or copies the elements that are not involved.",
 ["inputs", "histories"],
 "all collections up to tens of thousands of elements and all single-element operations, cost measured as executed lines, element hash/equality calls and peak allocation, not wall-clock time",
 "The suite never measures cost; results are identical when an operation silently copies everything.",
 [L, D, S, AC], [("PHAMT/THAMT sharing", L), ("transient()/persistent()", D)], [], ["executed lines, allocated bytes, callback counts"])
prop("C21", "The abstract base classes derive correct behaviour from their primitives",
 "A class that implements only the documented abstract methods of the persistent or transient sequence, set or mapping base class inherits default methods (searching, counting, batch edits, operators, comparisons, hashing, copying, pickling) that behave as the built-in list, set and dict do and as the library's own types do. They rely on nothing but those abstract methods.",
 ["programs", "inputs", "histories"],
 "all operation histories on independent minimal implementations of the six base classes",
 "The tests only use the base classes through the library's own concrete types, which may accidentally provide what a mixin needs.",
 [AS, AM, AT, AC], [("PersistentSequence/Set/Mapping and TransientSequence/Set/Mapping mixins", AS)], [], ["results of the inherited methods"])
prop("C22", "Iterating a changing tdict is detected, and other iterations are stable",
 "If keys are added to or removed from a transient dict (including by clear) while it or one of its views is being iterated, the next step of that iteration raises RuntimeError instead of yielding stale or missing entries, whereas replacing the value of an existing key lets the iteration continue as dict does. Any number of iterators over a persistent collection run independently and each yields the full contents once, whatever is created or edited in between.",
 ["histories"],
 "all positions of the iteration at which any mutation happens, all mutations, any number of simultaneous iterators and views",
 "No test mutates a dict while iterating it or interleaves iterators.",
 [D, L, S], [("version counter of tdict", D), ("iterators over tries", L)],
 [("version", "changes when the key set changes", D)], ["items yielded and exceptions raised by iterators"])
prop("C23", "Persistent values may be shared between threads without locking",
 "When several threads read, hash, compare, iterate and derive new values (and private transients) from the same persistent collections at the same time, every thread gets exactly the results it would get alone and the shared values do not change. No operation on a persistent collection uses hidden shared mutable state that another thread's operation could disturb. The same holds for operations that an element's own callback (hash, equality, ordering, repr) performs on them in the middle of another operation.",
 ["schedules", "programs"],
 "all interleavings, at bytecode-line granularity, of two or three threads running arbitrary operation sequences on shared persistent collections",
 "No test uses threads, and a disturbance needs a switch inside an operation.",
 [L, D, S, AS, AM, AT], [("immutability of persistent objects", AC), ("hash caching", L)], [("cached hash", "the only field ever written after construction", L)], ["results per thread"])
prop("C24", "Collections stand in for their native counterparts in the language's protocols",
 "Handed to the language's and the standard library's own protocols, a collection gives what its native counterpart with the same contents gives: truth value, starred and plain unpacking, * and ** arguments, match patterns, the constructors and read or update methods of list, tuple, dict, set, frozenset, deque, Counter, OrderedDict and ChainMap, sorted, min, max, zip, map, itertools, random, bisect, string formatting by mapping, eval, itemgetter; transients also as the object such code mutates. It is an instance of the matching collections.abc classes (mutable ones only if transient) and of the library's own base classes, and persistent collections are Hashable.",
 ["inputs", "histories"],
 "all contents (any hashable or unhashable elements, lazy or not), all routes by which the collection was built, and each of the protocols",
 "The suite never passes a collection to native code beyond comparing it with a list or set; a protocol looks at several special methods at once and which ones matter depends on the contents (empty, None values, lazy values).",
 [L, D, S, Z, AS, AM, AT, AC], [("special methods of the ten types", L), ("base classes", AC)], [("inheritance", "the special methods come from collections.abc and the base classes", AS)], ["results of the protocols", "isinstance"])
prop("C25", "Collections release what they no longer contain",
 "An element, key or value stays alive because of a collection only while some live collection contains it: once it has been removed from or replaced in a transient, or the last persistent version that has it is gone, nothing in the library refers to it any more (at the latest after a garbage collection), whatever was done before: edits, conversions, reads, comparisons, hashing, printing, iterators given up halfway, failing operations.",
 ["histories"],
 "all histories over pools of linked collections of the ten types, with colliding hashes, lazy values, collections forgotten in any order, and failing or abandoned operations",
 "No test looks at lifetimes; a forgotten reference (to an origin, a stale trie entry, a cache) changes no result and shows only in what stays alive after a particular history.",
 [L, D, S, Z, AS, AM, AT], [("origin of a transient", L), ("entries of the tries", D)], [("_orig", "the persistent value a transient came from, dropped by its first modification", S)], ["weak references to elements"])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in P))
