"""writes /verif/properties.jsonl (run by hand when a property changes)"""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': None}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': a})

prop('C01', 'Values of different kinds never get confused, and integers survive encoding',
     'Every value belongs to exactly one kind (number, boolean, empty list, undefined marker, symbol, string, pair, function, C object or other heap object), and the type predicates answer exactly that kind. Every integer whose magnitude is at most 2^53 is stored and read back unchanged, and every 48-bit object address is recovered unchanged from the value that carries it.',
     ['inputs'], 'all 64-bit value words, all integers in [-2^53, 2^53], all object addresses below 2^48',
     'The tests store a few dozen small integers and one or two objects of each kind; a wrong mask or shift only shows for particular bit patterns.',
     ['src/types.h', 'src/types.c', 'src/gc.h'],
     [('NaN boxing: tag bits and masks', 'src/gc.h, src/types.h: OBJ_MASK, tag, ptr, makeNaNPtr'),
      ('number conversion', 'src/types.h: makeNumber, fixnum, isfixnum'), ('type predicates', 'src/types.h: iscons, isBytes, iscobj, issymbol, isboolean; src/types.c: isvector, consp; src/runtime.c: primIsNumber...')],
     ['number?', 'symbol?', 'string?', 'cons?', 'vector?', 'boolean?'])
prop('C02', 'Integer arithmetic and comparison are exact',
     'For integers whose arguments and result have magnitude at most 2^53, addition, subtraction and multiplication return the exact result, division by a non-zero integer returns the quotient truncated toward zero, and the order and equality tests agree with the mathematical order. Applying them to something that is not an integer, or dividing by zero, stops the program instead of yielding a value.',
     ['inputs'], 'all pairs of value words',
     'Tests use a handful of small operands; division and the functional forms of + and - are hardly exercised.',
     ['src/types.h', 'src/runtime.c'],
     [('inline primitives used by compiled code', 'src/types.h: PRIM_ADD, PRIM_SUB, PRIM_MUL, PRIM_GT, PRIM_LT, PRIM_EQ'),
      ('primitive functions', 'src/runtime.c: primAdd, primSub, primMul, primDiv, primGT, primLT, primEQ')],
     ['+', '-', '*', '/', '>', '<', '='])
prop('C03', 'Equality is structural',
     'Two values compare equal exactly when they are the same immediate value, symbol, number or object, or are strings with the same bytes and length, or are pairs whose heads and tails compare equal. Equality is therefore reflexive and symmetric, and comparing never changes either value.',
     ['inputs'], 'all pairs of finite (acyclic) values of any shape and size',
     'Tests compare a few small lists and strings; equality is recursive over unbounded data.',
     ['src/types.h', 'src/str.c', 'src/runtime.c'],
     [('recursive comparison', 'src/types.h: eq'), ('byte comparison', 'src/str.c: strCmp'), ('primitive', 'src/runtime.c: primEQ')],
     ['='])
prop('C04', 'Objects read back what was stored in them',
     'A newly made pair, string, byte buffer, function object or C-object handle yields exactly the head and tail, bytes and length, code, arity and captured values, or pointer it was made with, and making it changes no other object. The accessors that check stop the program on an object of a different kind (the unchecked macros of compiled code are only used after a check).',
     ['inputs'], 'all component values, all lengths and numbers of captured values',
     'Tests build small objects and mostly read them immediately; wrong sizes or field mixes appear only with particular lengths.',
     ['src/types.c', 'src/types.h', 'src/runtime.h'],
     [('constructors', 'src/types.c: makeCons, makeBytes, makeString, makeCString, makeNative, makeCObj, newObj'),
      ('accessors', 'src/types.h: car, cdr; src/types.c: cadr, caddr, cdddr, bytesData, bytesLen, stringStr, native*, mustCObj; src/runtime.h: closureRef')],
     ['cons', 'car', 'cdr', 'bytes-length', 'string-append'])
prop('C05', 'Vectors keep every element in its place',
     'A new vector has the requested length; storing at a valid index makes that index, and no other, read the stored value; the length never changes by storing. Appending yields a vector with the old elements in order followed by the new one, also when the storage has to grow, and an index outside the length stops the program.',
     ['inputs', 'histories'], 'all sizes, capacities, indices and element values',
     'Tests use a few small vectors; growth and boundary indices are barely touched.',
     ['src/types.c', 'src/runtime.c'],
     [('vector operations', 'src/types.c: makeVector, vectorRef, vectorSet, vectorLength, vectorAppend, isvector'), ('primitives', 'src/runtime.c: builtinVector*')],
     ['vector', 'vector-ref', 'vector-set!', 'vector-length'])
prop('C06', 'Symbols are interned',
     'For texts without zero bytes, interning the same text always yields the same symbol and different texts yield different symbols, whatever was interned in between, and the text of a symbol reads back as the text it was interned with. A generated symbol differs from every other symbol.',
     ['inputs', 'histories'], 'all texts and all orders of interning',
     'Tests intern the few hundred names of the library; the table is a hash trie whose shape depends on hashes and order.',
     ['src/types.c', 'src/map.h', 'src/str.c'],
     [('symbol table', 'src/types.c: intern, symbolStr, strHashFunc, strEQFunc'), ('hash trie', 'src/map.h'), ('generated symbols', 'src/runtime.c: primGenSym')],
     ['intern', 'symbol->string', 'gensym'], [('symbolIntern', 'table text -> symbol text buffer', 'src/types.c')])
prop('C07', 'Associative tables return the last value stored under a key',
     'In the table used for symbols and global bindings, looking up a key returns the value most recently stored under an equal key, and reports absence when none was stored. Storing under one key never changes what any other key returns.',
     ['inputs', 'histories'], 'all sequences of stores and lookups, all keys and hash values including colliding ones',
     'Collisions of the 64-bit hash and deep tries do not occur in the tests.',
     ['src/map.h'], [('hash trie', 'src/map.h: lookup, _map_get, _map_set, _map_init, fnv1a64')], ['symbol lookup', 'global lookup'])
prop('C08', 'String buffers hold exactly the concatenated text',
     'Creating, copying, concatenating, appending to, shrinking and slicing text buffers yields exactly the bytes that the same operations yield on mathematical strings, always followed by a terminating zero, without touching memory outside the buffer. Searching returns the first (or last) matching position or -1, and comparison orders texts lexicographically with a proper prefix first.',
     ['inputs', 'histories'], 'all texts, lengths, capacities and positions',
     'The tests reach these helpers only with short paths and names.',
     ['src/str.c', 'src/str.h'], [('buffers', 'src/str.c: strNew, fromBlk, fromCStr, strDup, strCpy, strCat, strAppend, strShrink, strBufReserve, growCap'),
      ('search', 'src/str.c: strStr, strChr, strRchr, strCmp, strSub, ptrByIdx')], ['string-append', 'library path handling'])
prop('C09', 'Growable arrays keep their elements',
     'The growable array used for call stacks, globals and packages returns at every index below its length the element last stored there; appending adds exactly one element at the end, popping returns and removes the last one, and growing loses nothing. No access leaves the allocated storage.',
     ['inputs', 'histories'], 'all lengths, capacities and element sizes',
     'Growth happens at a few capacities only in the tests.', ['src/vector.h'], [('array', 'src/vector.h: _vector_append, _vector_init, vecGet, vecSet, vecPop')], ['deep recursion', 'many globals'])
prop('C10', 'Allocation hands out exclusive, large enough, aligned memory',
     'Every allocation returns memory of at least the requested size, 8-byte aligned, inside the collector heap, that overlaps no other allocated object still in use, and records the size of the object. Objects from a few bytes up to 64 MB are served.',
     ['inputs', 'histories'], 'all request sizes, all states of blocks and free lists',
     'Tests allocate common small sizes; size-class boundaries, nearly full blocks and large-object reuse depend on history.',
     ['src/gc.c'], [('size classes', 'src/gc.c: getSlotBySize, sizeClass tables'), ('small objects', 'src/gc.c: blockAlloc, getBlock, gcAlloc'), ('large objects', 'src/gc.c: heapArenaAllocLarge, gcAllocLargeObject')], ['all object constructors'])
prop('C11', 'Garbage collection never disturbs reachable data',
     'Data reachable from global variables, the running frame, saved frames, the result register, captured continuations and remembered objects keeps its identity and content through any number of incremental collection rounds interleaved with allocation and mutation. Collection is not observable by programs except through memory use.',
     ['histories', 'programs'], 'all interleavings of allocation, mutation and collection steps, all object graphs',
     'A missed mark or barrier corrupts data only when a collection happens at one particular point.',
     ['src/gc.c', 'src/types.c', 'src/runtime.c'],
     [('marking', 'src/gc.c: gcMark, markObject, checkPointer, nextVersion, versionCmp'), ('tracing', 'src/types.c: consGCFunc, nativeGCFunc, vectorGCFunc, symbolGCFunc; src/runtime.c: continuationGCFunc, coraGCFunc'), ('barriers', 'src/gc.c: writeBarrierForIncremental, writeBarrierForGeneration, gcRSet'), ('gray queue', 'src/gc.c: gcEnqueue, gcDequeue')], ['any program'])
prop('C12', 'Function application supports exact, partial and over application',
     'Calling a function of n parameters with n arguments runs it on those arguments in order; with fewer it yields a function of the remaining parameters that behaves as if all arguments had been given at once, however the arguments are split; with more it applies the result to the remaining arguments.',
     ['inputs', 'programs'], 'all arities, argument counts and ways of splitting arguments',
     'Tests apply a few small arities; splits across several partial applications are not enumerated.',
     ['src/runtime.c', 'src/runtime.h'], [('calls', 'src/runtime.h: coraCall0..4; src/runtime.c: coraCall, coraDispatch, makeCurry, callCurry, builtinApply')], ['((f a) b)', '(f a b c)', 'apply'])
prop('C13', 'Frames never overlap and returns resume the caller',
     'Each call gets a frame of its own that overlaps no active frame, at any recursion depth, and returning restores exactly the caller frame, code position and stack extent that were saved, delivering the returned value.',
     ['histories', 'programs'], 'all call depths and frame sizes, including crossing stack segments',
     'Crossing a stack segment happens at specific depths and frame sizes.',
     ['src/runtime.h', 'src/runtime.c'], [('frames', 'src/runtime.h: stackAlloc, saveCont, coraReturn; src/runtime.c: stackAllocSlowPath, coraReturnSlowPath, segmentStackAlloc, coraRun')], ['deep recursion'])
prop('C14', 'Thrown values reach the nearest handler, and resuming continues the computation',
     'A thrown value is delivered to the handler of the innermost enclosing try, with the stack as it was when that try was entered; when the body finishes normally its value is the value of the try. Calling the resumption given to the handler continues right after the throw with the given value, and the value of the body then becomes the value of that call.',
     ['programs', 'histories'], 'all nestings of try, throw and resume, at all stack depths',
     'Tests contain a handful of nestings.', ['src/runtime.c'], [('control', 'src/runtime.c: builtinTryCatch, builtinThrow, makeContinuation, continuationAsClosure')], ['try', 'throw'])
prop('C15', 'Global variables hold the last value set',
     'Reading a global variable gives the value most recently set under that name, setting one variable never affects another, and a variable never set is reported as undefined. This holds through every access path: by symbol, by compiled reference and from the embedding API.',
     ['inputs', 'histories'], 'all sequences of definitions and reads, all names',
     'The tests define a bounded set of names in one order.', ['src/runtime.c', 'src/runtime.h', 'src/export.c'],
     [('bindings', 'src/runtime.c: bindSymbol, primSet, symbolGet; src/runtime.h: globalRef, globalSet'), ('embedding API', 'src/export.c')], ['set', 'value', 'value-or'])
prop('C16', 'Reading printed data gives the data back',
     'Reading the printed form of integers, booleans, the empty list, symbols whose name is written in symbol syntax, and proper lists built from them gives an equal value, and reading a text denotes the datum its syntax describes: quotes, backquotes, unquotes, list macros, comments, strings with escapes, numbers. Reading never writes outside its buffers, whatever the input text.',
     ['inputs'], 'all texts and all data',
     'Tests read some twenty fixed texts.', ['src/reader.c'], [('reader', 'src/reader.c: sexpRead, readCons, readListMacro, readNumber, eatWhitespace'), ('printer', 'src/reader.c: printObj, printCons')], ['REPL', 'read-file-as-sexp'])
prop('C17', 'String library functions compute the mathematical string operations',
     'Length, indexing, slicing, searching, splitting, comparison, replacement and conversion between strings, bytes, symbols and lists return what the corresponding operation on byte sequences returns, for any content including empty strings and bytes above 127. Their arguments are never modified.',
     ['inputs'], 'all strings and positions', 'There are hardly any tests of this library.', ['lib/string.c'], [('string module', 'lib/string.c')], ['cora/lib/string'])
prop('C18', 'Hash tables are finite maps',
     'After any sequence of insertions, replacements and deletions, looking up a key yields the pair last stored under an equal key, or the empty list if there is none or it was deleted, and the count is the number of keys present. Keys may be integers (also negative), strings, symbols, booleans, the empty list or lists of such.',
     ['inputs', 'histories'], 'all sequences of operations, keys and table sizes',
     'Collisions and deletions from the middle of a bucket are not tested.', ['lib/hash.cora', 'lib/hash-h.c'], [('table', 'lib/hash.cora'), ('hash and mod', 'lib/hash-h.c')], ['hash-get', 'hash-set!', 'hash-del!', 'hash-count'])
prop('C19', 'List library functions compute the mathematical list operations',
     'Length, append, reverse, map, filter, membership, association and the accessor combinations return what the mathematical operations on finite sequences return, preserving order and applying the given function once per element.',
     ['inputs', 'programs'], 'all finite lists and all functions', 'Tests apply them to a few short lists.', ['init.cora', 'init.c'], [('list functions', 'init.cora: reverse, map, filter, append, length, elem?, assq, cadr...')], ['length', 'append', 'reverse', 'map', 'filter', 'elem?'])
prop('C20', 'Queues are first-in first-out',
     'The sequence of elements dequeued equals the sequence enqueued, for any interleaving of the two operations, and the length and emptiness reports agree with the number of elements not yet dequeued.',
     ['histories'], 'all interleavings of operations', 'No test exercises the queue library.', ['lib/queue.cora'], [('two-list queue', 'lib/queue.cora')], ['enqueue', 'dequeue', 'queue-len', 'queue-empty?'])
prop('C21', 'Generated C text denotes the source constants and names',
     'The C string literal emitted for a text constant denotes exactly the bytes of the constant, and the C names emitted for symbols consist only of characters allowed in C identifiers. Emitted numbers denote the integer constant.',
     ['inputs', 'programs'], 'all constants and symbol names', 'Tests compile programs with plain texts and names.', ['lib/toc/internal.c', 'lib/toc.cora'], [('escaping', 'lib/toc/internal.c: escape-str, generate-str, generate-sym, generate-num')], ['load', 'compile-to-c'])
prop('C22', 'Compiling a program preserves its meaning',
     'A program compiled to C and loaded produces the same values and effects as the language defines and as the interpreter computes. This covers macro expansion, name resolution, closure conversion, stack explication and code emission together.',
     ['programs'], 'all programs', 'The suites compile a few dozen programs.', ['lib/toc.cora', 'init.cora', 'lib/eval.cora'], [('compiler passes', 'lib/toc.cora'), ('interpreter', 'lib/eval.cora')], ['load', 'eval'])
prop('C23', 'Pattern matching selects the first clause that matches',
     'A match or multi-clause function evaluates the body of the first clause, in textual order, whose pattern matches and whose guard holds, with the pattern variables bound to the matched parts.',
     ['programs', 'inputs'], 'all clause lists and all matched values', 'Tests use fixed clauses.', ['init.cora'], [('match expansion', 'init.cora: rewrite-match, match-helper, match1')], ['match', 'func'])
prop('C24', 'Communication between green threads is neither lost nor duplicated',
     'Every value sent on a channel is received exactly once by one receiver, in order per sender, and a blocked thread continues once its operation can proceed.',
     ['schedules', 'programs'], 'all schedules', 'Needs a scheduler, timers and sockets.', ['lib/async.cora', 'lib/chan.cora', 'lib/cml.cora', 'lib/net.c'], [('scheduler', 'lib/async.cora'), ('channels', 'lib/chan.cora, lib/cml.cora')], ['chan-send', 'chan-recv'])
prop('C25', 'File and process helpers transfer all bytes',
     'Reading, writing and copying files and running commands transfer exactly the bytes involved and report failure when the operating system does.',
     ['inputs', 'fault_sequences'], 'all contents and fault sequences', 'Only the success path is exercised.', ['lib/io.c', 'lib/os.c'], [('io', 'lib/io.c, lib/os.c')], ['open', 'read', 'write'])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
