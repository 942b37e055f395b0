CLAIMED['C01'] = ('Proved for every 64-bit word: each predicate and constructor under contract agrees with its specification; kinds '
                  'are disjoint and exhaustive. Trusted: clang IR, the VC generator, z3/cvc5.')
CLAIMED['C02'] = ('Proved for all 64-bit words, function forms and macro forms, modulo the shared opaque notions which are proved '
                  'against IEEE-754 separately; derived operators of init.cora are outside.')
CLAIMED['C08'] = 'every operation of str.c verified against byte-string specifications for all texts and buffers; bounded runs against a reference with exact-size blocks under ASAN'
CLAIMED['C09'] = 'every macro of vector.h, instantiated at the element types of the runtime, verified for all lengths, capacities and indexes; bounded runs against a plain array'
CLAIMED['C07'] = 'the search of map.h proved complete and correct for every trie, hash and equality (ghost path), set proved to change exactly one slot or value, path lemmas compose them; hash and equality of texts under contract; bounded runs against arrays with adversarial hashes'
CLAIMED['C03'] = 'eq verified against the structural definition (opaque recursive equality with its unfolding), string comparison verified against texts, reflexivity and symmetry lemmas; bounded runs over random trees'
CLAIMED['C04'] = 'constructors and accessors of types.c and runtime.c verified over an allocator contract (discharged in C10); bounded runs read back thousands of objects'
CLAIMED['C05'] = 'makeVector, vectorRef, vectorSet, vectorAppend, vectorLength, vectorCapacity verified for every vector over contracts of the allocator and write barriers; bounded runs against arrays, also through the builtins'
CLAIMED['C06'] = 'intern, symbolStr, symbol->string, the intern builtin and the generator of symbols verified over the contracts of the name table (C07) and of string buffers (C08); bounded runs over tens of thousands of names'
CLAIMED['C15'] = 'bindSymbol, symbolGet, primSet, value, value-or, globalRef, globalSet verified for every table and array of globals, known and new names, interned and generated symbols; bounded histories against an array'
CLAIMED['C13'] = 'stackAlloc, stackAllocSlowPath, saveCont, coraReturn, coraReturnSlowPath and segmentStackInit verified for every machine (any number of segments and saved frames), lemmas compose them into disjointness of frames; bounded random call/return/tail-call histories and recursion through the trampoline'
CLAIMED['C12'] = 'coraCall, coraCall0-4, coraDispatch, makeCurry, callCurry, applyOver, returnPartial, builtinApply and listLen verified for every function object, number of arguments and list, over the frame contracts of C13; lemmas compose partial applications; bounded runs over all splits of arguments'
CLAIMED['C14'] = 'try, throw, makeContinuation and resumption verified for every machine (any number of frames, segments and marks), the whole state at the call of the chunk, of the handler and of the resumed frame; bounded runs of random programs of nested try, throw and resume with collections on against a reference evaluator'
CLAIMED['C10'] = 'size classes, blockAlloc, getBlock, blockNew, arenas, allocDone and gcAlloc verified for every state of blocks, lists and arenas; large objects (4096 bytes and more) by bounded runs only, which also fill blocks and arenas against a map of all bytes in use'
CLAIMED['C11'] = 'tracers of all kinds, roots, barriers, remembered set, versions, mark, grey queue and pointer resolution verified one by one for every heap; that together they keep all reachable objects is exercised by millions of random steps with thousands of collections against a shadow copy'
CLAIMED['C17'] = 'every function of lib/string.c and string-append, bytes-length, reverse verified for all strings and positions (bytes of the result, the sequence of pieces, stops outside); bounded runs against byte arrays'
CLAIMED['C21'] = 'escape-str, generate-str, generate-sym, generate-num verified for all texts, names and numbers over contracts of string buffers and fprintf, lemmas relate escapes to C literals; bounded runs decode the emitted text'
CLAIMED['C16'] = 'every function of the reader verified for all texts against a grammar given by its unfolding: white space and comments, numbers, names, strings with escapes, prefixes, lists and list macros (value, end, incomplete, and the only reasons to stop); the printer and round trips by bounded runs'
