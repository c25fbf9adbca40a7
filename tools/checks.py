CHECKS = {
 'C01': ('explicit-state model (pushdown recogniser of RFC 8259) bound to the code by a W-method conformance suite, plus exhaustive enumeration of all token strings to a bound',
         'model_checking',
         'Every state of the recogniser (container stack <= 2, thorough 3) x every character x separating suffixes is replayed against the real parser, into Value and into skipped content; all strings over several token alphabets to a length bound; pumped documents. Trusts the two reference recognisers (cross-checked with each other). A deviation needing a longer unpumped context than the bound would be missed.'),
 'C02': ('exhaustive bounded enumeration of literals, escape sequences and documents on the real parser, each compared with a reference reader',
         'exploration',
         'Every code point, every \\uXXXX, surrogate pairs (all in thorough), all piece sequences to a length bound, literals of every length to a bound in every parser position and after every kind of earlier literal (buffer reuse). Strings outside these shapes are not covered.'),
 'C03': ('exhaustive bounded enumeration of number literals on the real parser, compared with exact big-integer / correctly rounded references',
         'exploration',
         'All literals over a small alphabet to a length bound, every integer within a window of every type limit and decimal digit boundary, dense mantissa x exponent grids, long digit strings. Not every double-valued literal.'),
 'C04': ('exhaustive bounded enumeration of documents (all trees to a node bound, key sequences, escapings, whitespace placements, pumped shapes) compared with a reference reader',
         'exploration',
         'All trees with at most a fixed number of nodes over chosen scalars and keys; wide and deep shapes on a list of sizes.'),
 'C05': ('exhaustive bounded enumeration of documents x target types, compared with an executable reference acceptance model per type',
         'exploration',
         'About 100 types x all small documents, all boundary numbers, all array lengths to a bound; types outside the list only by composition.'),
 'C06': ('exhaustive bounded enumeration of entry sequences per derived definition, compared with a reference model generated from the field list',
         'exploration',
         'About 90 definitions; per definition all orders, subsets, single extra entries, duplicate sequences and all short entry sequences to a bound.'),
 'C07': ('exhaustive bounded enumeration of values of every derived definition (stateless search over construction choices); each text is compared with the entries the definition dictates and parsed back',
         'exploration',
         'About 90 definitions of 0..257 fields or variants, each with every value reachable with a bounded number of non-default choices, alone and inside 13 other types, plus borrowing and trait-object fields. Field values themselves are trusted to C09.'),
 'C08': ('exhaustive enumeration of a bounded grammar of item definitions; the verdict of rustc on the real derives is compared with the expected one for each',
         'exploration',
         'Every combination of the listed generic parameter lists, field types, attributes, positions, names and shapes; each definition is also compiled with a derive that does nothing, so a refusal is due to the derive. Definitions outside the grammar are not covered.'),

 'C09': ('exhaustive bounded enumeration of serializable values; every text is read by a reference reader and must denote exactly the value',
         'exploration',
         'Every character alone, in keys and next to escapes; all words over 24 character classes to a length; escapes at every offset; all 8/16-bit integers and structured wider ones; structured doubles and singles; all trees to a node bound; 45 types with all construction choices to a bound. Other doubles and longer irregular strings are not covered.'),
 'C10': ('exhaustive bounded enumeration of values and documents on the real code; each goes through text and back and is compared exactly',
         'exploration',
         'Same value spaces as C09 plus all derived definitions; documents: all number literals over a small alphabet to a length, mantissa x exponent grids, all trees, all spellings of short strings.'),
 'C11': ('exhaustive bounded enumeration of entry sequences x key types x map types, compared with an association-list reference; exhaustive key subsets for serialization',
         'exploration',
         '15 key types (with colliding, refusing and reordering conversions) x 4 value types x 5 map types; all entry sequences to length 3..5, sizes from a list.'),

 'C14': ('stateless fault enumeration: every callback of every bounded document x instrumented builder type is made to fail once, the recorded call sequence is compared with the one the document dictates',
         'fault_enumeration',
         'All token words to a length, all trees to a node bound, truncations, insertions, entry sequences and a list of sizes into 63 builder types. Longer irregular documents are not covered.'),
 'C15': ('exhaustive bounded enumeration of serializable values built from instrumented nodes; the recorded call sequence, addresses and stream lifetimes are compared with the dictated ones',
         'exploration',
         'All trees to a node bound in five ownership styles, through every library container; sizes from a list.'),
 'C17': ('stateless fault enumeration: a panic is injected into every call of user code of every bounded run (and into every drop after an error), under a checking allocator',
         'fault_enumeration',
         'Same documents and values as C14/C15; double panics abort by language rule and are not injected. Memory errors that neither the checking allocator, the canaries nor the call order show would be missed here (C16 runs Miri).'),

 'C12': ('exhaustive bounded enumeration of nesting words x ways to end or break the document x target types, executed on 64 KiB stacks',
         'exploration',
         'Every word over the wrappers of 33 targets repeated to 5000 levels, 12 endings, depths to 2^17 (2^19). The result text, refusal and allocator balance are checked. A recursion that uses less than one machine word of stack per level, or only starts beyond these depths, is not seen.'),
 'C13': ('exhaustive bounded enumeration of shapes x ways of discarding a value, executed on 64 KiB stacks under a checking allocator',
         'exploration',
         '84 ways of discarding x nesting words, breadths, depths, all small trees and half-parsed documents.'),
 'C19': ('stateless exhaustive exploration of operation histories on the real containers, compared step by step with Vec and BTreeMap models',
         'exploration',
         'All histories of 3 (4) of about 50 operations with two registers from up to 4 start states; all pairs of small trees for clone_from; sizes to 2^10 (2^14). Longer histories are not covered, but the containers keep no state beyond their content.'),
 'C20': ('exhaustive bounded enumeration of strings x target types on a build with overflow checks, with callback counting, an accounting allocator and a watchdog',
         'exploration',
         'All strings over 30 pieces to length 4 (5), number strings, escapes, exponents, pumped shapes u^n v^n and literals of 2^31 digits into 78 types.'),

 'C18': ('stateless exploration of schedules on the real code: all interleavings of callbacks of 2-3 calls under a handoff scheduler, all nestings, all call sequences, and a single preemption after every machine instruction',
         'exploration',
         '33 calls; every ordered pair stopped at every instruction while another thread makes a whole call; every interleaving at callback granularity (sets with too many interleavings fall back to all schedules with one preemption). Two preemptions inside library code between callbacks, and weak-memory effects, are not explored natively (C16 runs the calls under a race detector).'),
 'C16': ('stateless exploration with fault injection: every bounded execution of a space of documents, values, faults, histories and thread pairs is run in the Miri interpreter (aliasing, provenance, initialization, alignment, races) and a larger one natively under AddressSanitizer, with block and drop accounting',
         'fault_enumeration',
         'Interpreted: about 17000 cases in quick (Stacked Borrows), about 40000 in thorough (strict provenance; and Tree Borrows on half of the quick space); native: about 400000 (2.6 million). Undefined behaviour that needs larger inputs than the interpreted ones is seen only when it is an invalid access that AddressSanitizer or the accounting shows. The aliasing models are those Miri implements.'),
 'C21': ('exhaustive bounded enumeration of inputs executed by both feature configurations of the real library in one process, with byte-by-byte comparison of the answers',
         'exploration',
         'Both builds answer about 3 million documents and values (types by the dozen each); the answers hold float bits, texts, Debug texts, error texts and call sequences. Inputs outside the enumerated families, and targets without std, are not covered.'),
 'C22': ('stateless exploration of drive histories on the real visitors: every bounded value, mis-kinded value and order of drives over a place, enumerated exhaustively and compared with a reference',
         'exploration',
         'About 190 target types (library types, forwarding types, 96 derived definitions), histories of one and two drives including refused and abandoned ones. Documents beyond the enumerated families are not covered.'),
 'C23': ('stateless exhaustive exploration of walks: all interleavings of two walks of the same value, abandoned and repeated walks, over all bounded values',
         'exploration',
         'All small values of the library and derived types; interleavings of two complete walks up to a length, three and more walks only in fixed patterns.'),
 'C24': ('stateless fault enumeration: the sink of every print of every bounded number and value fails at each byte and each write',
         'fault_enumeration',
         'Integers at all powers of two and ten and their neighbours, doubles from exponent x mantissa grids, all trees to a node bound. Debug of Number itself only as part of values.'),
 'C25': ('exhaustive bounded enumeration of shapes x targets x operations; every machine instruction is counted by single-stepping and the counts of documents of growing size compared; processor time for megabytes',
         'exploration',
         '43 ways to grow a document, 30 targets, pairs and nestings of them. Growth that only shows beyond 16 MiB, or in shapes outside the list, is not seen. n log n is within the bound.'),
}
NOT = {}
