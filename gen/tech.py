AI = 'path-sensitive abstract interpretation of LLVM IR produced from /repo headers (own analyser)'
T.update({
 'C01': ('AST facts on copy/move members of destructor-releasing classes + ownership typestate (' + AI + ')', 'proof', 'sound for the modelled acquire/release calls on all paths; loops widened'),
 'C02': ('acquire/release typestate dataflow over all paths incl. exceptional ones (' + AI + ')', 'proof', 'all paths, every modelled call failing or succeeding; allocation failure excluded'),
 'C05': ('exception-flow and typestate analysis of every destructor (' + AI + ')', 'proof', 'all paths of all destructors'),
 'C03': ('failure-propagation dataflow: every fallible external call assumed failing, all paths to normal returns checked (' + AI + ')', 'proof', 'table of failure conventions; one failure at a time; all paths'),
 'C04': ('inductive loop-invariant analysis with a ghost byte counter over all paths of every sized transfer (' + AI + ')', 'proof', 'all paths, every primitive result; loops widened with proved linear invariants'),
})
T.update({
 'C07': ('memory-access analysis of the atomic primitives and of handle hand-over on every path (' + AI + ')', 'proof', 'every primitive, every path; x86-64 IR'),
 'C12': ('byte provenance analysis of stores and results of each endian helper (' + AI + ')', 'proof', 'every bit of every value; native and portable configurations'),
 'C19': ('evaluation of the open flags on every path for every combination of mode bits (' + AI + ')', 'proof', 'all 2^n mode combinations, all paths'),
 'C23': ('flag-assignment and exception-flow analysis of every function with a success flag (' + AI + ')', 'proof', 'all paths of all instantiated functions'),
})
T['C13'] = ('save followed by load analysed as one program for scalars; relational comparison of the item sequences of every save path with every load path, elements by induction on a ghost count (' + AI + ')', 'proof', 'all values of the scalar types; containers of every size below 2^40; 24 types, elements and parts by their own save/load')
T['C20'] = ('ghost counters for workers set up, started, waited for and asked; induction over the worker loops with the user function opaque (' + AI + ')', 'proof', 'all n and thread counts below 2^31; every outcome of starting, waiting and of each call; interleavings by the ordering start/wait/inspect only')
T['C15'] = ('compile-only witnesses: type-check of every header alone under every standard and switch, linkage of every symbol it defines', 'proof', 'all headers x standards x switches with gcc 13 and clang 18 on this platform')
T['C22'] = ('backward slice of every format argument over SSA through call sites (LLVM IR), plus the type checker\'s format/argument rule', 'proof', 'all instantiated functions and call sites')
T['C24'] = ('effect analysis: writes to static storage and calls of process-global C functions in every function (LLVM IR)', 'proof', 'all instantiated functions; external writers recognised by parameter constness')
T['C17'] = ('path-sensitive evaluation of which algorithm, size and name each identifier leads to (' + AI + ')', 'proof', 'every identifier, every string (as comparisons), all paths; OpenSSL calls modelled by name')
T['C06'] = ('lock typestate and lock-set analysis over all normal and exceptional paths (' + AI + ')', 'proof', 'all paths of all functions that lock, wait or signal; C++11 and later Event; lock calls assumed to succeed')
T['C21'] = ('definite-assignment dataflow over all paths of every constructor (' + AI + ')', 'proof', 'all instantiated constructors; scalar members; operations of the class that are not expanded are trusted')
T.update({
 'C10': ('inductive analysis of the digit loops with a ghost position and a ghost value over all paths of every conversion (' + AI + ')', 'proof', 'every text of every length; every integer type from 8 to 64 bits'),
})
T['C11'] = ('value-set analysis of code units and bit-linear forms of results on every path; induction on a ghost position for whole texts (' + AI + ')', 'proof', 'all unit sequences, all 2^32 character values, texts of every length')

T['C25'] = ('abstract interpretation with ghost counters of bytes taken and buffered; byte and bit provenance of the padding blocks (' + AI + ')', 'proof', 'every number of bytes the buffer can hold, any amount of new data, every key length; the block function itself is opaque')
