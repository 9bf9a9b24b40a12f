NA.update({
 'N01': 'Correctness of rank/select is an arithmetic invariant over unbounded bit sequences and precomputed tables; no static argument in reach relates the tables to the contents, only running or proving the algorithm would.',
 'N02': 'Correctness of the FM-index search depends on the suffix array contents at run time; no static abstraction in reach captures it.',
 'N03': 'That the arithmetic of a block function equals the reference is full functional equivalence of two bit-mixing programs; deciding it means executing or symbolically proving both. (What surrounds the block functions is C25.)',
 'N04': 'Inverse-ness of zlib compression is a property of the external library and of unbounded data.',
 'N05': 'Numerical convergence quantifies over floating-point run-time values that no static bound in reach captures.',
})
