c('C01', 'path-sensitive abstract interpretation of LLVM IR: status propagation', 'other',
  'Over all abstract paths of each public function (loops widened), with every allocation and nested fallible call both succeeding and failing; nested public functions by contract, each analysed itself. Trusts the IR front end and the analyser.')
c('C02', 'path-sensitive abstract interpretation of LLVM IR: ownership and typestate', 'other',
  'Same exploration as C01; every number object and heap block is tracked through unset / set up / released. Trusts the IR front end and the analyser.')
NA = {
 'C20': 'exact values of multi-precision arithmetic for all operands: a statement about runtime numeric results; needs proof or testing, no static rule in reach decides it',
 'C24': 'probabilistic statement about number-theoretic results',
}
c('C06', 'path-sensitive effect analysis of LLVM IR: writes to read-only arguments', 'other',
  'All abstract paths of every public function; nested public functions by summaries of the same analysis; interface-table calls by their documented shape.')
c('C07', 'whole-program mod/ref analysis of LLVM IR plus retained-pointer analysis', 'other',
  'Flow-insensitive over every function of three configurations for writes to static storage; path-sensitive for pointers left in caller objects. The C library is trusted to be reentrant apart from a listed set.')
c('C08', 'path-sensitive wipe analysis of LLVM IR (byte-exact shadow of every context)', 'other',
  'Every path of every clear function, byte by byte, loops followed exactly; every return of every function that holds a context on its stack. Volatile stores are taken as kept by the compiler.')
c('C13', 'type-checking and symbol resolution of every configuration', 'other',
  'All 128 combinations of the tweaks at four digit widths, each curve alone and each curve left out, debug and assertion builds: compiled (not run) and the symbol tables resolved.')
c('C04', 'sound value analysis (Frama-C Eva, abstract interpretation) of unwrap over unconstrained cipher output', 'other',
  'Key data lengths enumerated (8..40 bytes quick, 8..72 thorough); key, blob and cipher output unconstrained; one wrong check byte at each of the eight positions. Trusts Frama-C Eva.')
c('C15', 'path-sensitive abstract interpretation of LLVM IR: hand-over state at every return', 'other',
  'All abstract paths of each RSA operation with every nested step both succeeding and failing; number routines by contract.')
c('C03', 'sound value analysis (Frama-C Eva) of the verification routines over a dependence model of the number routines', 'other',
  'Every outcome of every number routine, including failure; signature components zero, negative, too large, recomputed value different, point at infinity; RSA: every byte position of the recovered block(s) wrong, all other bytes free, moduli of 4..20 bytes and sample messages. Trusts Frama-C Eva and the model.')

A = '; linear parts in an affine domain over GF(2) (bits as exclusive-or of input bits)'
D = 'byte-precise dependence and value-numbering analysis (abstract interpretation of LLVM IR): control with constants, data as exact exclusive-or combinations or dependence sets'
c('C10', 'dependence analysis of LLVM IR with exact addresses, plus value analysis (Frama-C Eva) of the base64 decoder', 'other',
  'Every scenario (routine, length, split, overlap, reuse) for all data contents at once; lengths enumerated around block boundaries. Data-dependent indexes by the bits that may be set. Trusts the analyser, clang and Frama-C.')
c('C12', D + A, 'other', 'All data contents; lengths, splits and in-place use enumerated. Dependence is an over-approximation: a missing dependence is certain, a present one is structural.')
c('C14', D, 'other', 'All data contents; lengths, splits and buffer placements enumerated.')
c('C16', D + '; primitives uninterpreted' + A, 'other', 'All keys and data contents; lengths around block and internal buffer boundaries, splits into up to three calls, counters at carry boundaries enumerated.')
c('C17', D + '; compression function uninterpreted', 'other', 'All contents; lengths around the padding boundaries and splits enumerated; message lengths beyond 2^29 bytes are not reached.')
c('C18', D, 'other', 'All keys and data contents; key sizes and numbers of blocks enumerated. Dependence is structural.')

c('C09', 'comparison of every constant initialiser in the IR with tables computed from the definitions; constant propagation through the curve loader', 'other',
  'Every entry of every constant array in four digit widths; every curve identifier. A table that is computed at run time instead of stored is reported as not decided, not as a violation.')
c('C19', 'abstract interpretation of LLVM IR in an affine domain over GF(2): every output bit as exclusive-or of input bits, compared with the defining polynomial', 'other',
  'All contents, tables, start values and seeds at once; lengths (0..9 and around word sizes) and splits enumerated.')
c('C05', 'call-graph rule for sources of randomness; freshness and width of draws by value analysis (Frama-C Eva) over a dependence model of the number routines; affine analysis of the random number routine', 'other',
  'Every call site for other sources; every operation twice in a row over every outcome of the number routines with at most eight draws; padding for sampled modulus and message lengths; random numbers of 12 sizes (22 thorough) in three digit widths. The width of a draw is tracked as an upper bound.')
c('C11', 'value analysis (Frama-C Eva, abstract interpretation) of the arithmetic core with exact storage', 'other',
  'All digit contents and signs; 0..3 digits (0..5 thorough), prior capacities, aliasing patterns, failing allocations, digit widths 4 and 1 (2 thorough) enumerated; composite routines over contracts of the leaf routines. Eight-byte digits are not analysed. Trusts Frama-C Eva.')

G = 'abstract interpretation of LLVM IR in a value-numbering domain of GF(2) polynomials (no execution, no solver): '
c('C21', G + 'normal form of decrypt(encrypt(data)) compared with the data', 'other',
  'All keys and contents; lengths, pieces, in-place use, context reuse enumerated; block cipher under the modes abstract. Equal forms are equal for every input; a difference is reported only when the two forms take different values. ARC4 from any permutation state (positions enumerated). Classic keys enumerated.')
c('C22', G + 'normal form of every output bit compared with that of a textbook definition', 'other',
  'All keys and contents; key sizes and lengths around block boundaries enumerated. GCM with an abstract cipher and sampled or unknown hash subkey; ARC4 generation steps from any permutation state, positions enumerated; classic keys enumerated. The definitions (tools/refs.py) are trusted.')
c('C23', G + 'normal forms of the result in pieces and at once compared', 'other',
  'All contents; lengths and splits into up to three calls enumerated around block boundaries; block ciphers under modes and MACs abstract.')

N = 'abstract interpretation of LLVM IR in a value-numbering domain of terms over whole numbers (no execution, no solver), state split on undecided comparisons: '
c('C25', N + 'normal form of the resulting coordinates (point combination) compared with the group law', 'other',
  'All curves and points; scalars enumerated (patterns up to 192 bits). Number routines by their meaning (their arithmetic is not analysed here), not failing. Equal terms are equal for all operands; a difference is reported only when the terms take different values for operands that satisfy the path condition.')
c('C26', N + 'normal form of every result and verdict compared with the defining formula', 'other',
  'All keys and contents; sizes of parameters, message lengths and numbers of retries enumerated. Number and point routines by their meaning, not failing. PKCS#1 padding bytes fixed. The formulas in tools/check_c26.py are trusted.')
