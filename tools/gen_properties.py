#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code only so that the JSON stays well formed)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=False):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            mechanism=[dict(name=m, where=', '.join(files)) for m in mech],
            state=[dict(name=n, meaning=m) for n, m in state],
            observe_at=list(observe), hook_needed=None)))

p('C01', 'A failed internal step is never reported as success',
  'Whenever an allocation or any fallible operation that a public function performs internally fails, that function reports failure to its caller; it never returns its success value after a nested failure, and functions with no way to report failure perform no step that can fail. This holds for the big-number, elliptic-curve, RSA, DSA, ECDSA, ElGamal, (EC)DH and key-wrap interfaces in every supported build configuration.',
  ['fault_sequences', 'inputs', 'configurations'],
  'every public function, every path through it, every point at which an allocation or nested call can fail, every supported algorithm configuration',
  'The suite injects allocation failure at four call sites of one module; every other failing path (hundreds of them) is never taken by a test.',
  ['src/mpi', 'src/ecp', 'src/crypt/rsa.c', 'src/crypt/dsa.c', 'src/crypt/ecdsa.c', 'src/crypt/elgamal.c', 'src/crypt/dh.c', 'src/crypt/ecdh.c', 'src/misc.c'],
  ['nested status codes are tested and jump to a cleanup label that returns them', 'initialise-list helper undoes a partial initialisation and returns the error'],
  [('status value', '0 is success, negative is failure')], ['return value of each public function'])
p('C02', 'Owned memory is released exactly once, and only if it was set up',
  'On every path through every public function, including all failure paths, each block or number object the function sets up for itself is released exactly once before it returns, nothing is released or read before it was set up or after it was released, and objects that belong to the caller are still usable afterwards. An initialiser that fails leaves nothing allocated behind.',
  ['fault_sequences', 'inputs', 'configurations'],
  'every public function, every path, every failing allocation or nested call',
  'Leaks, double frees and releases of unset objects sit on failure paths that the suite does not take, and the suite is not run under a memory checker.',
  ['src/mpi', 'src/ecp', 'src/crypt', 'src/misc.c'],
  ['cascade of cleanup labels', 'list initialisation with rollback', 'swap of a temporary into the result followed by release of the temporary'],
  [('number object', 'sign, used, alloc, data; data is owned when alloc is non-zero')], ['allocator calls', 'state of caller objects after return'])
p('C03', 'Signature verification fails closed',
  'DSA, ECDSA, ElGamal and RSA signature verification report acceptance only on paths where every internal computation succeeded and a final equality test, between a value recomputed from the message and public key and a value taken from the signature, came out equal. Signature components outside their legal range (zero, negative, or not below the group order or modulus) are always rejected, as are an ECDSA result at infinity, a message that is not covered completely (up to the size of the group order for DSA and ECDSA), and an RSA block whose recovered padding or message differs in any byte.',
  ['inputs', 'fault_sequences'],
  'every signature, key, message and every failing internal step',
  'Tests feed a handful of valid signatures and tampered messages; forged degenerate components and failing internal arithmetic are never presented.',
  ['src/crypt/dsa.c', 'src/crypt/ecdsa.c', 'src/crypt/elgamal.c', 'src/crypt/rsa.c'],
  ['verify recomputes a commitment and compares it with the first signature component', 'range checks of both components', 'RSA padding check and comparison with the message'],
  [], ['return value of the verify functions'])
p('C04', 'Key unwrap releases key data only after the integrity check passes',
  'AES key unwrap reports success only when the recovered check value equals the standard initial value in all of its eight bytes, and when the check fails it reports an error and leaves no unwrapped key material in the caller buffer.',
  ['inputs'], 'every key, every wrapped blob (valid or tampered), every length',
  'Tests unwrap valid blobs only; a tampered blob is never presented.',
  ['src/utils/aes_wrap.c'], ['comparison of the recovered check block with the constant', 'wipe of the output on mismatch'], [], ['return value and output buffer of unwrap'])
p('C05', 'Keys, nonces and padding come only from the cryptographic generator',
  'Every secret or unpredictable value the library draws (private keys, per-signature and per-encryption nonces, prime candidates, encryption padding, generated cipher keys) is produced by the AES based generator and by no other source, freshly for each operation, and reaches the value that is used. The weak generator is never used internally, and random bytes of public-key encryption padding are never left zero.',
  ['inputs', 'histories'], 'every key generation, signing and encryption operation',
  'Random output looks the same to a test whichever generator produced it, and tests pin the generator to a fixed state.',
  ['src/mpi/mpi_rand.c', 'src/mpi/mpi_prime.c', 'src/crypt/rsa.c', 'src/crypt/dsa.c', 'src/crypt/ecdsa.c', 'src/crypt/elgamal.c', 'src/crypt/hill.c', 'src/prng/prng_aes.c'],
  ['random number routine is built on the AES generator', 'sign and encrypt draw a fresh nonce and pass it to the arithmetic'], [], ['which generator each operation consumes'])
p('C06', 'Inputs declared read-only are never modified',
  'No public function modifies any object it receives through a read-only parameter (message, key, operand, curve parameters, including everything those objects point to), neither directly nor through anything it calls. The only exception is when the caller passes the same object as an output as well.',
  ['inputs', 'configurations'], 'every public function and every const parameter, all call chains',
  'Tests do not compare inputs before and after the call, and casts or shared sub-objects let the modification compile cleanly.',
  ['include/cry', 'src'], ['const qualified parameters', 'shallow copies of operands that share digit storage'], [], ['input objects after return'])
p('C07', 'No hidden shared state: calls on distinct objects are independent',
  'Apart from the random generators, no public function writes to memory that outlives the call other than the objects passed to it, so operations on different objects, whatever their interleaving or order, cannot influence each other. All tables are immutable, and no object is left holding a reference to another caller buffer or to a local of the call (the cipher, hash or table a context is wired to at initialisation excepted).',
  ['schedules', 'histories'], 'every function, every interleaving of calls on distinct contexts',
  'Single-threaded tests that run one operation at a time cannot see a static scratch buffer or a cached value.',
  ['src'], ['all working state is on the stack, on the heap or in the caller context', 'tables are constants', 'generator state is the only static storage'], [], ['results of interleaved operations'])
p('C08', 'Clearing a context wipes every byte of it and cannot be optimised away',
  'The clear operation of every cipher, mode and hash context overwrites the whole context object with constant bytes using stores that an optimising compiler must keep, on every path, and a mode also clears the cipher it drives. Functions that build such a context on their own stack clear it before every return.',
  ['inputs', 'configurations', 'programs'], 'every context type and every compiler optimisation level',
  'A wiped context is dead to the program; no assertion in a test can observe whether the bytes were overwritten in an optimised build.',
  ['src/crypt', 'src/hash', 'src/utils', 'src/misc.h'], ['volatile byte stores over the full size of the context'], [], ['memory of the context after clear'])
p('C09', 'Constant tables equal their mathematical definition',
  'Every constant the algorithms rest on (AES, DES, CRC and base64 tables, hash initial values and round constants, bit length table, small primes, and the parameters of all named curves at every digit width) equals, in every entry, the value its defining standard or formula gives, and each curve identifier selects its own curve. Curve parameters satisfy the curve equation with a generator of the stated prime order.',
  ['inputs', 'configurations'], 'every entry of every table, every digit width, every curve id',
  'Known-answer tests touch a fraction of the entries, and only at one digit width; a single wrong entry can go unnoticed.',
  ['src/crypt/aes.c', 'src/crypt/des.c', 'src/crypt/base64.c', 'src/crc', 'src/hash', 'src/mpi/mpi_prime.c', 'src/mpi/mpi_core.c', 'src/ecp/ecp_curves.c'],
  ['static constant arrays'], [], ['results of the algorithms'])
p('C10', 'Symmetric primitives stay inside their buffers for every length',
  'For every input length (zero, partial, whole and multiple blocks), every data content, in place or between separate buffers, the block and stream ciphers, modes, MACs, hashes, checksums, encoders and generators never read or write outside the buffers they are given with their documented sizes, never use an unset value, and never perform an undefined operation.',
  ['inputs', 'histories'], 'every length up to several blocks plus tails, every byte content, every sequence of two calls',
  'Tests use a few fixed vectors, mostly block multiples, and no bounds checker.',
  ['src/crypt', 'src/hash', 'src/crc', 'src/prng', 'src/utils'], ['block loops with tail handling', 'buffered partial blocks'], [], ['memory accesses'])
p('C11', 'Big-number routines stay inside their storage for every operand',
  'For every operand value, sign and size, every aliasing of result and operands the interface allows, and every prior capacity of the result, the big-number routines access only digits they own or were given, and never perform an undefined operation.',
  ['inputs', 'configurations'], 'all operand values, digit counts, prior capacities, aliasing patterns, digit widths',
  'Tests use a few hundred vectors with one digit width and no bounds checker.',
  ['src/mpi'], ['grow before write', 'adjust of the used count', 'temporaries when the result aliases an operand'], [('used <= alloc', 'all used digits are allocated')], ['memory accesses'])
p('C12', 'Authentication tags cover every input byte and length',
  'The GCM tag depends on the key, the nonce, all associated data, all ciphertext and both lengths, and on ciphertext (not plaintext) in both directions even when working in place; CMAC and HMAC values depend on the key and on every part of the message.',
  ['inputs'], 'all keys, nonces, associated data, messages, directions, in place or not',
  'A tag that ignores part of its input still matches itself, and GCM is not exercised by the suite at all.',
  ['src/crypt/gcm.c', 'src/crypt/cmac.c', 'src/crypt/hmac.c'], ['ghash accumulation', 'length block'], [], ['tag value'])
p('C13', 'Every documented configuration builds and offers the whole interface',
  'For every combination of the documented algorithm tweaks, digit widths and enabled curves, the library compiles without errors or implicit declarations, defines every function that the public headers declare exactly once, and references no symbol it does not define other than standard C library functions and the documented application callback for failed assertions.',
  ['configurations'], 'all combinations of configuration switches, digit widths',
  'The suite builds one configuration.',
  ['config', 'include/cry', 'src'], ['preprocessor alternatives'], [], ['build result'])
p('C14', 'Produced output: exact size and fully written',
  'For every input length, each cipher, mode, MAC, encoder, hash, checksum, key-wrap and generator routine writes every byte of the output it documents and nothing beyond it, from set data only; the base64 encoder returns the documented length and takes each character from its own six bits; the exclusive-or helpers give the exclusive-or of the original operands for every overlap of result and operands.',
  ['inputs', 'histories'], 'all lengths around block boundaries, splits into several calls, every placement of overlapping buffers',
  'Tests compare fixed vectors only, mostly whole blocks and separate buffers.',
  ['src/crypt', 'src/hash', 'src/crc', 'src/utils', 'src/prng'], ['loops with tail handling', 'overlap cases of the exclusive-or helpers'], [], ['output buffer'])
p('C15', 'RSA results are either complete or absent',
  'RSA encryption, decryption, signing and verification hand the caller a result buffer and length only on success; on any failure nothing is left for the caller to release and the reported length is zero.',
  ['fault_sequences', 'inputs'], 'every failing step',
  'Failing paths are not tested.',
  ['src/crypt/rsa.c'], ['output allocated internally and handed over'], [], ['out and outlen after return'])

p('C16', 'Modes, MACs, key wrap and the generator drive the primitive exactly as defined',
  'For every key, initial value, message content and length, in place or between separate buffers, in one call or in several whole-block pieces, with a fresh context or one that was used before under another key or initial value: CBC, CFB, CFB-8, CTR and GCM encryption and decryption, CMAC, HMAC, AES key wrap and unwrap and the AES based generator produce exactly the combination of cipher (hash) results and input bytes that their definition states, including counter carries over all bytes, padding, subkeys, tail bytes and the state carried to the next call. A piece that ends inside a block never makes CTR or GCM reuse its keystream block.',
  ['inputs', 'histories'], 'all data contents; lengths around block and buffer boundaries; splits into up to three calls; context reuse',
  'Tests run a few published vectors, always with fresh contexts, separate buffers and one call; counter carries and tails are hardly touched.',
  ['src/crypt/cbc.c', 'src/crypt/cfb.c', 'src/crypt/ctr.c', 'src/crypt/gcm.c', 'src/crypt/cmac.c', 'src/crypt/hmac.c', 'src/utils/aes_wrap.c', 'src/prng/prng_aes.c'],
  ['block loops with feedback', 'big-endian counter increment', 'buffered decryption in place', 'subkey derivation'], [('feedback register or counter', 'what the next block is combined with')], ['output buffer', 'tag'])
p('C17', 'Digests and checksums process exactly the padded message, however it is split',
  'MD5, SHA-1, SHA-256, SHA-384 and SHA-512 start from the standard initial value and feed their compression function exactly the blocks of the message followed by the standard padding and length, whatever the message content and length and however it is split over update calls, also when a context is reused; the digest is the final state in the standard byte order. Every digest and checksum bit is computed from every message bit, through every entry point.',
  ['inputs', 'histories'], 'all contents; all lengths around the padding boundaries; splits into up to three calls',
  'Tests hash a few fixed messages, most in one call.',
  ['src/hash', 'src/crc'], ['buffered partial block', 'padding with length in bits'], [('buffer, fill level, bit count', 'unprocessed tail and total length')], ['digest'])
p('C18', 'Ciphers use the whole key, and each block or byte stands alone',
  'Every output bit of AES and DES/3DES depends on all (effective) key bits and on all bits of its own input block and on nothing else, in both directions, for every key size, in place or not, whatever was processed before; ARC4 and Trivium output is the input combined with a keystream that depends on the whole key and initial value but on no data; the classic ciphers combine each byte or block with its own part of the key only.',
  ['inputs', 'histories'], 'all keys and data contents, all key sizes, several blocks, repeated calls in both directions',
  'A cipher that ignores key bits, leaks one block into the next or depends on earlier data still passes vectors that do not exercise it.',
  ['src/crypt/aes.c', 'src/crypt/des.c', 'src/crypt/arc4.c', 'src/crypt/trivium.c', 'src/crypt/affine.c', 'src/crypt/hill.c'], ['key schedule', 'round functions', 'keystream generators'], [], ['output buffer'])
p('C19', 'Checksums and the linear generator compute their defining polynomials',
  'For every message content, length and split over update calls, the 16-bit (CCITT, IBM, DNP) and 32-bit (Ethernet) cyclic redundancy checks give exactly the remainder their generator polynomial, start value and final inversion define, the generic routines do so for every table, start value and flag, and the one-shot and incremental entry points agree. The combined linear generator follows its defining recurrence for every state, folds every seed byte into its state, and never runs from a state below the thresholds its definition requires.',
  ['inputs', 'histories'], 'all contents, start values, tables and seeds; lengths up to several words; splits',
  'Tests check a handful of strings; most table entries, splits and seeds are never used.',
  ['src/crc', 'src/prng/prng_lfsr113.c', 'include/cry/crc.h'], ['table driven byte step', 'word folding of the seed', 'component thresholds'], [('remainder', 'running value between updates'), ('z1..z4', 'component states')], ['returned checksum', 'generated bytes'])
p('C21', 'Symmetric decryption inverts encryption',
  'For every key, initial value and message content, AES (all key sizes), DES and 3DES, CBC, CFB, CFB-8, CTR and GCM over any block cipher, ARC4, AES key wrap, base64, and the affine and Hill ciphers (with an invertible key) decrypt (decode, unwrap) what they encrypted to exactly the original data and length, in place or between separate buffers, with the encrypting context or another one under the same key, whatever whole-block pieces either direction was called with; GCM gives the same tag in both directions.',
  ['inputs', 'histories'], 'all keys, initial values and contents; lengths and pieces around block boundaries',
  'Tests decrypt a few fixed vectors, mostly with a fresh context and one call.',
  ['src/crypt', 'src/utils/aes_wrap.c'], ['inverse key schedules and round functions', 'feedback of the cipher text', 'modular inverse of classic keys'], [('context between the two directions', 'round keys, feedback, counter')], ['decrypted data', 'tag', 'returned lengths'])
p('C22', 'Symmetric ciphers and digests compute their standard function',
  'For every key, initial value and content: AES-128/192/256 (FIPS 197), DES and two/three key 3DES (FIPS 46-3), Trivium (eSTREAM), the ARC4 generation step, GCM (SP 800-38D, for every hash subkey), MD5, SHA-1, SHA-256, SHA-384 and SHA-512 (RFC 1321, FIPS 180-4), base64 (RFC 4648) and the affine and Hill ciphers give exactly the value of their definition, in place or between separate buffers, for whole blocks and tails, with a fresh context or one in use.',
  ['inputs'], 'all keys and contents; lengths around block boundaries',
  'Finite known-answer vectors reach few table entries, rotations, carries and tails.',
  ['src/crypt/aes.c', 'src/crypt/des.c', 'src/crypt/trivium.c', 'src/crypt/arc4.c', 'src/crypt/gcm.c', 'src/crypt/base64.c', 'src/crypt/affine.c', 'src/crypt/hill.c', 'src/hash'], ['round functions', 'key schedules', 'compression functions', 'field multiplication'], [], ['cipher text', 'plain text', 'digest', 'tag'])
p('C23', 'Streaming is independent of how the input is split',
  'For every content, processing a message in up to three pieces gives the same output and the same continuation as processing it at once: digests, CMAC, HMAC, checksums and ARC4 for any pieces, CFB-8 for any pieces, CBC, CFB, CTR and GCM for pieces of whole blocks followed by any last one, Trivium for pieces of whole words.',
  ['histories', 'inputs'], 'all contents; splits into up to three calls, including empty pieces and single bytes, around block and buffer boundaries',
  'Few splits are tried.', ['src/hash', 'src/crypt', 'src/crc'], ['buffered partial blocks', 'state carried to the next call'], [('context', 'unprocessed tail, feedback, counter, total length')], ['output buffers', 'digest, tag, checksum'])

p('C25', 'Group law of elliptic-curve points',
  'For every curve and all points of its prime order subgroup, point addition and doubling give exactly the chord and tangent results (with the identity, equal and opposite operands handled as the group law says), and multiplication of every point by a scalar gives that multiple, for scalars with any bit pattern across digit borders, including zero, in each selectable algorithm (plain, fixed window, sliding window); the result may be stored in an operand, other operands and the scalar keep their values.',
  ['inputs', 'configurations'], 'all curves and points (number contents unknown); scalars up to 192 bits enumerated by pattern; aliasing; three configurations',
  'Tests multiply a few points by a few scalars in one configuration, with separate results.', ['src/ecp'], ['slope formulas modulo p', 'case split on zero, equal and opposite points', 'window tables and digit borders'], [], ['resulting point'])
p('C26', 'Public-key operations give the values their schemes define',
  'For all keys, domain parameters and messages: DSA and ECDSA signatures are the standard pair for some ephemeral exponent over the leftmost bits of the digest (as many as the order has), and verification accepts exactly the pairs the standard equation and ranges accept; ElGamal signatures and verification follow the ElGamal equations, as numbers and as bytes; Diffie-Hellman and its elliptic variant give both sides the same value; RSA applies the right exponent to every block of the (padded) message and decryption and verification give back the original; generated RSA, DSA and ECDSA keys satisfy their defining relations. Inputs keep their values.',
  ['inputs'], 'all keys, parameters and message contents; message lengths around the size of the order or modulus, several sizes of the order and modulus, up to three RSA blocks',
  'Tests check a handful of vectors, none with a digest longer than the order, and round trips with generated keys.', ['src/crypt/dsa.c', 'src/crypt/ecdsa.c', 'src/crypt/elgamal.c', 'src/crypt/dh.c', 'src/crypt/ecdh.c', 'src/crypt/rsa.c'], ['formulas over the number routines', 'truncation of digests', 'range checks', 'blocks and padding'], [], ['signature', 'verdict', 'shared secret', 'cipher text', 'keys'])
# ---- listed, not claimed (see MANIFEST.json not_applicable) -----------------
p('C20', 'Big-number arithmetic is exact',
  'Addition, subtraction, multiplication, squaring, division, shifts, roots, gcd, inverse and modular exponentiation return the mathematically exact result for every operand, whatever algorithm variant, digit width or aliasing is in use.',
  ['inputs', 'configurations'], 'all operands', 'Finite vectors.', ['src/mpi'], ['schoolbook, comba, karatsuba, toom-3 multiplication', 'long division'])
p('C24', 'Primality decisions and prime generation are sound',
  'The primality test never rejects a prime and accepts a composite only with negligible probability; generated primes have the requested size.',
  ['inputs'], 'all integers', 'Finite vectors.', ['src/mpi/mpi_prime.c'], ['Miller-Rabin rounds'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
