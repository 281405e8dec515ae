import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
I=["inputs"];H=["histories","inputs"]
p("C01","ChaCha20 output equals RFC 7539 for every key, nonce, counter and length",
 "For every 32-byte key, 12-byte nonce, initial block counter and message such that the block counter stays within 32 bits, ChaCha encryption returns a string of the message's length equal to message XOR the RFC 7539 ChaCha20 keystream. The exported quarter-round on four 32-bit words and on a 16-word state, and the block function, agree with RFC 7539 for all word values. A counter that is not given is 0. Keys that are not 32 bytes and non-empty nonces that are not 12 bytes are rejected.",
 I,"all 2^256 keys, 2^96 nonces, counters 0..2^32-1 and messages of any length (including 0, non-multiples of 64 and many blocks), and all 32-bit word quadruples",
 "The tests use five RFC vectors; they never reach most word values, lengths, or counters near 2^16 and 2^32.",
 ["cipher/chacha_poly.py"],[("chacha_q_round/quarter_round/inner_block","cipher/chacha_poly.py"),("ChaCha.initialize, chacha20_block, encrypt","cipher/chacha_poly.py")],
 ["ChaCha.encrypt","ChaCha.decrypt","ChaCha.chacha20_block","chacha_q_round","quarter_round"])
p("C02","ChaCha streaming: chunked use, decrypt and instances compose correctly",
 "Over any history of encrypt and decrypt calls on one ChaCha object, each call continues with the keystream block after the last one the previous calls consumed, so processing a message in chunks that are multiples of 64 bytes (the last may be shorter) equals one call, and decrypting with a fresh object of the same key, nonce and counter restores the plaintext. Histories on several objects never influence each other. When no nonce is given, a fresh 12-byte nonce is used that differs between objects and with which a second object decrypts the message.",
 H,"all interleavings of encrypt/decrypt calls of any lengths on any number of objects sharing or not sharing keys and nonces",
 "One test uses one fixed chunking of one message; the rest of the history space (partial blocks mid-stream, interleaved objects, empty calls, decrypt between encrypts) is untested.",
 ["cipher/chacha_poly.py"],[("block counter in state word 12 advanced per block","ChaCha.encrypt"),("urandom nonce","ChaCha.__init__")],["ChaCha.encrypt","ChaCha.decrypt"],
 [dict(name="state",meaning="16-word ChaCha state; word 12 is the running block counter",where="ChaCha.state")])
p("C03","Poly1305 tag equals RFC 7539 for every message and one-time key",
 "For every message and every 32-byte one-time key, the Poly1305 MAC function returns exactly the 16-byte tag defined by RFC 7539 section 2.5, including r clamping, partial last blocks, reduction modulo 2^130-5 of accumulator values close to the modulus, and tag addition that wraps modulo 2^128.",
 I,"all message lengths and contents and all 2^256 keys, including those that drive the accumulator to 0, p-1, p..2^130-1 and the final sum past 2^128",
 "The tests hold about a dozen RFC vectors; carries and reductions that matter only for rare accumulator values and longer messages are not reached by a sample.",
 ["cipher/chacha_poly.py"],[("clamp, poly1305_mac, le_bytes_to_num, num_to_16_le_bytes","cipher/chacha_poly.py")],["poly1305_mac"])
p("C04","AEAD encryption equals RFC 7539 AEAD_CHACHA20_POLY1305 for all inputs",
 "For every key, constant/iv split of the 12-byte nonce, additional data and plaintext, AEAD encryption returns the RFC 7539 ciphertext and 16-byte tag: the detached API returns the pair, and the combined API returns iv, ciphertext and tag concatenated. The Poly1305 one-time key generation function returns the first 32 bytes of ChaCha20 block 0. Results do not depend on earlier calls on the same or other objects.",
 H,"all keys, nonces, constant lengths 0..11, AAD and plaintext lengths of every residue modulo 16 and 64, any sequence of calls",
 "One RFC example (12-byte AAD, 114-byte text) is tested; padding residues, empty AAD or text and reuse of the object are not.",
 ["cipher/chacha_poly.py"],[("ChaCha20_AEAD.encrypt, pad16, num_to_8_le_bytes, poly1305_key_gen","cipher/chacha_poly.py"),("ChaCha_Poly_AEAD.encrypt","cipher/chacha_poly.py")],["ChaCha20_AEAD.encrypt","ChaCha_Poly_AEAD.encrypt","poly1305_key_gen"])
p("C05","AEAD decryption inverts encryption and exposes any tampering",
 "For all keys, nonces, additional data and plaintexts, decrypting what encryption produced returns the original plaintext and, in the detached API, the same tag that encryption returned (the tag of the received ciphertext and additional data). If the ciphertext, tag, iv, additional data or key is altered in any way (bits flipped, truncated, extended, bytes moved between fields), the detached API's computed tag is that of RFC 7539 for the altered data and thus differs from the received tag, and the combined API raises an error instead of returning a plaintext.",
 H,"all messages and all modifications of ciphertext, tag, iv, AAD or key, at every byte position",
 "No test decrypts with the AEAD classes or presents a modified message.",
 ["cipher/chacha_poly.py"],[("ChaCha20_AEAD.decrypt","cipher/chacha_poly.py"),("ChaCha_Poly_AEAD.decrypt tag comparison","cipher/chacha_poly.py")],["ChaCha20_AEAD.decrypt","ChaCha_Poly_AEAD.decrypt"])
p("C06","AES-CMAC equals NIST SP 800-38B / RFC 4493 for every key and message",
 "For every 16-, 24- or 32-byte AES key and every message, aes_cmac returns the 16-byte CMAC of SP 800-38B, and the subkey function returns the two 16-byte subkeys K1 and K2 of that key. No key or message makes either fail.",
 I,"all keys (including those whose subkeys have leading zero bytes or either top bit set) and messages of every length",
 "CMAC tests do not run in this environment, and the vectors in them cover four lengths for a handful of keys.",
 ["cipher/aes_cmac.py","cipher/encoding.py"],[("aes_cmac, subkey, pad, xor","cipher/aes_cmac.py")],["aes_cmac","subkey"])
p("C07","AES-SIV encryption equals RFC 5297 and decryption inverts it",
 "For every 32-, 48- or 64-byte key, every plaintext and every list of associated data strings (including empty strings and the empty list), AES-SIV encryption returns exactly the RFC 5297 synthetic IV followed by the ciphertext, and decryption with the same key and list returns the plaintext, through the functions and the class alike. Encryption is deterministic and leaves the caller's list unchanged; s2v and dbl agree with RFC 5297.",
 H,"all keys, plaintext lengths, numbers and lengths of AD components, and synthetic IVs (including those whose counter wraps)",
 "SIV tests do not run in this environment; the two RFC vectors fix one AD count and length class each.",
 ["cipher/aes_siv.py","cipher/aes_cmac.py","cipher/common.py","cipher/encoding.py"],[("s2v, dbl, siv_encrypt, siv_decrypt, AES_SIV","cipher/aes_siv.py")],["siv_encrypt","siv_decrypt","AES_SIV","s2v","dbl"])
p("C08","AES-SIV decryption rejects every altered message",
 "For every AES-SIV encryption, decryption raises an error and returns no plaintext when the ciphertext, the synthetic IV, any associated data string, the number or order of the associated data strings, or the key differs from the one used to encrypt (for an empty plaintext RFC 5297 does not use the second half of the key, so there only the first half counts).",
 I,"all messages and all modifications: bit flips at every position, truncation to any length, extension, AD components added, dropped, reordered, merged or split, wrong keys",
 "No running test presents a modified SIV message.",
 ["cipher/aes_siv.py"],[("comparison of recomputed s2v with received iv","siv_decrypt")],["siv_decrypt","AES_SIV.decrypt"])
p("C09","Integer/octet-string conversion and XOR helpers are exact",
 "In every copy the library exports (cipher common, cipher encoding, ecc), int_to_string maps each non-negative integer to its minimal big-endian octet string (one zero octet for 0), left-padded with zeros to exactly the requested length when one is given; it raises an error for negative integers and for lengths that are too short. string_to_int is its inverse and ignores leading zeros. xor of equal-length strings is bytewise XOR and rejects unequal lengths, and xor_min truncates to the shorter string.",
 I,"all non-negative and negative integers, all pad lengths, all octet strings",
 "Tests exercise a few fixed values; byte-boundary sizes, padding of zero and too-short padding are not covered.",
 ["cipher/common.py","cipher/encoding.py","ecc/ecc.py"],[("int_to_string/string_to_int/xor/xor_min","cipher/common.py, cipher/encoding.py, ecc/ecc.py")],["int_to_string","string_to_int","xor","xor_min"])
p("C10","Base-27/85/94 text encodings round-trip and match their definition",
 "For every octet string, b27encode, b85encode and b94encode return the positional representation of its big-endian integer value in their documented alphabets (base 85 as in RFC 1924), using only alphabet characters and no leading zero digit; decoding with padto equal to the original length restores the octets exactly, and decoding without padto gives the minimal octet string of the same value. Decoding text containing a character outside the alphabet raises an error.",
 I,"all octet strings, including leading zero octets, the empty string and long strings, all pad lengths and all texts",
 "One sample hash value and one RFC 1924 example are tested; leading zeros, padding and invalid text are not.",
 ["cipher/encoding.py"],[("base_N_encode/base_N_decode and the three alphabets","cipher/encoding.py")],["b27encode","b27decode","b85encode","b85decode","b94encode","b94decode"])
p("C11","Weierstrass and Koblitz point addition is the elliptic-curve group law",
 "On every short Weierstrass or Koblitz curve (published or user-defined over any prime field with p > 3), +, -, unary negation and doubling of points, including the point at infinity, equal points, opposite points and points of order two, return the point given by the elliptic-curve group law with coordinates reduced to 0..p-1. Consequently addition is commutative and associative, the identity is neutral, P - P is the identity, and comparison holds exactly for equal points.",
 I,"all pairs and triples of points of all supported curves, exhaustively on small user-defined curves",
 "Tests use one toy curve with three points and sums on P-192; special cases of the group law are not covered.",
 ["ecc/ecc.py","ecc/ellipticcurve.py","ecc/curves.py"],[("SmallWeierstrassCurveFp.add_points/double_point/negate","ecc/ecc.py"),("Point operators","ecc/ellipticcurve.py")],["Point.__add__","Point.__sub__","Point.__neg__","Point.double"])
p("C12","Weierstrass and Koblitz scalar multiplication is repeated addition",
 "On every short Weierstrass or Koblitz curve whose n annihilates the point P, k*P and P*k equal P added to itself k times for every integer k: negative k gives the negated point, multiples of n and the identity give the identity, and k and k + n give the same point. Hence scalar multiplication distributes over addition of scalars and of points, and two parties obtain the same Diffie-Hellman point.",
 I,"all integers k (0, 1, n-1, n, larger than n, negative, every bit pattern) and all points of all supported curves",
 "Tests check n*G and three scalars on P-192; most bit patterns, negative and reduced scalars are not covered.",
 ["ecc/ecc.py","ecc/ellipticcurve.py"],[("SmallWeierstrassCurveFp.scalar_multiple","ecc/ecc.py")],["Point.__mul__","Point.__rmul__"])
p("C13","Published curve parameters are the standard ones and mutually consistent",
 "Every curve class in the registry carries the parameters its standard publishes: p and n are prime, the curve is non-singular, the generator lies on it and has order exactly n, n*h lies in the Hasse interval, and curves published with a verifiable seed satisfy the seed relation. Curve identifiers and object identifiers name the right curve and identifiers are unique; every curve can be instantiated, its coordinate size is the byte length of p, and the registry lists contain every defined base curve exactly once.",
 ["configurations"],"every curve class the module defines and every parameter of it",
 "The test only checks n*G = identity for Weierstrass curves, which a consistent but wrong parameter set, a wrong cofactor, seed or identifier passes; Edwards and Montgomery curves are never instantiated by a running test.",
 ["ecc/curves.py","ecc/ecc.py"],[("curve classes and registry lists","ecc/curves.py")],["allCurves","smallWeierstrassCurves","koblitzCurves","edwardsCurves","montgomeryCurves"])
p("C14","Points off the curve are rejected; decompression and encoding are exact",
 "Creating a point with validation (the default of a Point made directly) succeeds exactly when the coordinates satisfy the curve equation, for every Weierstrass, Koblitz, Edwards, twisted Edwards and Montgomery curve; the curve's identity is a point of the curve. On Weierstrass and Koblitz curves y_from_x returns, for every x that has a point, one of the two y values of that point, and raises an error for every x that has none. The raw encoding of a point is its x and y as big-endian strings of exactly the curve's coordinate size each; its octet form (toOctets) is the value of x, and its text is (x,y) in decimal, or IDENTITY for the identity.",
 I,"all coordinate pairs (on and near the curve), all x, all points of all supported curves including primes congruent to 1 modulo 8",
 "No running test creates an invalid point, decompresses or encodes a point.",
 ["ecc/ecc.py","ecc/ellipticcurve.py","ecc/numbertheory.py"],[("on_curve assertions","Point.__init__"),("y_from_x","SmallWeierstrassCurveFp"),("Point.encode","ecc/ellipticcurve.py")],["EllipticCurve.point","y_from_x","Point.encode"])
p("C15","Edwards and twisted Edwards arithmetic is the Edwards group law",
 "On every Edwards and twisted Edwards curve with a complete addition law (published or user-defined), points form a commutative group under + with neutral element (0,1): addition, doubling, negation and subtraction return the point given by the Edwards addition law with coordinates in 0..p-1, and k*P equals repeated addition for every integer k, with n*G the identity.",
 I,"all pairs of points and all scalars on all supported complete Edwards curves, exhaustively on small user-defined ones",
 "No running test touches the Edwards classes.",
 ["ecc/ecc.py","ecc/curves.py"],[("TwistedEdwardsCurveFp/EdwardsCurveFp methods","ecc/ecc.py")],["Point operators on Edwards curves"])
p("C16","Montgomery curve arithmetic and ladders agree with the group law",
 "On every Montgomery curve (published or user-defined), +, -, negation and doubling return the group-law point with coordinates in 0..p-1, with the identity neutral and points of order two handled; k*P equals repeated addition for every integer k. Both Montgomery ladders return the x-coordinate of k*P for every affine point P with non-zero x and every k whose multiple is not the identity, and 0 when it is; ladder results commute as Diffie-Hellman requires.",
 I,"all points and scalars up to the bit length of p of all supported Montgomery curves, exhaustively on small user-defined ones",
 "No running test touches the Montgomery classes.",
 ["ecc/ecc.py","ecc/curves.py"],[("MontgomeryCurveFp methods, montgomery_ladder, montgomery_ladder2, cswap","ecc/ecc.py")],["Point operators on Montgomery curves","montgomery_ladder","montgomery_ladder2"])
p("C17","Modular inverse, gcd, lcm and modular exponentiation are exact",
 "inverse_mod(a, m) returns the unique x in 1..m-1 with a*x congruent to 1 modulo m for every integer a coprime to m >= 2 and raises an error otherwise; curve field inversion does the same modulo p. gcd and lcm give the greatest common divisor and least common multiple of any number of positive integers passed as arguments or as one list, which is left unchanged, and modular_exp equals base^exponent mod modulus for non-negative exponents and raises an error for negative ones.",
 I,"all integers of any size, including negative and unreduced arguments and argument lists of any length",
 "No running test calls these directly; curve tests reach only inverses modulo a few primes.",
 ["ecc/numbertheory.py","ecc/ellipticcurve.py"],[("inverse_mod, gcd, gcd2, lcm, lcm2, modular_exp","ecc/numbertheory.py")],["inverse_mod","gcd","lcm","modular_exp"])
p("C18","Jacobi and Legendre symbols and modular square roots are correct",
 "For every odd n >= 3 and integer a, jacobi(a, n) is the Jacobi symbol, and for every odd prime p legendre_symbol(a, p) is the Legendre symbol. For every prime p and 0 <= a < p, square_root_mod_prime returns a value whose square is a modulo p, or raises SquareRootError when none exists; modular_sqrt returns such a root, or 0 when none exists, for every odd prime p. jacobi with an even n or n < 3, and square_root_mod_prime with a outside 0..p-1, are rejected.",
 I,"all integers and all odd moduli, and all primes of every residue class modulo 8 and every 2-adic valuation of p-1, from tiny to curve size",
 "These are exercised by no running test.",
 ["ecc/numbertheory.py"],[("jacobi, legendre_symbol, square_root_mod_prime, modular_sqrt","ecc/numbertheory.py")],["jacobi","legendre_symbol","square_root_mod_prime","modular_sqrt"])
p("C19","is_prime and next_prime are exact for every integer in their reliable range",
 "is_prime(n) is true for every prime n of any size and false for every composite and every n < 2, for all n below 2^64 and for composites of any size built with known factors that are not strong pseudoprimes to the first bases. next_prime(n) returns the smallest prime greater than n. The small prime table holds exactly the primes up to 1229 in order.",
 I,"all integers: every small n, primes and composites of every size, Carmichael numbers, strong pseudoprimes to few bases, prime squares and products of close primes",
 "No running test calls is_prime or next_prime.",
 ["ecc/numbertheory.py"],[("is_prime (Miller-Rabin), next_prime, smallprimes","ecc/numbertheory.py")],["is_prime","next_prime","smallprimes"])
p("C20","Factorization and the multiplicative functions built on it are correct",
 "factorization(n) returns, for every n >= 2, the prime-exponent pairs of n with primes increasing and product n, and the empty list for n < 2. phi and carmichael (also from a factored list) return Euler's totient and the Carmichael function; order_mod(x, m) is the smallest k >= 1 with x^k congruent to 1 modulo m for every x coprime to m > 1 (it is 0 for m <= 1, and x that share a factor with m > 1 are rejected); largest_factor_relatively_prime and kinda_order_mod satisfy their definitions. A returned list belongs to the caller and a given one is left unchanged: neither affects later calls.",
 I,"all integers whose factoring is feasible: prime powers, products of primes around and beyond the small-prime table, high powers of two, all residues x",
 "No running test calls these functions.",
 ["ecc/numbertheory.py"],[("factorization, phi, carmichael, order_mod, largest_factor_relatively_prime, kinda_order_mod","ecc/numbertheory.py")],["factorization","phi","carmichael","order_mod","largest_factor_relatively_prime","kinda_order_mod"])
p("C21","GF(p) operator arithmetic is the prime field",
 "For every prime p, elements made by GFp(p) hold values reduced to 0..p-1, and +, -, unary -, *, / between elements and between elements and integers on either side compute the field operation on those values, division by zero raising an error; inverse returns the multiplicative inverse. x^k is x to the integer power k in the field (negative k meaning powers of the inverse), int^element uses the element's value as exponent, and equality compares field values.",
 I,"all primes p, all pairs of elements and integers of any size and sign, all expressions built from them",
 "Tests use p = 11 with a few values and one loop at 2^255-19; negative integers, zero, large exponents and chains of operations are not covered.",
 ["fmath/galoisfield.py"],[("GFp, Element_of_GFp operators, egcd, inverse_mod","fmath/galoisfield.py")],["GFp","Element_of_GFp operators"])
p("C22","Polynomial arithmetic modulo a monic polynomial over GF(p) is exact",
 "For every prime p, monic polymod of degree >= 1 and coefficient lists, polynomial_reduce_mod, polynomial_multiply_mod and polynomial_exp_mod return a list of fewer than len(polymod) coefficients (or the unreduced short input) that represents the remainder, the product and the power modulo polymod with coefficients congruent modulo p, for all exponents below p. Multiplication and exponentiation leave the lists they are given unchanged. A polymod that is constant or not monic is rejected.",
 I,"all primes, all monic moduli, all coefficient lists and all exponents 0 <= e < p",
 "The source itself notes these were tested only through square roots; no running test calls them.",
 ["ecc/numbertheory.py"],[("polynomial_reduce_mod, polynomial_multiply_mod, polynomial_exp_mod","ecc/numbertheory.py")],["polynomial_reduce_mod","polynomial_multiply_mod","polynomial_exp_mod"])
p("C23","The stored digits and the pi() fraction are pi to the requested accuracy",
 "The pi digit string equals the true decimal expansion of pi at every position. For every d from 1 to the number of stored digits, pi(d) is exactly the fraction of the first d decimals, hence within 10^-d below pi; pi() uses all digits, and a larger d is rejected.",
 I,"every digit position and every requested digit count",
 "No running test checks a single digit; a wrong digit anywhere among tens of thousands would go unnoticed.",
 ["fmath/pi.py"],[("pi_string, pi","fmath/pi.py")],["pi","pi_string"])
p("C24","HMAC equals RFC 2104 for every key length, hash and call history",
 "For every key of any length, every message and every hash offered to it (block size and digest size taken from the hash), HMAC, HMAC_SHA1 and HMAC_MD5 return the RFC 2104 MAC. Over any history of update, digest, reset, one-shot and setKey calls, digest returns the MAC under the current key of exactly the data updated since the last reset or rekey, digest does not disturb the running computation, and a one-shot call leaves the object reset; using an unkeyed object raises an error.",
 H,"all keys (shorter than, equal to and longer than the block), all messages, all call histories on any number of objects",
 "HMAC tests do not run in this environment and use fixed vectors.",
 ["hash/hmac.py"],[("HMAC.setKey/update/digest/reset","hash/hmac.py")],["HMAC","HMAC_SHA1","HMAC_MD5"],
 [dict(name="inner hash context",meaning="running inner hash over ipad block and data",where="HMAC.H")])
p("C25","PBKDF2 and the 802.11 passphrase mapping equal RFC 2898 / IEEE 802.11i",
 "For every password of up to 63 bytes, every salt, every iteration count >= 1 and every key size from 0 to 10000, pbkdf2 returns exactly the RFC 2898 PBKDF2-HMAC-SHA1 key (or with the supplied PRF). dot11PassPhraseToPSK returns the 32-byte key for 4096 iterations of every 8- to 63-character passphrase and SSID; other passphrase lengths, longer passwords and larger key sizes are rejected.",
 I,"all passwords, salts, iteration counts and key sizes, including sizes that are not a multiple of the digest",
 "PBKDF2 tests do not run in this environment; their vectors fix a few key sizes.",
 ["hash/pbkdf2.py","hash/hmac.py","cipher/common.py"],[("pbkdf2, dot11PassPhraseToPSK","hash/pbkdf2.py")],["pbkdf2","dot11PassPhraseToPSK"])
p("C26","The 802.11 PRF equals its definition at every output length",
 "For every key, label, data and every output length of 0 to 40000 bits that is a multiple of 8, PRF returns exactly that many bits of HMAC-SHA1(key, label || 0x00 || data || i) concatenated for i = 0, 1, 2, ...; lengths that are not multiples of 8 are rejected. Hence shorter outputs are prefixes of longer ones and PRF_128 to PRF_768 equal PRF at those lengths.",
 I,"all keys, labels, data and output lengths",
 "PRF tests do not run in this environment; their vectors use one label and a few lengths.",
 ["hash/prf_dot11.py"],[("PRF","hash/prf_dot11.py")],["PRF","PRF_128","PRF_192","PRF_256","PRF_384","PRF_512","PRF_768"])
p("C27","Michael and the TKIP MIC equal IEEE 802.11i for every message",
 "For every 8-byte key and every message, Michael returns the 8-byte IEEE 802.11i Michael value, by every documented calling form and after any rekeying; keys of other lengths are rejected. TKIP_MIC returns Michael over DA, SA, priority and three zero octets followed by the data (DA, SA and data in the D2 version), rejecting priorities outside 0..15, addresses that are not 6 octets and versions other than D2 and D3. Michael's update, digest and final are refused.",
 H,"all keys, message lengths and contents, addresses, priorities, versions, and rekeying histories",
 "These tests do not run in this environment and hold fixed vectors.",
 ["hash/michael.py","hash/tkip_mic.py"],[("Michael.hash, b; TKIP_MIC.hash","hash/michael.py, hash/tkip_mic.py")],["Michael","TKIP_MIC"])
p("C28","TKIP key mixing equals IEEE 802.11i over every packet-number history",
 "For every temporal key, transmitter address and 6-octet packet number (TSC0 first), the mixer's newKey returns the 16-octet per-packet key of the IEEE 802.11i two-phase mixing function. This holds after any history of earlier newKey, setKey, setTA and setPnBytes calls in any order, and wrong-sized keys, addresses and packet numbers are rejected.",
 H,"all keys, addresses, packet numbers and all histories, in particular ones where the upper four octets stay, change, return, or where key or address change between packets",
 "The test vectors (not running here) each use a fresh mixer or increasing packet numbers; stale cached phase-1 values need particular histories.",
 ["hash/tkip_key_mixing.py"],[("phase-1 cache keyed by upper four octets","TKIP_Mixer.newKey"),("phase1KeyMixing, phase2KeyMixing","hash/tkip_key_mixing.py")],["TKIP_Mixer.newKey"],
 [dict(name="phase1Key",meaning="cached phase-1 output",where="TKIP_Mixer"),dict(name="upper4SequenceOctets",meaning="upper packet-number octets the cache belongs to",where="TKIP_Mixer")])
p("C29","Permutation orbit analysis partitions every permutation into its cycles",
 "For every permutation of 0..n-1, map_orbits_of_permutation returns a dictionary whose values are exactly the cycles of the permutation, each keyed by and starting with its smallest element and listed in application order, together covering every element once; orbit_start_and_length lists the start and length of each. The published AES and SMS4 S-box tables equal their specifications.",
 I,"all permutations of every size, including identity, single cycles and many short cycles",
 "No test covers the analysis package.",
 ["analysis/sbox_analysis.py"],[("map_orbits_of_permutation, orbit_start_and_length","analysis/sbox_analysis.py")],["map_orbits_of_permutation","orbit_start_and_length","aes_sbbytes","sms4_sbbytes"])
p("C30","Walsh transform and S-box nonlinearity match their definitions",
 "For every 0/1 sequence t whose length is a power of two, walshTransform(t) at w is the sum over x of (-1)^(t[x] xor <w,x>), and nonLinearity(t) is the Hamming distance of t to the nearest affine function; other lengths are rejected. binaryInnerProduct(a, b) is the parity of the number of ones in a AND b, for all a, b >= 0. sboxNonlinearity returns the minimum and maximum nonlinearity over all non-zero output masks of an S-box.",
 I,"all binary sequences of length 2^k and all S-boxes with 2^k entries",
 "No test covers the analysis package.",
 ["analysis/walshtransform.py","analysis/sbox_nonlinearity.py"],[("walshTransform, nonLinearity, binaryInnerProduct, log2n, sboxNonlinearity","analysis/*.py")],["walshTransform","nonLinearity","sboxNonlinearity","log2n"])
p("C31","Rabin-Miller and Fermat rounds classify correctly; prime table is complete",
 "rabin_miller(n, a) returns 1 for every odd prime n and every a in 1..n-1, and for odd composite n returns 1 exactly when a is a strong liar for n; test integers outside 1..n-1 are rejected. fermat_little_test(p, a) returns 1 exactly when a^(p-1) is 1 modulo p. The table of primes to 5000 holds exactly those primes in order.",
 I,"all odd n and all bases a, from tiny to cryptographic size, with Carmichael numbers and numbers with n-1 divisible by high powers of two",
 "The tests use 20 primes and 20 composites of six digits with small bases.",
 ["fmath/prime.py","fmath/primes_to_5k.py"],[("rabin_miller, fermat_little_test","fmath/prime.py"),("primes_to_5k","fmath/primes_to_5k.py")],["rabin_miller","fermat_little_test","primes_to_5k"])
p("C32","Calls made at the same time do not disturb each other",
 "When several threads of one program call functions of the library, or use objects of their own, at the same time, every call returns exactly what it returns when it is made alone: no function keeps intermediate results where a concurrent call of the same or another function can overwrite or read them, and objects (ciphers, MACs, hashes, mixers, curve points, field elements) not shared between threads do not influence each other. Curve and field objects, which calls only read, may be shared.",
 ["schedules","inputs"],"all pairs and groups of calls on values and objects that are not shared, and all interleavings of the threads that make them",
 "All tests run one call at a time; intermediate results kept in module or class variables are right in every sequential run.",
 ["cipher/chacha_poly.py","cipher/aes_cmac.py","cipher/aes_siv.py","cipher/encoding.py","ecc/ecc.py","ecc/ellipticcurve.py","ecc/numbertheory.py","fmath/galoisfield.py","hash/hmac.py","hash/pbkdf2.py","hash/michael.py","hash/tkip_key_mixing.py","analysis/walshtransform.py"],
 [("local variables and attributes of the object in use hold all intermediate results","all modules")],["every public function and method"],
 [dict(name="module and class variables",meaning="constant tables only; nothing a call writes",where="all modules")])
p("C33","Imports and calls have no effect beyond their results",
 "A call returns the same whichever of the library's modules were imported before it, in whatever order and state of first use, and whichever other calls were made before on other objects. Importing modules and making calls prints nothing and changes nothing that belongs to the process: built-in functions and standard modules, the state of the random module, the recursion limit, the decimal context, the environment, the working directory and the search path stay as they were, and no file is opened for writing. Lists and dictionaries given as arguments are left as they were, except by polynomial_reduce_mod, quarter_round and inner_block, which work in place.",
 H,"all import orders of all modules and all sequences of calls of the public functions and classes",
 "Every test module imports the library in one order and runs by itself; what a call leaves behind is not looked at.",
 ["cipher/chacha_poly.py","ecc/ecc.py","ecc/ellipticcurve.py","ecc/numbertheory.py","fmath/galoisfield.py","fmath/pi.py","hash/hmac.py","hash/prf_dot11.py","hash/tkip_key_mixing.py","analysis/permutation.py"],
 [("module level code and module level names","all modules"),("imports inside functions","ecc/ellipticcurve.py")],["all public functions and classes","sys.stdout","sys.modules"])
p("C34","Private keys made by curves are fresh, in range and usable",
 "new_private_key of every short Weierstrass and Koblitz curve, published or user-defined, returns an integer in 0..256^s-1, s being the curve's coordinate size. Keys are independent: over repeated calls on one or several curve objects they do not repeat (for coordinates of at least 8 octets), every bit below the bit length of n takes both values, and no octet determines another. With keys a and b of two parties, a*(b*G) and b*(a*G) are the same point of the curve, (a*b mod n)*G.",
 H,"all short Weierstrass and Koblitz curves, any number of curve objects and calls",
 "No running test makes a key.",
 ["ecc/ecc.py"],[("new_private_key","SmallWeierstrassCurveFp")],["SmallWeierstrassCurveFp.new_private_key"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); print(x['id'],len(x['title']))
