"""The properties: the one source of properties.jsonl and of the checks in MANIFEST.json."""
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), level_note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(),
                  mechanism=mechanism, state=list(state), level_note=level_note))


prop("C01", "Any t distinct shares recover the shared secret; fewer are refused",
     "Splitting a secret with threshold t and recombining any t or more shares with distinct indices, in any order, with absent entries or repetitions among them, "
     "yields the secret (from private shares), the public commitment of the secret (from public shares), or the complete private or public polynomial. "
     "Fewer than t distinct shares are answered with an error, never with a value or a panic.",
     "inputs configurations", "every secret, threshold t, number of shares n >= t, polynomial, and list of shares (any subset, order, repetition, absent entries)",
     "the tests recover from one full list, one list with two entries removed, and one too-short list at fixed n, t; neither other subsets, orders, repetitions nor the indices far apart are reached",
     "src/share/poly.rs", "Lagrange interpolation in recover_secret, recover_commit, recover_pri_poly, recover_pub_poly over the t smallest indices collected by xy_scalar/xy_commit")
prop("C02", "Secret and public polynomials commute with commitment, addition and evaluation",
     "Committing to a secret polynomial commutes with evaluating, adding and multiplying: the public evaluation at an index is the base multiplied by the private one, sums and products are those of the coefficients, and a share is accepted against a public polynomial exactly when it is the one at its index. "
     "Shares are the values at abscissa index+1, the secret is the constant coefficient, two polynomials are equal exactly when all coefficients are, and polynomials that cannot be added (different thresholds) are refused.",
     "inputs programs", "every sequence of polynomial operations over every threshold, base point, index and scalar, including the extreme scalars",
     "the tests add, multiply and check a handful of random polynomials of equal size with random bases; unequal sizes, chains of operations and wrong shares at particular indices are not reached",
     "src/share/poly.rs", "PriPoly::{eval,shares,add,mul,commit,equal,secret}, PubPoly::{eval,shares,add,check,equal,commit}")
prop("C03", "Pedersen VSS: a verifier approves a deal exactly when it is consistent",
     "A verifier answers a readable deal meant for it with an approval if the deal's share matches the commitments, its threshold is admissible and the one expected, there are as many commitments as the threshold, and it names the session of exactly these dealer, verifiers, commitments and threshold; otherwise with a complaint; and it processes no second deal. "
     "An honest dealer's deals are always approved, its session names those parties, and any t handed-out deals of a session recover its secret while fewer, or deals of different sessions, are refused.",
     "inputs histories fault_sequences", "every number of verifiers and threshold, every deal content (any field changed, consistent or not), every order of messages",
     "the tests tamper with a few fields one at a time for one fixed configuration, and never with consistent but foreign sharings or commitments of the wrong number",
     "src/share/vss/pedersen/vss.rs", "new_dealer, Verifier::process_encrypted_deal, Aggregator::verify_deal, session_id, recover_secret")
prop("C04", "Pedersen VSS: a deal is certified exactly when responses warrant it",
     "A participant hands out its deal (a dealer its secret's commitment) exactly when at least t verifiers approve, no complaint is open, no bad justification was seen, and nobody is missing, or, after a timeout, no more than n-t are; so whatever is handed out verifies, and all deals handed out belong to one session when quorums intersect. "
     "A response counts once, only under its verifier's signature and for this session; a complaint is cleared only by a justification revealing that verifier's own valid deal, which then replaces the bad one; any other justification of an open complaint condemns the dealer for good.",
     "schedules histories fault_sequences", "every interleaving of deals, responses, justifications and timeouts, with up to f verifiers and the dealer sending anything they can sign, for every n and t",
     "the tests follow one schedule per situation; out-of-order, repeated and contradictory messages, and justifications for another verifier's deal are not reached",
     "src/share/vss/pedersen/vss.rs", "Aggregator::{verify_response, verify_justification, add_response, deal_certified}, Dealer::process_response, set_timeout, Verifier::deal, Dealer::secret_commit")
prop("C05", "Rabin VSS: a verifier approves a deal exactly when it is consistent",
     "A verifier answers a readable deal meant for it with an approval if secret share and blinding share carry the same index and together match the commitments, the threshold is admissible with as many commitments, and it names the session of exactly these dealer, verifiers, commitments and threshold; otherwise with a complaint; and it processes no second deal. "
     "An honest dealer's deals are always approved, and any t handed-out deals of a session recover its secret while fewer, or deals of different sessions, are refused.",
     "inputs histories fault_sequences", "every number of verifiers and threshold, every deal content (any field changed, consistent or not), every order of messages",
     "the tests tamper with a few fields one at a time for one fixed configuration, and never with consistent but foreign sharings or commitments of the wrong number",
     "src/share/vss/rabin/vss.rs", "new_dealer, derive_h, Verifier::process_encrypted_deal, Aggregator::verify_deal, session_id, recover_secret")
prop("C06", "Rabin VSS: a deal is certified exactly when responses warrant it",
     "A participant hands out its deal (a dealer the commitments to its secret polynomial) exactly when it knows a verdict of every verifier, where a timeout turns silence into complaints, at least t of them are approvals, and no bad justification was seen. "
     "A response counts once, only under its verifier's signature and for this session, and never before the session is known; a complaint is cleared only by a justification revealing that verifier's own valid deal, which then replaces the bad one; any other justification of an open complaint condemns the dealer for good.",
     "schedules histories fault_sequences", "every interleaving of deals, responses, justifications and timeouts, with up to f verifiers and the dealer sending anything they can sign, for every n and t",
     "the tests follow one schedule per situation; out-of-order, repeated and contradictory messages, and justifications for another verifier's deal are not reached",
     "src/share/vss/rabin/vss.rs", "Aggregator::{verify_response, verify_justification, add_response, enough_approvals, deal_certified, clean_verifiers}, Dealer::process_response, Verifier::deal, Dealer::secret_commit")
prop("C07", "VSS deals travel encrypted and authenticated for their recipient only",
     "In both schemes, an encrypted deal is the deal of that index sealed with AES-256-GCM under a key derived from a fresh Diffie-Hellman exchange with its recipient and bound to the dealer and the verifier list, the ephemeral key signed by the dealer. "
     "A verifier opens exactly these: a changed ciphertext, nonce, ephemeral key or signature, a signature of anybody else, a deal for another recipient or another index, or undecodable content is an error that leaves it unaffected.",
     "inputs fault_sequences", "every deal, recipient and modification of an encrypted deal (bit flips, truncation, extension, substitution, foreign signatures, garbage content)",
     "the tests corrupt the signature and the key exchange once each; they neither recompute the ciphertext independently nor try other corruptions",
     "src/share/vss/pedersen/vss.rs src/share/vss/rabin/vss.rs src/dh/dh_impl.rs", "encrypted_deal, decrypt_deal, context, AEAD, hkdf")
prop("C08", "Pedersen DKG: all nodes end with shares of one key, as the qualified sum",
     "A node obtains its key share exactly when at least the threshold of dealers are certified in its eyes and it holds their deals; the public polynomial and the share are then the sums of those dealers' commitments and shares. "
     "So nodes that qualify the same sharings hold valid shares of one public polynomial of degree t-1, any t of which give the secret of its public key; and when all participants are honest and all messages arrive, in whatever order, everybody ends with the same key.",
     "schedules histories fault_sequences", "every number of nodes and threshold, every order of deals, responses, justifications and timeouts, with some nodes dealing inconsistently, staying silent, or sending anything they can sign",
     "the tests run one full honest exchange in one order, one with a fixed complaint, and one timeout with a fixed absentee",
     "src/share/dkg/pedersen/dkg.rs", "DistKeyGenerator::{deals, process_deal, qual, threshold_certified, dist_key_share, dkg_key}")
prop("C09", "Resharing hands the same key to the new group, even with faulty dealers",
     "When holders of a distributed key reshare it to a new group, of any size, threshold and overlap with the old one, every share obtained is a valid share of a polynomial whose public key is the old one, and any t' of the new shares recover it. "
     "A dealer whose sharing does not start from its own share of the old key (as the old public polynomial tells) is never counted as approved by an honest new node, nor redeemed by a justification; and honest complete runs give every new node a share.",
     "schedules histories fault_sequences configurations", "every old and new group and threshold (disjoint, overlapping, growing, shrinking), every order of messages, with some dealers resharing something else or staying silent",
     "the tests reshare to the same group, to one more, one less and one disjoint group at fixed sizes, with honest dealers or a single fixed fault",
     "src/share/dkg/pedersen/dkg.rs", "new_dist_key_handler, process_deal, process_justification, resharing_key")
prop("C10", "Pedersen DKG: messages count only if authentic, and in the right session",
     "A generator is created exactly for a consistent configuration (own key listed, admissible threshold, no duplicates, old group and threshold given for a resharing) and deals what its secret and session demand, encrypted to each participant and signed. "
     "A deal counts only if it is signed by the dealer it names, opens, and is this node's; a response only under the verifier's signature and for that dealer's session where the node knows it; an accepted complaint about the node's own deal makes it publish that deal; a justification must match the complaint; anything else is answered with an error. "
     "Which dealers are qualified, whether all or the threshold are certified, and which holders count follow from the accepted messages alone.",
     "schedules histories fault_sequences configurations", "every configuration and every sequence of messages, authentic or not (wrong index, signer, session, recipient; repeated; before the deal; after a timeout)",
     "the tests corrupt one message at a time for one configuration and observe the qualified set only at the end",
     "src/share/dkg/pedersen/dkg.rs src/share/vss/pedersen/vss.rs", "new_dist_key_handler, deals, process_deal, process_response, process_justification, set_timeout, qual, qualified_shares, certified, threshold_certified")
prop("C11", "Renewing a share with a sharing of zero keeps the public key",
     "Adding a share of a sharing of zero of the same degree and the same index to a share of the key gives the sum of the two shares, valid under the sum of the two public polynomials, and leaves the public key unchanged. "
     "A renewal that is not of zero, is for another index, or is of another degree is refused.",
     "inputs", "every pair of key share and renewal, of any index, degree and constant term",
     "the tests renew one random share by one fresh sharing of the right form, with two wrong ones",
     "src/share/dkg/pedersen/structs.rs", "DistKeyShare::renew")
prop("C12", "Rabin DKG: the qualified dealers follow from the authentic messages",
     "A generator is created exactly with its own key listed and an admissible threshold, and deals consistent, encrypted shares to each participant. "
     "A deal counts once, only if the dealer's, meant for this node, and of the protocol's threshold; a response only under the verifier's signature and for that dealer's session where the node knows it; an accepted complaint about the node's own deal makes it publish that deal; a justification must reveal the complaining verifier's valid deal. "
     "A dealer is qualified exactly when every verifier has answered (a timeout turns silence into complaints), at least t approve, and no justification was bad; the distribution is certified when at least t dealers are qualified.",
     "schedules histories fault_sequences configurations", "every number of nodes and threshold, and every sequence of messages, authentic or not, consistent or not, with timeouts at any time",
     "the tests corrupt one message at a time for one configuration and observe the qualified set at the end of one schedule",
     "src/share/dkg/rabin/dkg.rs src/share/vss/rabin/vss.rs", "new_dist_key_generator, deals, process_deal, process_response, process_justification, set_timeout, qual, is_in_qual, certified")
prop("C13", "Rabin DKG: revealed commitments are checked, and all end with one key",
     "A node reveals the commitments of its secret polynomial once its deal is certified; others accept them only from a qualified dealer, for its session, of the right number and signed, and answer commitments that contradict their share with a complaint showing that deal. A founded, signed complaint with a genuine deal makes a node drop the commitments and publish its share; shares count once per sender, signed and for its own index and this session; t of them reconstruct the dealer's polynomial. "
     "A node has finished, and gets a key, exactly when enough dealers are qualified and all their commitments are there: the sums of commitments and shares; shares lie on the public polynomial, any t of them recover the secret, and honest participants end with the same key even if a qualified dealer reveals wrong commitments.",
     "schedules histories fault_sequences", "every number of nodes and threshold, every order of reveals, complaints and published shares, with dealers revealing commitments that fit none, some or all but one of the shares",
     "the tests go through one complaint and one reconstruction built by hand, and one full honest exchange",
     "src/share/dkg/rabin/dkg.rs", "secret_commits, process_secret_commits, process_complaint_commits, process_reconstruct_commits, finished, dist_key_share")
prop("C14", "DSS: any t authentic partial signatures give the group's signature",
     "A participant's partial signature is its value of the Schnorr response sharing, signed for this session (the two public polynomials). "
     "A collector takes a partial exactly when it names a participant it has none of yet, carries that participant's signature and the session, and lies on the shared polynomials; it never holds two for one participant, its own included, and has enough exactly at t. "
     "With enough it combines them into a valid Schnorr signature of the message under the group's public key, the same whichever participants contributed; with fewer it refuses.",
     "schedules histories fault_sequences", "every number of participants and threshold, every order and repetition of own and foreign partials, and every kind of inauthentic one (index, value, session, signer, message, one-time key)",
     "the tests combine the partials of all seven participants in one order and corrupt one field each once",
     "src/sign/dss/dss_sig.rs", "new_dss, DSS::{partial_sig, process_partial_sig, enough_partial_sig, signature}, verify, hash, session_id")
prop("C15", "Schnorr: exactly the valid signatures verify, and no nonce is used twice",
     "In every group, a signature made with a private key verifies under its public key for its message, and uses a fresh random one-time element. "
     "Verification accepts exactly the byte strings R, s of the right length with s*G = R + H(R, A, message)*A, both points decodable; over Ed25519 it refuses elements of small order and non-canonical encodings of s, R or the key.",
     "inputs", "every private key, message (empty to long) and byte string as signature: changed anywhere, truncated, extended, s raised by the group order, small-order and non-canonical points, other keys and messages",
     "the tests sign random messages and check a few corruptions of one signature, and known malleability vectors of the reference implementation",
     "src/sign/schnorr/schnorr_sig.rs", "sign, verify, verify_with_checks, hash")
prop("C16", "EdDSA: keys, signatures and verification are those of RFC 8032, strictly",
     "From a seed the secret scalar, prefix and public key are those of RFC 8032, a key is written as seed and public key and read back as the same key; a key made of a key pair signs validly under its public key, and has a prefix nobody else has. "
     "Signing gives exactly the signature RFC 8032 prescribes for the key and message, and nothing but 64-byte signatures satisfying the cofactorless equation with canonical s, R and key, neither R nor key of small order, verify.",
     "inputs", "every seed, message and byte string as key or signature: bit flips, wrong lengths, s raised by the group order, small-order points, non-canonical encodings, other keys",
     "the tests compare with recorded vectors of the RFC and a few corruptions; strictness and keys without seed are sampled once or not at all",
     "src/sign/eddsa/eddsa_sig.rs src/group/edwards25519/curve.rs", "EdDSA::{new, sign, unmarshal_binary, marshal_binary}, From<Pair>, verify, verify_with_checks, new_key_and_seed")
prop("C17", "Encryption gives back exactly what was sealed, and refuses everything else",
     "Both sides of a key exchange arrive at the same element, and the key derivation, authenticated encryption and sealed channels made of it are HKDF and AES-256-GCM with the documented key, nonce and associated data. "
     "ECIES encrypts, over every group and under a fresh one-time key each time, to a ciphertext that the private key decrypts to the message. "
     "A ciphertext changed anywhere, truncated, extended, or opened with another key, nonce or associated data is refused with an error, and so are keys and destinations of the wrong length.",
     "inputs", "every key, message (empty to long), associated data, nonce, destination, and byte string as ciphertext",
     "the tests encrypt a few messages and damage one ciphertext in one place; lengths at the boundaries, short ciphertexts and foreign keys are not sampled",
     "src/encrypt/ecies/ecies_impl.rs src/dh/dh_impl.rs", "ecies::{encrypt, decrypt}, dh_exchange, hkdf, AEAD::{seal, open}, encrypt, decrypt, aes_encrypt, aes_decrypt")
prop("C18", "The extendable output function absorbs, then squeezes, byte for byte",
     "What an extendable output function puts out is, from the seed and everything written into it, the BLAKE3 output at the position reached, however it was asked for: in reads of any sizes, by XOR over data, after a clone, or in what a reseed carries on from. "
     "Once output was taken, writing is refused until it is reseeded; clones go their own ways; a destination too short is refused and what lies beyond the data in a longer one is left alone.",
     "programs histories", "every sequence of new, write, read, xor, reseed, clone, flush, with sizes around the block boundaries; all of them up to a depth, generated from the specification",
     "the tests run one sequence per feature; splits of reads across blocks, clones in the middle and writes after reads in other orders are not reached",
     "src/xof/blake3/xof.rs src/xof/traits.rs", "Xof::{read, write, flush, xor_key_stream, reseed, clone}, new")
prop("C19", "Random numbers are uniform in their range; failing sources are noticed",
     "Numbers drawn from a stream are in the range asked for, of exactly the length asked for where that is asked, determined by the stream, and over all streams every one comes up equally often. "
     "A stream mixing several sources depends on each of them, works as long as one of them gives anything, and refuses when none does or the lengths of source and destination differ; what a failing stream gives is never taken for randomness. "
     "A key generation that is given an entropy source of the user's draws its secret from it mixed with fresh randomness, or, where asked to use it alone, from nothing else, and is refused when it runs dry.",
     "inputs fault_sequences", "every bit length, modulus, stream and pattern of failing or exhausted sources; for small ranges every stream",
     "the tests draw a few numbers and mix two healthy readers; uniformity, boundary lengths and failing streams are not observed",
     "src/util/random/random_stream.rs", "bits, random_int, bytes, RandStream::xor_key_stream")
prop("C20", "Ed25519 scalars are exactly the integers modulo the group order",
     "Every scalar operation of every Ed25519 scalar implementation (sum, difference, product, quotient, negation, inverse, constants, conversion from integers and from byte strings of any length, multiply-add) yields the reduced residue modulo the group order, whatever its operands, reduced or not, and whatever the receiver held before. "
     "Scalars are 32 bytes, little-endian; encoding, decoding, streaming, serialisation, hexadecimal, comparison and canonicity agree with the value, exactly 32 bytes are decoded, and picked scalars are in range, nonzero and determined by the stream.",
     "inputs programs", "every sequence of scalar operations over every 32-byte value, including values between the order and 2^256 and at the boundaries of the limbs",
     "the tests compare a few random operations between the implementations and with recorded values; unreduced operands, boundary values, used receivers and chains of operations are not sampled",
     "src/group/edwards25519/scalar.rs src/group/edwards25519/scalar_test_types.rs", "Scalar::{add, sub, mul, div, neg, inv, set_int64, set_bytes, pick, is_canonical, cmp, marshal/unmarshal}, sc_mul_add, sc_add, sc_sub, sc_mul")
prop("C23", "Modular integers are exactly the ring of integers modulo their modulus",
     "For every modulus, every operation on modular integers (sum, difference, product, power with positive and negative exponents, quotient, inverse, Jacobi symbol, square root for odd primes, construction from integers, strings, fractions and bytes) yields the reduced residue, or the documented refusal, whatever the operands and the receiver. "
     "Encodings in either byte order have the modulus' length, decode to the same value, and bytes that are too many, too few or not below the modulus are refused leaving the value as it was.",
     "inputs programs configurations", "every modulus (small ones exhaustively), byte order, operand, exponent and sequence of operations",
     "the tests take a handful of operations modulo a few numbers; negative numbers, short values, composite moduli, byte orders and refusals are mostly not reached",
     "src/group/integer_field/integer.rs", "Int::{add, sub, mul, div, inv, exp, jacobi, sqrt, set_bytes, big_endian, little_endian, marshal_binary, unmarshal_binary, pick, cmp}")
prop("C21", "Ed25519 points are exactly the elements of the curve group",
     "Every point operation (sum, difference, negation, multiples of any point or of the base by any scalar, in constant or variable time) yields the group element it names, for every operand, torsion and mixed points included, whatever the receiver held before. "
     "Equality, order, hash, hexadecimal and encoding depend on the element alone; every decoding, streamed and serialised forms included, accepts exactly points of the curve; the small-order and canonicity checks answer exactly. "
     "Picked points and points carrying data lie in the prime-order subgroup, are determined by the stream, and give the data back.",
     "inputs programs", "every sequence of point operations over every element of the curve and every multiplier below 2^255, every byte string as encoding and every coordinate quadruple as serialised form",
     "the tests use random multiples of the base and recorded vectors; torsion, coordinates at the edges of the limbs, long chains of unnormalised results and forged serialised coordinates are not reached",
     "src/group/edwards25519/point.rs src/group/edwards25519/ge.rs src/group/edwards25519/fe.rs src/group/edwards25519/ge_mult_vartime.rs", "Point::{add, sub, neg, mul, pick, embed, data, eq, cmp, hash, marshal, unmarshal, has_small_order, is_canonical}, ExtendedGroupElement::{set_bytes, write_bytes, is_valid}")
prop("C24", "Key pairs match, are fresh, and keep their private half to themselves",
     "The public key of every new pair is the base multiplied by its private key, which the suite's generator makes or, without one, is picked from the suite's randomness; no two pairs share a key, and a generator or source that fails yields an error. "
     "Ed25519 private keys are those RFC 8032 derives from the seed, so they annihilate every element of small order. "
     "A pair reads back as the same pair however it was written, equals only itself, and never shows the private key when printed.",
     "inputs configurations", "every suite, generator, seed and stream, failing ones included",
     "the tests make one random and one fixed pair; clamping, failing sources, serialisation and printing are not observed",
     "src/util/key/key_pair.rs src/group/edwards25519/curve.rs src/group/edwards25519/suite.rs", "new_key_pair, Pair::{gen, fmt}, Curve::{new_key_and_seed, new_key_and_seed_with_input, new_key}")

prop("C22", "Whatever is written out and read back is what it was, and carries on",
     "Every object of the library that can be stored or sent (polynomials, shares, deals, responses, justifications, secret commits, complaints, partial signatures, keys, and participants of every protocol in the middle of it) reads back as an equal one, in a textual or a binary format. "
     "A participant that is stopped at any point of a protocol and restarted from what it stored carries on as if nothing had happened. "
     "What was cut short is refused when it is read, and what was spoilt is refused or read as something, never with a panic.",
     "histories crash_points", "every point of every generated protocol execution at which a participant is restarted or a message passes through storage, in either format, whole, cut short or spoilt",
     "the tests serialise no participant and no message; a restart in the middle of a protocol is never tried",
     "src/share/vss/pedersen/vss.rs src/share/vss/rabin/vss.rs src/share/dkg/pedersen/dkg.rs src/share/dkg/rabin/dkg.rs src/sign/dss/dss_sig.rs src/share/poly.rs", "Serialize/Deserialize of every type; Point, Scalar, Int serialisation")
prop("C25", "Printing never gives away a secret",
     "What is printed, for display or debugging, of keys, shares, polynomials, deals, justifications, configurations and participants of every protocol, and what errors say, contains no private key, seed, share, or secret coefficient, in hexadecimal, bytes or decimal. "
     "Printing never fails.",
     "inputs histories", "every object and participant in every state the generated executions lead it into, in every formatting",
     "the tests print nothing and look at no output",
     "src/util/key/key_pair.rs src/share/poly.rs src/share/vss/pedersen/vss.rs src/share/vss/rabin/vss.rs src/share/dkg/pedersen/dkg.rs src/share/dkg/rabin/dkg.rs src/sign/eddsa/eddsa_sig.rs src/sign/dss/dss_sig.rs", "Debug and Display of Pair, EdDSA, PriShare, PriPoly, Deal, Dealer, Verifier, Config, DistKeyGenerator, DistKeyShare, DSS")
