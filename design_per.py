PER = {
"C01": "Inductive step contract: a stored session in *any* phase with *arbitrary* (symbolic) declared totals and counters up to 2^20 receives each of the nine message kinds; post: refused with a bare Failure and the session destroyed, or exactly the prescribed phase/counter change. With `init` as base case (`restart`, from every phase) and `rejected` this covers every history. `matrix`: at every point of genuine sessions every other genuine message is refused. `offload`: the host-made range proofs for all positions in seven groupings.",
"C02": "`pin` and `sign`: a session with *any* number of inputs (symbolic, up to 2^20) at *any* position receives the genuine message of that position (accepted, hashed into the prefix, ring signature re-verified by an independent equation) or one of 19/29 adversarial variations (tag of another index, other session, other purpose, any field of the source entry changed, sealed secrets of another position/purpose, exchanged, random): always refused. `permutation`: accepted iff a bijection. `histories`: all permutations × all pinning and signing sequences for genuine sessions.",
"C03": "Step contracts with arbitrary totals (up to 2^70), any number of inputs/outputs (symbolic up to 2^20) and amounts up to 2^64-1: `announced` (counts the amount, pseudo output opens to it under the sealed mask, masks added), `processed` (counts the amount, commitment opens to it under the counted mask), `closed` (closed iff fee = in - out, reported fee), `signed` (pseudo output commits to the amount; correction of the last one; refused iff sums differ at the end), `masks` (client 0, 1..16 outputs), `announced_fee` (fee shown = fee hashed). Together an inductive argument for all transactions; `balance` states it for whole sessions, `refused` for a lying host.",
"C04": "`bound`: any number of outputs (symbolic up to 2^20), any position: the destination with the tag of exactly this position is processed — one-time key, commitment, encrypted amount, counters, hashed output and what is kept for the range proof are checked against independent equations — and 13 adversarial variations are refused. `change`/`approved`/`grouping`: initialisation with arbitrary amounts, change addresses (ours, other account, other wallet, one key only, swapped, missing) and arbitrary integer group lists. `ranged`/`offloaded`: whole sessions in all groupings, device-made or host-made proofs, including replayed, foreign, damaged, early, doubled and missing proofs.",
"C05": "Symbolic wallet keys and amounts: the receiver side (`is_out_to_account`, `generate_key_image_ex`, amount/mask decoding) recovers what the sender side made, for primary, subaddress and additional-key outputs; algebraic mode.",
"C06": "`distinct`: for all 45 pairs of purposes and *all* pairs of indices up to 2^32: equal exactly for equal purpose and index (ideal hash). `secret`, `session`: every key depends on all of the session secret; the session secret on fresh randomness, ephemeral key and transaction data; authentication and encryption secrets differ. `exchanged`: every tag and ciphertext consumer (pinning, signing, outputs) with any number of items at any position gets the right content under the key of every purpose and every index: accepted exactly for its own.",
"C07": "`session`: a genuine session is recorded message by message (stored after each) and replayed with the same randomness on a device that keeps the session in memory, stores it at one single point, alternately, or stores/loads twice: every field of every answer is equal (all values symbolic). `roundtrip`: builder with *arbitrary* contents of every attribute (bytes, numbers, scalars, points, lists, None, False) in each phase and any hasher state: state_save/state_load reproduces every attribute and all three hash contexts. `holder`: another device object continues from the stored session.",
"C08": "MLSAG prover/verifier: completeness for every ring size in the stated variants with all values symbolic, and soundness-type lemmas: the challenge chain hashes message, every ring key, every L/R, key image; altering any of them changes the equation (ideal hash).",
"C09": "The definition of the scheme is `contracts/bpref.py`: challenges (every element enters the transcript), the polynomial and the inner-product equation as group elements, a reference prover, all over the reference algebra. `decides`, `batch`: proofs made of arbitrary elements whose A and T1 are solved so that the equations evaluate to chosen group elements; the verifier accepts exactly when every equation of every proof of the batch vanishes (1–16 amounts; exact, both code paths of the single-proof optimisation), violations do not cancel between equations or proofs. `malformed`: unreduced scalars and lists of other lengths are refused alone and in batches. `proves`: the real prover, end to end, for arbitrary bits of the amounts, masks and randomness (one amount: all values; two: thorough): both equations hold for the proof, 8V is the commitment, the verifier accepts. For larger aggregates the argument is split: `head` (up to the inner-product argument: t=<l,r>, the vectors open the commitments, challenges; up to 16 amounts, all bits symbolic) and `rounds` (loop invariant of the inner-product argument for arbitrary vectors at the start of every round; up to 1024 elements), both with auxiliary contracts on the internal split, so an alarm of theirs alone is never a violation. `bits`: selection of the bits by `_e_xL`, for all amounts, which the other contracts assume. `wrappers`: ring_ct entry points. `whole` (bounded): the compiled backend with 1–16 edge amounts, checked with reference equations and tampered proofs. Hashes are opaque in the proofs (generic challenges; a zero challenge is not considered).",
"C10": "The real builder is driven by the real host-side client (`BulletproofClient.compute_bp`) through a messenger that makes a new builder for each step and passes the state through `dump_state`/`load_state` after all steps, none, or patterns of them. `stepwise`: for arbitrary bits of the amounts, masks, generator output and blinds, in all four methods and a matrix of chunk sizes and thresholds, for one and two amounts (four: thorough), the proof put together equals the proof of the direct prover (whose contract is C09) in every field; and every scalar or point handed to the host is a sum of terms each carrying a mask (an output of `random_scalar`) that does not occur in the data of the same request; the challenge y is the only exception. `first_sum`: the first commitment computed by the host. `configurations` (bounded): the compiled backend with random configurations up to 4 amounts (thorough 16), dumps at random places; `runner` (bounded): the runner that comes with the client.",
"C11": "Borromean/legacy range proofs and single-key signatures, all scalars symbolic.",
"C12": "Field and curve formulas of ec_py as polynomial identities over GF(q), add/double/scalarmult with loop invariants; native backend assumed, cross-checked bounded.",
"C13": "Scalar arithmetic and encodings for all 32-byte strings / all integers.",
"C14": "keccak-f permutation bit-exact against an independent specification in XOR/AND normal form; sponge: absorbing in any split equals absorbing at once (cut loops).",
"C15": "base58 blocks for every value; addresses for all keys, networks, payment ids; refusal of overflow, wrong length, checksum.",
"C16": "`schema`: every one of the message classes: all fields set (nested up to depth 2, symbolic byte strings and numbers), none, each alone, all but one: equal to an independent encoder, counted right, read back equal with both readers. `field`: one field of every type and number size, single or repeated (0..5), between other fields; every truncation of the encoding is refused unless it ends at a field boundary. `varint`, `varint_input`, `zigzag`: number codecs for every number up to 2^70 and every input. `unknown`, `wrong_kind`, `limited`: foreign fields at every position and depth, all wire kinds, embedded lengths. Truncation lengths of byte strings are the listed ones (0..300), contents arbitrary.",
"C17": "`stream`, `wallet_blob`, `aead`, `gcm`, `cbc`: for every key, nonce, associated data and plaintext (contents arbitrary, 12 lengths from 0 to 200) the real wrappers open what they sealed, with both byte types, packed and unpacked, with a fresh nonce. `wallet_tampered`, `aead_tampered`: one byte changed by an arbitrary difference at first/middle/last positions of each part, parts of other messages, other keys, missing/added associated data, cut and extended: always refused. The ciphers of the libraries are ideal (assumed contracts: keystream as an uninterpreted function, AEAD opens exactly what was sealed); the wrappers and the EC signature of wallet blobs are proved. `wallet_not_reduced` is bounded.",
"C18": "`step`, `final`, `init`: one message to a device with *arbitrary* announced number, number done (symbolic up to 2^32), hash state and key: records are counted, hashed in order and sealed (image and signature checked by an independent equation), or everything is refused and the object dropped; the key is disclosed exactly if all were done and the hash is the announced one; the announcement resets everything with a fresh key after consent. Base case and step give every history; `histories` repeats it for 67 message sequences. `record_hash`, `field_bounds`: equal hashes only for equal records. `listed`, `disturbed`, `commitment`: the real host against the real device for lists of 0..23 outputs, and every kind of disturbance.",
"C19": "Account/subaddress derivations, algebraic mode, all indices.",
"C20": "tx extra parse/serialise for all payload bytes with the stated field sequences.",
"C21": "`table`: the word list is injective, also in its three-letter prefixes, so word and index determine each other. `coded`: for every byte string of the listed lengths the words are the defined ones and their values are the values of the bytes; `decoded`: every list of 3k words is refused or gives the 4k bytes of these values; `inverse` is the lemma joining both to the round trip. `checksum`, `checked`, `appended`: for every word list the checksum word is the one at the defined position (CRC32 of the prefixes is an uninterpreted function here), exactly it is accepted, and encoding appends it. `malformed`: other lengths, unknown words. `keys`: for every seed (any of 2^256 values, reduced or not) the account keys are the ones of an independent definition. `master` (bounded): BIP32/SLIP-10/BIP39 paths to the account secret against an independent re-implementation.",
"C22": "`defined`: for every private node (symbolic scalar, chain code, depth, fingerprint, other attributes) and every index the child is the one of BIP32; `agree`: public derivation from the public copy equals the public copy of the private child; `twice`: requests on one parent do not influence each other (frame: the parent is unchanged), `cached`: memoization is transparent for every sequence of calls, `histories` (bounded): whole sequences. `serialized`, `keys`, `wif`, `cracked`, `slip10`, `master`: the stated round trips and refusals with arbitrary contents. Points of the ecdsa dependency are k*G in an abstract group of prime order (stand-in `pyvc/secp.py`, assumption: the dependency implements secp256k1); HMAC and hashes are uninterpreted. `packed`, `unpacked`: bit packing for every seed of n bytes (all n to 40, 64, ...) and every list of k indices, z3. `b58_text`: base 58 for every byte string up to the listed lengths; `b58_check`, `texts`, `paths`, `wallets`, `words` bounded.",
"C23": "`sizes_any`: loop invariant and termination of the group generator for *any* number of outputs up to 2^40 and every type; `sizes`: every number below 640 by evaluation. `position_any`: loop invariant for *any* number of groups of *any* positive sizes (prefix sums as an uninterpreted increasing function): the group found contains the output, closing iff last; `position`: six symbolic sizes. `accepted`: the device accepts a list of arbitrary integers iff it covers the outputs. `walk`: the real host bookkeeping in the three proof modes against the device functions, output by output, with symbolic amounts and masks.",
"C24": "`order`: every step of the accumulator from every state with *arbitrary* earlier contents — accepted exactly in the defined order, appending exactly its bytes; with `stream` (every operation of the streaming hasher on arbitrary earlier contents) this is the induction over any number of inputs, outputs and proofs. `accumulated`: four signature types, fees up to 2^64-1, proofs arriving before/with/after the outputs, stored in between: accumulator = one-step hash = independent definition. `vini_step`, `output_step`, `close_step`: the device steps with arbitrary counters and arbitrary hasher contents. `sessions`: whole host/device sessions with payment ids, unlock times, additional keys against an independent serialization.",
"C25": "`numbers`, `tag_length`, `length_input`, `buffers`: exact contracts of the insert and fetch primitives for every value and offset (z3), including refusal of truncated input. `command`: every one of the commands on arbitrary symbolic arguments over these contracts: the response is an independently written function of the arguments, secrets appear only under the session encryption (XOR with a pad of an uninterpreted hash), every truncated and every foreign command is refused. `keys`, `blinding`, `session`, `transaction`, `foreign`: account keys, blind/unblind inverse and binding, key pairs, the complete output/prehash/sign sequence with arbitrary values, with every single deviation refused. The firmware modules the protocol imports (`apps`) are stand-ins with symbolic account keys.",
"C26": "`derivation`, `separated`: for every spend key, prefix hash, salt and multiplier the sealing key is the defined one (independent reading) and each of the four inputs counts. `sealed`: a device in the signed phase with arbitrary keys and 0..16 additional keys: the final message opens, with spend key, prefix hash, salt and multiplier, to exactly the keys; a wrong one of each, the view key and a modified blob do not (authenticated cipher assumed ideal). `exported`, `refreshed`: the host side with a device that seals under the view key: exact keys or derivations for 1..17 keys, refusals for wrong keys, salts, lengths, failures and bad signatures. `whole`: complete sessions: the recovered secrets belong to the published keys.",
"C27": "Real host agent against the real device code, all values symbolic; the finished transaction is read by an independent verifier.",
"C28": "Exact contracts of the helper functions with loop invariants where iteration counts vary.",
"C29": "Every operation of the crypto interface is run on both backends over the same abstract operands: the Python backend on its real source over the reference algebra, the native wrapper on its real source with the functions of the native library replaced by contracts in `pyvc/tcry.py`; equal results, equal refusals, operands left untouched, in-place variants into new, foreign and aliasing destinations. Byte-level behaviour (decoding at offsets, short buffers, varied integer types) is decided for all byte values. The contracts assumed of the native library are themselves checked against the compiled library by bounded runs (`lib` contracts), including aliasing of destination and operands.",
"C30": "Each generated input is checked for all seeds, amounts, accounts and indices: its output key is the one derived for the (sub)address, the commitment of the real ring member opens to amount and mask, the transaction extra carries the key, positions agree; destinations and change (remainder, position, also after shuffling) likewise; the random generator is replaced by its contract (any value in range). `whole` (bounded): sets from the real generator are serialised, read back, described and every input is checked with the reference key derivation.",
"C31": "`outputs`, `outputs_v4`, `unsigned`, `signed`: messages of every shape within the listed list lengths with arbitrary symbolic blobs and edge numbers are written by the real code (with the real boost archive of the installed serializer executed symbolically) and read back equal; wrong header, key, every truncation length class and body modifications are refused (ideal Schnorr signature of the file). `key_file` (bounded): JSON key files with arbitrary key bytes, settings and passwords, since json/base64 C code is outside the symbolic reach; `amounts` (bounded): division by 10^12 against exact rational arithmetic.",
}
