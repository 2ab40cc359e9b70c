#!/usr/bin/env python3
"""Writes properties.jsonl (the list is kept here so that it is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))

G = "monero_glue/"
TB = G + "protocol/tsx_sign_builder.py"; TS = G + "protocol/tsx_sign.py"; ST = G + "protocol/tsx_sign_state.py"
AG = G + "agent/agent_lite.py"; MO = G + "xmr/monero.py"; EP = G + "xmr/core/ec_py.py"; RC = G + "xmr/ring_ct.py"

p("C01", "Device signs only after the complete protocol, whatever the host sends",
  "For every sequence of host messages, the signing device moves only along the prescribed phases: initialisation, inputs, permutation, input pinning, outputs, finalisation, signing, final. It produces an input signature only when every declared input has been announced and pinned, every declared output was processed and the transaction was closed. A message that is out of order, repeated or in excess is refused and the session is destroyed without disclosing anything further.",
  ["histories", "inputs"], "every finite sequence of host messages, in any order, with any repetition or omission, for any declared number of inputs and outputs",
  "The tests run the one honest message order; no out-of-order, repeated or excess message is ever sent, and the set of histories is infinite.",
  [ST, TB, TS, G + "hwtoken/token.py", G + "protocol/tsx_sign_state_holder.py"],
  [("phase automaton", ST), ("counters checked against the declared totals", TB), ("session purge on error", TS)],
  ["response or failure returned by the token for each message"],
  [("phase", "current protocol phase", ST), ("input/output counters", "number of processed inputs and outputs", TB)])

p("C02", "Every input that is signed is the input that was announced, exactly once",
  "The inputs fed back to the device for pinning and for signing are accepted only if they carry the authentication tag the device issued for that very input (source entry, serialized prefix input and, where used, pseudo output), at the position given by the sorting permutation. The permutation accepted by the device is a bijection on the announced inputs and key images end up in the required strictly descending order, so each announced input is hashed into the transaction and signed exactly once.",
  ["histories", "inputs"], "every number of inputs, every permutation and every substitution, repetition, reordering or modification of inputs between the phases",
  "Tests use an honest host that replays its own data; no test permutes, repeats or alters an input between two phases.",
  [TB, TS, G + "xmr/sub/tsx_helper.py", G + "xmr/common.py"],
  [("HMAC over source entry and vini with per-index keys", TB), ("permutation acceptance and per-position check", TB), ("hmac helpers", G + "xmr/sub/tsx_helper.py")],
  ["responses to the input, permutation, vini and sign-input messages"],
  [("source permutation", "order in which inputs are pinned", TB)])

p("C03", "The fee is exactly inputs minus outputs and commitments balance",
  "A transaction that the device finishes satisfies: the sum of accepted input amounts equals the sum of output amounts plus the fee it reports, and outputs never exceed inputs. The masks and pseudo-output commitments it produces sum so that pseudo outputs minus output commitments minus fee times the amount generator is the neutral element. Amounts shown to the user are the amounts that are committed to.",
  ["inputs", "histories"], "every number of inputs and outputs, all amounts in the unsigned 64-bit range, all random masks, simple and full signature types, deterministic and random masks",
  "Tests check a handful of recorded transactions with fixed amounts; balance must hold for every amount and mask.",
  [TB, G + "xmr/crypto.py", MO],
  [("running sums of masks and amounts", TB), ("last mask chosen to balance", TB), ("pseudo output construction", TB)],
  ["final serialized RCT signature base, pseudo outputs and output commitments"],
  [("summary input/output money", "running totals", TB), ("mask sums", "running mask sums", TB)])

p("C04", "Outputs processed are those the user approved and all are range-proved",
  "Each output the device blinds and commits to is the destination that was bound at initialisation: same amount, same address, same position, authenticated with a per-position key. Change goes only to an address the device itself owns. Every output commitment of a finished transaction is covered by exactly one range proof that the device produced or verified.",
  ["histories", "inputs"], "every number of outputs, every grouping of range proofs, every substitution of a destination, and every order in which offloaded range-proof parts are or are not delivered",
  "The tests drive honest hosts with the default grouping only; nothing exercises a wrong destination, a foreign change address or a missing range-proof part.",
  [TB, TS, G + "xmr/sub/addr.py"],
  [("per-output HMAC", TB), ("change address check", TB), ("range proof batching state", TB)],
  ["set-output and all-outputs-set responses"],
  [("rsig batch counters", "progress within the grouping", TB)])

p("C05", "The recipient of any output can recognise, open and spend it",
  "For every recipient kind (standard address, subaddress, change, transactions with per-output additional keys) the one-time address that the sender puts on chain is the one the recipient derives from the published transaction keys and its own view key, and the secret the recipient derives is the discrete logarithm of that address. The recipient recovers exactly the amount and mask the sender committed to, in both amount encodings. Nobody's output is attributed to a wrong subaddress index.",
  ["inputs"], "all key pairs, transaction keys, output positions, subaddress indices, amounts in the 64-bit range and masks",
  "Tests hold a few recorded wallets; the agreement must hold for all keys, indices and amounts.",
  [TB, MO, EP, G + "xmr/ring_ct.py", G + "xmr/key_image.py", G + "xmr/crypto.py"],
  [("shared secret derivation", EP), ("one-time key derivation", MO), ("amount and mask encoding", RC)],
  ["transaction public keys and outputs, recovered key, amount and mask"])

p("C06", "Every device secret for a session is derived for one purpose and one index only",
  "All authentication and encryption keys the device derives within one signing session are pairwise distinct for distinct pairs of purpose and index (they are distinct inputs of the key-derivation hash) and depend on the session secret, which is fresh for every session. A tag or ciphertext issued for one purpose or position is never accepted for another.",
  ["inputs"], "all pairs of (purpose, index) in range and all session secrets",
  "Tests never compare derived keys; collision freedom of the encoding is a statement over all pairs of indices.",
  [TB, G + "xmr/sub/tsx_helper.py"],
  [("key derivation from zero-padded discriminator and varint index", TB)],
  ["derived key material used for tags and encryption"])

p("C07", "Signing state survives being stored between any two messages",
  "Storing the signing session after any message and restoring it before the next one yields a session indistinguishable from one that was kept in memory: every subsequent response is identical. Nothing needed later is lost.",
  ["crash_points", "histories"], "every message boundary of every signing session",
  "Tests exercise restoring only along honest runs and cannot show that each field is kept for every configuration.",
  [TB, TS, G + "protocol/tsx_sign_state_holder.py", ST],
  [("state snapshot and restore", TB), ("state holder copies", G + "protocol/tsx_sign_state_holder.py")],
  ["responses of a restored session"])

p("C08", "Ring signatures verify for every ring, secret and message, and bind all of them",
  "The linkable ring signatures (multi-layered and concise variants) generated for any ring size, any position of the real key, any message and any masks are accepted by the verifier, and the published key image is the secret times the hash of its public key. The verifier's acceptance condition is the scheme's closing-hash equation over the message, every ring member, the key image and the commitment offset, so changing any of them is not accepted.",
  ["inputs"], "all ring sizes, real-key positions, secrets, masks, messages and signature randomness",
  "Tests use a few fixed rings; completeness is over all rings and all positions.",
  [G + "xmr/mlsag2.py", RC, G + "xmr/sub/mlsag_hasher.py"],
  [("CLSAG generation and verification", G + "xmr/mlsag2.py"), ("MLSAG generation and verification", G + "xmr/mlsag2.py")],
  ["signature and verification result"])

p("C09", "Bulletproof range proofs are complete and the verifier checks the full equation",
  "A range proof produced for any amounts in the 64-bit range and any masks, for any supported number of aggregated outputs, is accepted by the verifier, and its commitments are the commitments to those amounts. The verifier accepts exactly when the scheme's polynomial and inner-product equations hold for all proofs of a batch, with every proof element entering the challenge transcript.",
  ["inputs"], "all 64-bit amounts, masks and prover randomness, all supported aggregation sizes",
  "Tests prove a handful of amounts; completeness quantifies over all amounts, masks and randomness.",
  [G + "xmr/bulletproof.py", G + "xmr/ring_ct.py"],
  [("prover", G + "xmr/bulletproof.py"), ("batch verifier", G + "xmr/bulletproof.py")],
  ["proof and verification result"])

p("C10", "Memory-offloaded range proving yields the same proof as direct proving",
  "Proving a range proof in small steps with vectors masked, sent to the host and fed back, in any supported step configuration and with the prover state dumped and reloaded between any two steps, yields a proof that the verifier accepts and that equals the directly computed one for the same randomness. A step configuration is a method (0 to 3), a chunk size that is a power of two and at most the length of the vectors, and two thresholds of which the second is at most the first. Everything derived from the secret vectors that is handed to the host is masked by fresh random scalars.",
  ["inputs", "configurations", "crash_points"], "all amounts and masks, all offloading configurations, and a dump and reload between any two steps",
  "Tests run recorded configurations without reloading at every boundary.",
  [G + "xmr/bulletproof.py", G + "xmr/bulletproof_cl.py"],
  [("step-wise prover with masking", G + "xmr/bulletproof.py"), ("host-side helper", G + "xmr/bulletproof_cl.py")],
  ["proof returned by the last step"],
  [("prover state", "values kept between steps", G + "xmr/bulletproof.py")])

p("C11", "Legacy proofs and single-key signatures are complete and bound to their inputs",
  "For every amount in the 64-bit range and every mask the bit-wise range proof verifies and its bit commitments sum to the output commitment. Key-image signatures and plain secret-knowledge signatures verify for every secret, message and (for rings) every ring and position, and the verifiers accept exactly when the recomputed challenge equals the published one.",
  ["inputs"], "all 64-bit amounts, masks, secrets, messages, rings and positions",
  "Tests try a few random values; the statements are over all of them.",
  [RC, G + "trezor_unused/asnl.py", G + "trezor_unused/ring_ct.py", G + "xmr/crypto.py", G + "xmr/key_image.py"],
  [("bit-wise range proof", RC), ("ring signature on key image", RC)],
  ["proof and verification result"])

p("C12", "Curve arithmetic implements the Ed25519 group",
  "On valid points the pure-Python addition, doubling, negation, scalar multiplication, fixed-base multiplication and double-scalar operations compute the Ed25519 group law, for all points including the neutral element and points of small order, and never leave the curve. Point encoding and decoding are inverse to each other on valid encodings, and decoding refuses encodings of values that are not on the curve.",
  ["inputs"], "all curve points, in any projective representation, and all scalars below the group order",
  "Tests compare a few vectors; the group law must hold for all points, including exceptional ones.",
  [G + "xmr/core/backend/ed25519.py", G + "xmr/core/backend/ed25519_2.py", G + "xmr/core/backend/ed25519ietf.py", EP],
  [("extended-coordinate formulas", G + "xmr/core/backend/ed25519_2.py"), ("point codec", G + "xmr/core/backend/ed25519_2.py")],
  ["results of point operations and encodings"])

p("C13", "Scalar arithmetic is arithmetic modulo the group order with canonical encoding",
  "Scalar addition, subtraction, multiplication, fused operations, negation and inversion return the canonical residue modulo the group order for all inputs; encoding yields 32 little-endian bytes and decoding inverts it, reducing any 32-byte string. Limb encodings of scalars and field elements used for interchange decode to the encoded value.",
  ["inputs"], "all integers and all 32-byte strings",
  "Tests sample a few values near nothing in particular; reduction errors appear only on boundary values.",
  [EP, G + "xmr/core/ec_base.py", G + "xmr/core/backend/ed25519.py", G + "xmr/crypto.py"],
  [("scalar class", EP), ("limb codecs", G + "xmr/core/ec_base.py")],
  ["scalars and their encodings"])

p("C14", "Keccak-256 is the reference function regardless of how data arrives",
  "The hash of any byte string equals the original Keccak-256 of that string; feeding it in pieces of any sizes gives the same digest as feeding it at once, and copying a hash object in the middle yields independent continuations. Reading the digest does not disturb further hashing of the object, and the keyed and double variants are defined over it.",
  ["inputs", "histories"], "all byte strings, all ways to split them, all interleavings of update, copy and digest",
  "Tests hash a few vectors; block-boundary splits and copies are not covered for all lengths.",
  [G + "xmr/core/backend/keccak2.py", EP, G + "xmr/sub/keccak_hasher.py"],
  [("sponge", G + "xmr/core/backend/keccak2.py"), ("streaming writer", G + "xmr/sub/keccak_hasher.py")],
  ["digests"])

p("C15", "Addresses and base58 round-trip and malformed text is refused",
  "Encoding any byte string to Monero base58 and decoding returns it, distinct texts never decode to the same bytes, and text that is not an encoding (wrong length, foreign character, block value too large) is refused. Every address (standard, integrated, subaddress, any network) decodes to the keys, payment id and kind it was built from, and an address with a wrong checksum is refused.",
  ["inputs"], "all byte strings, all texts, all key pairs, payment ids and network types",
  "Tests check a few addresses; injectivity and refusal are over all texts.",
  [G + "misc/b58_mnr.py", G + "misc/b58.py", G + "xmr/sub/addr.py", G + "xmr/sub/xmr_net.py"],
  [("block codec", G + "misc/b58_mnr.py"), ("address codec", G + "xmr/sub/addr.py")],
  ["encoded and decoded values, errors"])

p("C16", "Wire messages round-trip and truncated or foreign input is not misread",
  "Every protocol message, with any field values, any subset of optional fields set, any repeated and nested content, serializes to bytes that parse back to an equal message; unknown fields are skipped without disturbing the others. Input that ends inside a field (of the message or of an embedded one) is refused and never completed with invented bytes; an input ending at a field boundary holds exactly the fields before it. A known field of the wrong kind is refused. The sizes the size counter reports equal the bytes written.",
  ["inputs"], "all message types and field values, all truncation points, all unknown fields",
  "Tests round-trip whatever the recorded transactions contain; boundary integers, truncation and unknown fields are not exercised.",
  [G + "protobuf.py", G + "xmr/size_counter.py", G + "hwtoken/misc.py", G + "protocol_base/messages.py"],
  [("varint and zigzag codec", G + "protobuf.py"), ("message reader and writer", G + "protobuf.py")],
  ["bytes and parsed messages"])

p("C17", "Encryption helpers invert exactly and tampering is detected",
  "Decrypting what was encrypted under the same key returns the plaintext, for every key, nonce and plaintext, for wallet files, exchanged transaction sets and device blobs. For the authenticated variants any change to the ciphertext, nonce, tag or key makes decryption fail, and nothing is returned. Each encryption draws a fresh nonce (the CBC helper, which leaves the vector to the caller, excepted).",
  ["inputs"], "all keys, nonces, plaintexts of every length including empty, and all modifications",
  "Tests encrypt one or two buffers and never tamper.",
  [G + "xmr/enc/chacha.py", G + "xmr/enc/chacha_poly.py", G + "xmr/enc/aesgcm.py", G + "xmr/enc/aescbc.py", G + "xmr/wallet.py"],
  [("stream and AEAD wrappers", G + "xmr/enc/chacha_poly.py"), ("signed wallet blobs", G + "xmr/enc/chacha.py")],
  ["plaintexts, ciphertexts and errors"])

p("C18", "Key-image export releases keys only for the committed set of outputs",
  "The device exports encrypted key images only for outputs belonging to the announced list: it discloses the decryption key only after exactly the announced number of outputs was processed and their running hash equals the announced commitment. Each exported record decrypts on the host to the key image of its output together with a signature that verifies, in the order of the list, for lists of every length.",
  ["histories", "inputs"], "every list of outputs of every length, every batching, and every deviating sequence of messages",
  "Tests sync one list of one size with one honest order.",
  [G + "protocol/key_image_sync.py", AG, G + "xmr/key_image.py", G + "hwtoken/token.py", G + "xmr/common.py"],
  [("commitment and count checks", G + "protocol/key_image_sync.py"), ("batching on the host", AG)],
  ["sync responses and decrypted records"],
  [("running hash and counters", "progress of the export", G + "protocol/key_image_sync.py")])

p("C19", "Account and subaddress keys are consistent between public and secret sides",
  "For every account and index the public subaddress keys computed from public data equal the generator times the secret keys computed from secret data; index (0,0) is the primary account itself. The lookup table built for a set of indices maps each spend key to exactly its own index, and address objects report the address of the index they name.",
  ["inputs"], "all view and spend secrets and all pairs of 32-bit indices",
  "Tests check a few indices of fixed wallets.",
  [MO, EP, G + "xmr/sub/creds.py", G + "xmr/sub/addr.py"],
  [("subaddress secret", EP), ("subaddress keys and table", MO)],
  ["keys, addresses and table entries"])

p("C20", "Transaction extra data and payment ids round-trip",
  "Transaction public keys, additional keys and payment ids written to the extra field are read back unchanged, whatever combination and order of fields is present, and encrypting a short payment id twice under the same shared secret restores it. Ring member offsets convert between absolute and relative form without loss and the relative form never goes negative for sorted input.",
  ["inputs"], "all field combinations, all payment ids, all keys and all sorted offset lists",
  "Tests parse recorded extras only.",
  [MO, G + "xmr/sub/tsx_helper.py", TB],
  [("extra parser and builder", G + "xmr/sub/tsx_helper.py"), ("offset conversion", MO)],
  ["extra bytes, parsed fields, offsets"])

p("C21", "Seed words encode the seed faithfully and detect corruption",
  "Encoding any 32-byte secret to words and decoding the words returns the secret; of a Monero word list with a checksum word (3k+1 words) exactly the lists whose checksum word matches are accepted, and lists of another length or with unknown words are refused. The account keys derived from a mnemonic, a master seed or a secret are the ones the scheme defines: the view secret is determined by the spend secret and public keys match the secret ones.",
  ["inputs"], "all secrets and all word lists",
  "Tests derive a few known wallets and never decode words.",
  [G + "xmr/core/mnemonic.py", G + "xmr/sub/seed.py", G + "xmr/sub/creds.py"],
  [("word codec", G + "xmr/core/mnemonic.py"), ("seed derivation", G + "xmr/sub/seed.py")],
  ["words, secrets and addresses"])

p("C22", "Hierarchical derivation is consistent and deterministic",
  "Deriving a child key depends only on the parent, the index and the hardened flag, in any order of requests; for non-hardened children the public derivation from the public parent gives the public key of the privately derived child. A serialized extended key deserializes to an equal node, and packing the bits of a non-empty seed into word indices and back is lossless (the last index is padded with zero bits). Exponents that are zero or not below the group order, which no known seed gives, are left out.",
  ["inputs", "histories"], "all seeds, paths and indices, all orders of derivation requests",
  "Tests derive four fixed paths, each from a fresh object.",
  [G + "misc/bip/bip32.py", G + "misc/bip/keys.py", G + "misc/bip/utils.py", G + "misc/b58.py"],
  [("child derivation", G + "misc/bip/bip32.py"), ("bit packing", G + "misc/bip/bip32.py")],
  ["derived keys and serializations"])

p("C23", "Output grouping for range proofs always covers each output exactly once",
  "For every number of outputs and every proof type the host splits the outputs into consecutive non-empty groups that cover each output exactly once, with at most the supported number of outputs per group and with the sizes the aggregated proof admits. The device and the host agree for every output on which group it belongs to and whether it closes the group.",
  ["inputs", "configurations"], "every number of outputs and every proof type and version",
  "Tests use at most a few output counts.",
  [AG, TB],
  [("batch size generator", AG), ("batch position functions", TB)],
  ["group sizes and the messages that carry range proofs"])

p("C24", "Incremental transaction hashing equals hashing the finished transaction",
  "The message that is signed, which the device accumulates piece by piece while the transaction streams through it, equals the hash a verifier computes from the complete transaction and its proofs, for all numbers of inputs and outputs and all signature types. The prefix hash accumulated by the device equals the hash of the serialized transaction prefix.",
  ["inputs", "configurations"], "all transactions: all numbers of inputs and outputs, fees, pseudo outputs and proof groupings",
  "Tests compare the two on recorded transactions only.",
  [G + "xmr/sub/mlsag_hasher.py", TB, G + "xmr/mlsag2.py", G + "xmr/sub/keccak_hasher.py", MO],
  [("incremental message hasher", G + "xmr/sub/mlsag_hasher.py"), ("prefix hasher", TB)],
  ["hash returned by the device, hash of the final transaction"],
  [("hasher phase", "which part is expected next", G + "xmr/sub/mlsag_hasher.py")])

p("C25", "The compact device protocol encodes and decodes commands without loss or overrun",
  "Every argument placed in a command of the compact (APDU style) device protocol is read back by the device exactly as written, lengths are respected, and a command that is shorter than its declared content is refused. Values the device blinds for the host are restored exactly by the matching unblind operation, and secrets leave the device only encrypted (except the ones the host asks to be exported after the user agreed: the view key of the watch-only export and the key of the wallet cache).",
  ["inputs"], "all arguments and all truncated or oversized commands",
  "Tests contain no run of this protocol.",
  [G + "protocol_lite/lite.py", G + "protocol_lite/consts.py"],
  [("insert and fetch primitives", G + "protocol_lite/lite.py"), ("blind and unblind", G + "protocol_lite/lite.py")],
  ["command buffers and responses"])

p("C26", "The host can recover the transaction keys the device sealed, and nobody else's",
  "Transaction secret keys that the device seals under a key derived from its spend key, the prefix hash and the salts are recovered exactly by the same derivation, for all keys and any number of additional keys; a different prefix hash, salt or key does not open them. The view-key based sealing used for exporting them to the host opens on the host with the view key and yields the original keys.",
  ["inputs"], "all keys, salts, prefix hashes and numbers of additional keys",
  "Tests open the sealed keys of recorded transactions only.",
  [G + "hwtoken/misc.py", TB, AG, G + "xmr/enc/chacha_poly.py"],
  [("seal key derivation", G + "hwtoken/misc.py"), ("host-side derivation", AG)],
  ["sealed blob and recovered keys"])

p("C27", "The host assembles exactly the transaction the device authorised",
  "The signed transaction the host outputs contains, in this order, the inputs sorted and with signatures, pseudo outputs and key images belonging to the same input, the outputs, commitments, encrypted amounts and range proofs the device returned, and the fee and hash the device computed. If the device's results are inconsistent with the assembled prefix, the host refuses. A failure returned by the device at any step aborts the process.",
  ["histories", "inputs", "fault_sequences"], "all numbers of inputs and outputs, all orders of key images, and a device failure or wrong answer at any step",
  "Tests run recorded transactions against an honest device.",
  [AG, G + "xmr/common.py", G + "protocol_base/messages.py"],
  [("result collection and permutation", AG), ("hash and error checks", AG)],
  ["serialized transaction"])

p("C28", "Small data-structure helpers obey their exact contracts",
  "Applying a permutation rearranges in place exactly as the permutation says, checking one accepts exactly bijections, chunking splits a sequence into consecutive pieces that concatenate to it with no empty piece, and the deterministic generator returns the same stream for the same seed however it is reset. Constant-time comparison is equality, and bit splitting of amounts is the binary expansion.",
  ["inputs"], "all permutations, sequences, chunk sizes, seeds, byte strings and 64-bit amounts",
  "Helpers are tested on no or on one example each; the contracts quantify over all arguments.",
  [G + "xmr/common.py", G + "xmr/core/ec.py", G + "compat/utils.py", G + "xmr/sub/recode.py", G + "xmr/sub/recode_ext.py", MO],
  [("permutation helpers", G + "xmr/common.py"), ("chunking", G + "xmr/common.py"), ("deterministic generator", G + "xmr/core/ec.py")],
  ["return values"])

p("C29", "Both crypto backends compute the same functions",
  "For every operation of the crypto interface the native-library backend and the pure-Python backend return equal results for equal inputs and refuse the same inputs, and the in-place variants return what the plain variants return without altering operands they are not meant to alter. Operations are those of the interface that the rest of the code uses (points, scalars, hashes, key derivation, encodings of 32 bytes at an offset, 64-bit amounts and 32-bit indices); field-element helpers and conversions of the representation private to one backend are not part of it. A signing run therefore does not depend on the backend chosen.",
  ["inputs", "configurations"], "all operations and all valid inputs, both backends, plain and in-place variants",
  "Each backend is tested on its own on a few vectors; agreement is over all inputs.",
  [EP, G + "xmr/core/ec_trezor.py", G + "xmr/core/ec.py", G + "xmr/core/ec_conv.py"],
  [("pure-Python backend", EP), ("native backend wrapper", G + "xmr/core/ec_trezor.py")],
  ["results of each operation on each backend"])

p("C30", "Built test transactions are spendable and balanced",
  "A transaction set assembled by the transaction builder for any seed, amounts, subaddress indices and number of inputs and outputs is well formed: each generated input really belongs to the stated account and index and opens to the stated amount, the change output is the stated remainder, the change position refers to the change output, also after the outputs are shuffled, and the set reads back from its serialisation as it was built.",
  ["inputs"], "all seeds, amounts, subaddress indices, and numbers of inputs and outputs",
  "Tests build one or two sets with fixed arguments.",
  [G + "xmr/transaction_builder.py", MO],
  [("input and output generation", G + "xmr/transaction_builder.py")],
  ["unsigned transaction set"])

p("C31", "Stored wallet and exchange files open to what was stored",
  "Wallet key files, unsigned and signed transaction sets and exported outputs written by the host are read back unchanged with the right key or password. Files with a wrong header, a wrong key or password, or cut off, are refused; so is every modified body of the formats that are authenticated (transaction sets and exported outputs; key files are not). Amounts displayed to the user are the atomic amounts divided by ten to the twelfth, to double precision.",
  ["inputs"], "all keys, passwords, contents and modifications",
  "Tests load one recorded file.",
  [G + "xmr/wallet.py", G + "xmr/enc/chacha.py"],
  [("file codec", G + "xmr/wallet.py")],
  ["files and loaded objects"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
