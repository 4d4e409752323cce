#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept as source so that it can be edited readably)."""
import json, os

P = []
TSX = "monero_glue/protocol/tsx_sign.py"
TSB = "monero_glue/protocol/tsx_sign_builder.py"
TST = "monero_glue/protocol/tsx_sign_state.py"
AG = "monero_glue/agent/agent_lite.py"
TOK = "monero_glue/hwtoken/token.py"
KIS = "monero_glue/protocol/key_image_sync.py"
X = "monero_glue/xmr/"


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


p("C01", "A signed transaction is consensus-valid",
  "Every transaction that the host and the device complete together for well-formed construction data is accepted by the Monero consensus rules: key images lie in the prime-order subgroup and are strictly descending, ring references are well formed and resolve to the intended outputs, commitments balance with the declared fee, range proofs cover every output and verify, and every ring signature verifies over the hash of exactly the serialized transaction. Every honest transfer of a supported shape (any mix of inputs, ring sizes and positions, subaddresses, outputs up to the range-proof limit, payment ids, unlock times, both supported range-proof versions and client versions) does complete.",
  ["inputs", "configurations"], "all well-formed construction data x client version x range-proof version x crypto backend",
  "The suite signs a dozen recorded transactions of one shape each and checks them with the same code that produced them; the claim is over all shapes and needs an independent verifier.",
  [AG, TSX, TSB, X + "mlsag2.py", X + "ring_ct.py", X + "bulletproof.py", X + "sub/mlsag_hasher.py", X + "sub/tsx_helper.py"],
  [("host flow", AG + ": Agent.sign_transaction_data"), ("device flow", TSB), ("hashing of prefix and rct base", X + "sub/mlsag_hasher.py, " + X + "sub/keccak_hasher.py")],
  observe=["serialized transaction returned by the host agent"])

p("C02", "Recipients and change can find and open exactly the approved outputs",
  "Every output of a completed transaction is detectable, openable (amount and mask match the commitment) and spendable by exactly the recipient wallet it was requested for, with exactly the requested amount, including subaddress recipients, integrated addresses with short or long payment ids, sweeps and change. The transaction extra decodes strictly, carries exactly one transaction key, one additional key per output exactly when needed, and the payment id decrypts to the requested value (a null id when none was requested and there is at most one real recipient).",
  ["inputs", "configurations"], "all destination lists, address kinds, payment ids and amounts",
  "Tests check the amounts of a few recorded transactions from the sender's side; no test plays the recipient over the space of destination mixes.",
  [TSB, X + "monero.py", X + "sub/tsx_helper.py", X + "sub/addr.py", X + "ring_ct.py"],
  [("output key derivation", TSB + ": _s6_compute_tx_keys, _s6_set_out_derivation, _s6_set_out_additional_keys"), ("payment id", TSB + ": process_payment_id"), ("address classification", X + "sub/addr.py: classify_subaddresses")],
  observe=["serialized transaction scanned with recipient view keys"])

p("C03", "Change goes only to the signing account",
  "When the host declares change that carries value, the device completes the transaction only if the change address is the signing account's own primary address and the declared change is among the outputs, in any combination of amounts, output counts and accounts; a foreign declared change address is tolerated only for the zero-amount filler output of a two-output sweep. Outputs paid to the change address can always be found by the signing wallet, and honest change (or an honest transfer without change) is never refused.",
  ["inputs", "fault_sequences"], "all change declarations x output lists x accounts",
  "Tests use only recorded honest change; hostile or odd change declarations are never sent.",
  [TSB, X + "sub/addr.py"], [("change check", TSB + ": check_change"), ("change lookup", X + "sub/addr.py: get_change_addr_idx, addr_eq")],
  observe=["device replies; outputs of any completed transaction"])

p("C04", "Nothing is signed without the user approving exactly that transaction",
  "The device asks for confirmation before it accepts any transaction material, presenting exactly the outputs, amounts, payment id, fee and lock time that end up in the signed transaction, and asks for confirmation before exporting key images. When the user rejects, or the prompt fails, no further step of that session is accepted and no signature, key image or key material is ever released for it.",
  ["inputs", "histories"], "all transactions x all approval outcomes x all follow-up messages",
  "Tests use an interface that always approves and never compares what was shown with what was signed.",
  [TSX, TSB, KIS, "monero_glue/hwtoken/iface.py"], [("confirmation", TSB + ": init_transaction"), ("key image confirmation", KIS), ("interface", "monero_glue/hwtoken/iface.py")],
  observe=["confirmation interface calls", "device replies", "signed transaction"])

p("C05", "Data the device handed out cannot be altered, swapped or replayed",
  "Once a transaction session has accepted inputs and pinned outputs, a later message in which a source, an input, a destination, a commitment, an encrypted secret or an authentication tag was altered, truncated, swapped with another index, or taken from another session is either refused, and the refused session never yields a signature afterwards, or has no effect on what the device signs. Unaltered messages are always accepted.",
  ["fault_sequences", "histories"], "every mutated field of every message of every session, including cross-index and cross-session replay",
  "Tests only run honest hosts; a dropped or mis-indexed authentication check is invisible to them.",
  [TSB, X + "enc/chacha_poly.py", X + "common.py"], [("tag keys per index", TSB + ": hmac_key_*, enc_key_*"), ("tag checks", TSB + ": input_vini, _s6_validate, sign_input"), ("constant-time comparison", X + "common.py: ct_equal")],
  state=[("key_hmac/key_enc", "per-session authentication and encryption roots", TSB)], observe=["device replies to altered messages"])

p("C06", "The signing protocol accepts only the one legal order of steps",
  "A message that is out of order, repeated, missing or surplus with respect to the declared numbers of inputs and outputs is refused and ends the session: no later message of that session is accepted until a new one is started, and a new one can always be started. Progress reported to the user matches the steps actually accepted.",
  ["histories", "schedules"], "all message sequences, including skips, repeats, surplus messages, restarts and messages after failure",
  "Tests only run the legal order; the state machine's refusals are never exercised.",
  [TSX, TSB, TST, TOK], [("state machine", TST + ": TState"), ("session save and restore", TSX + ": TsxSigner.tsx_exc_handler/restore"), ("dispatch", TSX)],
  state=[("s", "protocol step", TST)], observe=["accept/refuse outcome of each message"])

p("C07", "Value is conserved against a lying host",
  "The device completes a transaction only if the sum of the spent inputs equals the sum of the outputs plus the approved fee, every spent output really belongs to the wallet, and each input's declared amount and mask open its on-chain commitment. A host that misstates an amount, a mask, the fee, the real ring position, a transaction key, an output index or the ring contents gets a refusal before the signature of that input is released, or a transaction that is still balanced.",
  ["inputs", "fault_sequences"], "all misstatements of source and destination data, consistent or not across messages",
  "Honest test data never lies; overspend and wrong-opening checks are never taken.",
  [TSB, X + "monero.py", X + "key_image.py"], [("fee and balance test", TSB + ": all_out1_set"), ("opening test", TSB + ": sign_input"), ("ownership", X + "monero.py: is_out_to_account, generate_key_image_helper")],
  observe=["device replies; completed transactions"])

p("C08", "No transaction is signed unless range proofs cover all its outputs",
  "Whether the device makes the range proofs itself or lets the host make them, it signs only if each output's commitment is covered by a range proof that verifies and is included in the signed message. Any host-chosen batching that leaves an output uncovered, any skipped, repeated, early, invalid or substituted proof is refused, and every batching whose proofs cover the outputs in order is accepted.",
  ["inputs", "fault_sequences", "configurations"], "all batchings, proof substitutions and omissions x offloading modes",
  "Tests use the honest host's batching only.",
  [TSB, X + "ring_ct.py", X + "bulletproof.py"], [("batch bookkeeping", TSB + ": _get_rsig_batch, _is_last_in_batch, _s6_range_proof"), ("proof check", TSB + ": _s6_rsig_process_bp; " + X + "ring_ct.py: verify_bp")],
  state=[("rsig_grp", "batch sizes", TSB)], observe=["device replies; signed message hash"])

p("C09", "Signing secrets are fresh and never leave the device in the clear",
  "Across any number of signing and key-image sessions, including retries, failures and identical requests, transaction keys, input blinding factors, commitment masks of non-deterministic mode, session authentication keys, nonces and signature randomness are never repeated. No message the device sends contains a private spend key, a one-time secret key, a transaction secret or a blinding factor in the clear or under a key the host knows, apart from those the protocol hands out by design (output masks for host-side range proofs).",
  ["histories", "inputs"], "all sessions and all bytes sent by the device",
  "Reuse or leakage shows only across sessions and against known secrets; tests look at single replies.",
  [TSB, KIS, X + "crypto.py", X + "enc/chacha_poly.py", X + "mlsag2.py"], [("randomness", X + "crypto.py: random_scalar, random_bytes"), ("sealing", X + "enc/chacha_poly.py: encrypt_pack")],
  observe=["every device reply, scanned for known secrets", "drawn randomness"])

p("C10", "Transaction keys can be recovered later, only by the wallet owner",
  "The encrypted key material returned after signing always decrypts, with the wallet's spend key, the transaction prefix hash and the returned salts, to exactly the secret transaction key and additional keys that produced the transaction's public keys, in output order; any change to the sealed data, the salts, the hash or the wallet makes recovery fail. The host recovers the same keys, and correct key derivations, from a device that answers the recovery request, and rejects altered answers.",
  ["inputs", "fault_sequences"], "all transactions x all alterations of the recovery material",
  "No test opens the returned material against the signed transaction or alters it.",
  [TSB, "monero_glue/hwtoken/misc.py", AG], [("sealing", TSB + ": final_msg; monero_glue/hwtoken/misc.py: compute_tx_key"), ("host recovery", AG + ": get_tx_key, get_tx_deriv")],
  observe=["final acknowledgement", "recovered keys"])

p("C11", "Key image export is correct, complete and bound to the announced outputs",
  "For every list of outputs the wallet owns (any length, including empty and exact batch multiples, main and subaddress outputs, additional keys), synchronisation returns in order exactly one correct key image per output with a proof that verifies under the output's key. The device releases the decryption key only if the outputs it processed are exactly, in number, order and content, those announced at the start, and refuses outputs it does not own.",
  ["inputs", "histories", "fault_sequences"], "all output lists x host deviations (omit, add, reorder, alter, repeat steps)",
  "Tests sync one recorded list of one length with an honest host.",
  [KIS, X + "key_image.py", AG, TOK], [("commitment", X + "key_image.py: generate_commitment, compute_hash"), ("device steps", KIS), ("batching", AG + ": import_outputs; " + X + "common.py: chunk")],
  state=[("num/expected hash/hasher", "announced and processed outputs", KIS)], observe=["exported key images", "device replies"])

p("C12", "Failures stay contained in their session",
  "An error, an abandoned session or a device-side exception at any step leaves the device able to run the next signing, key-image or query request correctly, with no state of the failed one reused. Sessions of several devices or agents running interleaved in one process do not influence each other, and an interrupted session resumes from its saved state exactly as an uninterrupted one.",
  ["crash_points", "schedules", "fault_sequences"], "all failure points x all interleavings of independent sessions",
  "Tests run one session at a time to its end.",
  [TOK, TSX, TSB, KIS, AG], [("per-message state save/restore", TSX), ("failure reset", TSX + ": tsx_exc_handler"), ("key image state", TOK)],
  observe=["outcome of sessions after faults and under interleaving"])

p("C13", "The host never accepts a transaction the device's replies do not support",
  "If any reply of the device is an error, the host raises an error. If a reply is altered, truncated, replaced by another one or belongs to another step, the host raises an error or returns a transaction valid under consensus rules and faithful to the request; at worst, when the altered part is the ring signature itself (which only the network verifies) or content and its hash were altered together, it returns a transaction whose signature the network rejects. It never returns a valid transaction that differs from the requested one, nor one whose prefix hash the device did not confirm in full. A live-refresh key image is accepted only if its proof verifies for the requested output and the image lies in the prime-order subgroup, and an honest device's answers are accepted.",
  ["fault_sequences", "inputs"], "every field of every device reply x corruption kinds",
  "Tests talk only to an honest emulated device.",
  [AG, "monero_glue/agent/agent_misc.py"], [("error propagation", AG + ": handle_error"), ("hash comparison", AG + ": sign_transaction_data"), ("key image proof check", AG + ": live_refresh")],
  observe=["host return value or exception under corrupted replies"])

p("C14", "The low-level device command set computes what Monero specifies",
  "Each implemented command of the compact hardware-wallet protocol (keys, addresses, derivations, subaddresses, key images, payment-id encryption, commitments, validation and signature steps) returns exactly the values Monero defines for the loaded wallet, and malformed commands are refused. Secrets returned to the host are protected and are worth nothing in any other session. A whole transaction's commands chain to outputs, messages and signatures that verify independently; the user is asked about every destination that is not change, and validation refuses outputs whose amounts, masks or commitments differ from those the session produced.",
  ["inputs", "histories"], "all commands x arguments x command sequences",
  "One small test drives a few commands with fixed input.",
  ["monero_glue/protocol_lite/lite.py", "monero_glue/protocol_lite/consts.py"], [("command dispatch", "monero_glue/protocol_lite/lite.py: LiteProtocol.dispatch")],
  observe=["command outputs vs an independent computation"])

p("C15", "Elliptic-curve group operations are exact",
  "For all valid inputs, including neutral, small-order and mixed-order points, unreduced coordinates and scalars of zero or near the group order, point decoding and encoding, addition, subtraction, negation, multiplication by scalars, by the base, by eight and multi-scalar forms return exactly the element of edwards25519 that the mathematics defines, with in-place variants equal to pure ones and operands left intact. Byte strings that encode no point are refused, and both crypto backends agree.",
  ["inputs", "configurations"], "all points and scalars x both backends",
  "Tests use a handful of fixed vectors; edge classes and aliasing are not sampled.",
  [X + "core/ec_py.py", X + "core/ec_trezor.py", X + "core/ec.py", X + "core/ec_base.py", X + "crypto.py"], [("pure implementation", X + "core/ec_py.py"), ("native binding", X + "core/ec_trezor.py"), ("selection", X + "core/ec_picker.py")],
  observe=["results of each operation vs an independent implementation"])

p("C16", "Scalar arithmetic is exact modulo the group order",
  "For all byte strings and integers, decoding, reduction, addition, subtraction, multiplication, fused forms, inversion, comparison, zero and range checks of scalars agree with integer arithmetic modulo the group order, results are always fully reduced, encodings are canonical, and in-place variants equal pure ones. Both crypto backends agree.",
  ["inputs", "configurations"], "all scalars and byte strings x both backends",
  "Tests use a few fixed vectors; carries, boundary values and aliasing are not sampled.",
  [X + "core/ec_py.py", X + "core/ec_trezor.py", X + "core/ec_base.py", X + "crypto.py"], [("pure implementation", X + "core/ec_py.py: sc_*"), ("native binding", X + "core/ec_trezor.py: sc_*")],
  observe=["results vs integer arithmetic"])

p("C17", "Hashing, key stretching and random generation follow their definitions",
  "Keccak-256 in one-shot, incremental, copied, double, HMAC and password-stretching forms, hash-to-scalar and hash-to-point agree with their published definitions for all message lengths and chunkings. The seeded generator is reproducible from its seed, random scalars are reduced and non-zero, and random draws never repeat.",
  ["inputs", "configurations"], "all messages, lengths, chunkings and seeds x both backends",
  "A few vectors are tested; block boundaries, chunking and state copying are not.",
  [X + "crypto.py", X + "core/ec_py.py", X + "core/ec_trezor.py", X + "core/ec_base.py"], [("hash front end", X + "crypto.py"), ("primitives", X + "core/ec_py.py, " + X + "core/ec_trezor.py")],
  observe=["digests and points vs an independent implementation"])

p("C18", "Ownership detection and spend-key derivation are exact",
  "For every wallet, subaddress, transaction key and output position, the wallet recognises an output as its own exactly when it is, with the right subaddress, derives the one-time secret that matches the output's public key, and computes the unique key image. Subaddress keys, address generation and key derivations equal the Monero definitions, also when additional transaction keys are present or absent.",
  ["inputs"], "all wallets, subaddress indices, output positions, own and foreign outputs",
  "Only recorded vectors are tested; foreign and near-miss outputs are not.",
  [X + "monero.py", X + "key_image.py", X + "sub/creds.py", X + "sub/addr.py"], [("derivations", X + "monero.py"), ("ownership lookup", X + "monero.py: is_out_to_account, lookup_account"), ("subaddress tables", X + "monero.py: compute_subaddresses")],
  observe=["derived keys and lookups vs an independent implementation"])

p("C19", "Range proofs are complete and sound, also in batches",
  "For all amounts below 2^64 and all masks, a proof over any supported number of outputs verifies under an independent verifier and under the project's own. A proof is rejected, singly and in every position of a batch, if any component, commitment or count is altered, if it is for a different commitment, or if the committed value is out of range.",
  ["inputs", "configurations"], "all amounts, masks, aggregation sizes, component mutations, batch compositions",
  "Tests verify honest proofs and a couple of corruptions with the same code.",
  [X + "bulletproof.py", X + "bulletproof_cl.py", X + "ring_ct.py"], [("prover", X + "bulletproof.py: BulletProofBuilder.prove*"), ("verifier", X + "bulletproof.py: verify, verify_batch")],
  observe=["accept/reject vs an independent verifier"])

p("C20", "Range proofs hide the amounts and are the same however they are computed",
  "Two proofs never share blinding randomness: from the proof, the mask-free public data and the public source code, amounts and masks cannot be recomputed, in the one-shot, batched and the step-by-step offloaded prover alike. The step-by-step offloaded prover, in every supported batching and after its state was saved and restored at any step, yields proofs that verify for the same commitments.",
  ["inputs", "crash_points", "configurations"], "all proofs x prover modes x save/restore points",
  "Tests check that proofs verify, which says nothing about what they reveal or about interruption points.",
  [X + "bulletproof.py"], [("blinding generation", X + "bulletproof.py: BulletProofBuilder"), ("offloaded prover", X + "bulletproof.py: prove_offload*"), ("state dump", X + "bulletproof.py: dump_state/load_state")],
  state=[("proof seed", "secret root of blinding vectors", X + "bulletproof.py")], observe=["proof components vs recomputation from public data"])

p("C21", "Linkable ring signatures of inputs are complete, sound and linkable",
  "For every ring size, real position and message, the input signature verifies under an independent verifier and the project's own; it is rejected if any signature component, key image, ring member, commitment or the message is altered. The same secret always gives the same key image, a wrong secret or wrong commitment difference never yields a verifying signature, and neither nonces nor the random responses of ring members that did not sign ever repeat, so nothing but the ring itself tells who signed.",
  ["inputs"], "all rings, positions, messages, secrets and single-component alterations",
  "Tests verify honest signatures with the code that produced them.",
  [X + "mlsag2.py"], [("prover", X + "mlsag2.py: prove_rct_mg_simple, generate_mlsag_simple"), ("verifier", X + "mlsag2.py: ver_rct_mg_simple, verify_mlsag_ext")],
  observe=["accept/reject vs an independent verifier"])

p("C22", "Concise ring signatures are complete, sound and linkable",
  "For every ring size, real position and message, the concise signature verifies under an independent verifier and the project's own, and is rejected if any component, either key image, a ring member, the commitment offset or the message is altered or the main auxiliary image is neutral. The key image equals the one defined for the key, and signatures never share nonces or the random responses of ring members that did not sign, so nothing but the ring itself tells who signed.",
  ["inputs"], "all rings, positions, messages, secrets and single-component alterations",
  "Tests verify a few honest signatures with the code that produced them.",
  [X + "mlsag2.py"], [("prover", X + "mlsag2.py: generate_clsag_simple"), ("verifier", X + "mlsag2.py: verify_clsag")],
  observe=["accept/reject vs an independent verifier"])

p("C23", "Key-image ring signatures and plain signatures are complete and sound",
  "For all keys, messages and ring sizes, generated one-time ring signatures and single-key signatures verify under an independent verifier and the project's own, and any alteration of the message, key, key image, or a signature component makes verification fail, including out-of-range scalars and low-order points. Signatures never reuse a nonce, nor the random values of ring members that did not sign.",
  ["inputs"], "all keys, messages, rings and alterations",
  "Only one honest path is tested.",
  [X + "ring_ct.py", X + "crypto.py", X + "key_image.py"], [("ring signature", X + "ring_ct.py: generate_ring_signature, check_ring_singature"), ("schnorr", X + "crypto.py / " + X + "monero.py")],
  observe=["accept/reject vs an independent verifier"])

p("C24", "Bitwise range proofs are complete and sound",
  "For every 64-bit amount and mask the legacy bitwise range proof verifies under an independent verifier and the project's own and commits to that amount, and it is rejected when any signature scalar, bit commitment or the total commitment is altered. Proofs with the mask supplied or chosen agree, and memory-saving provers equal the plain ones.",
  ["inputs"], "all amounts, masks and alterations",
  "Tests verify a few amounts with the code that produced them.",
  [X + "ring_ct.py", "monero_glue/trezor_unused/ring_ct.py"], [("prover", X + "ring_ct.py: prove_range*"), ("verifier", X + "ring_ct.py: ver_range, verify_borromean")],
  observe=["accept/reject vs an independent verifier"])

p("C25", "Addresses encode and decode exactly and invalid ones are refused",
  "For every network, address kind (standard, subaddress, integrated) and key pair, encoding then decoding returns the same kind, network, keys and payment id, encodings equal the Monero format, and different addresses have different encodings. A string with any altered, missing or extra character, wrong checksum, wrong length, unknown network byte or overflowing block is refused.",
  ["inputs"], "all addresses x all single and multi character alterations",
  "A few fixed addresses are tested, almost no refusals.",
  ["monero_glue/misc/b58_mnr.py", "monero_glue/misc/b58.py", X + "sub/addr.py", X + "sub/xmr_net.py", X + "monero.py"], [("block codec", "monero_glue/misc/b58_mnr.py"), ("address codec", X + "sub/addr.py: encode_addr, decode_addr")],
  observe=["codec results vs an independent codec"])

p("C26", "Recovery words and seeds restore exactly the same wallet",
  "Every 16- or 32-byte seed encodes to recovery words that decode to the same seed in each supported language, words with a wrong checksum, count, spelling or out-of-range triple are refused, and deriving a wallet from words, seed or master secret gives the same keys. Derived spend and view keys are reduced and follow the published rules, and the command line tools show, generate and load exactly these.",
  ["inputs"], "all seeds x languages x alterations of the word list",
  "One or two vectors are tested, no refusals.",
  [X + "core/mnemonic.py", X + "sub/seed.py", "monero_poc/seed.py", "monero_poc/generate_creds.py", "monero_poc/trezor_init.py"], [("word codec", X + "core/mnemonic.py"), ("seed derivation", X + "sub/seed.py: SeedDerivation")],
  observe=["decoded seeds and derived keys vs an independent computation"])

p("C27", "Hierarchical key derivation follows the published standards",
  "For every seed, curve supported and derivation path, hierarchical derivation gives the node defined by the published standards, serialized extended keys and word-list entropy round-trip, single keys are read and written in exactly their published forms, and encodings refuse any altered string and any content that is no key. Hardened and public derivations are distinguished, and private and public derivations of the same path agree.",
  ["inputs"], "all seeds, paths, entropies and encodings",
  "Fixed vectors only.",
  ["monero_glue/misc/bip/bip32.py", "monero_glue/misc/bip/bip39.py", "monero_glue/misc/b58.py"], [("derivation", "monero_glue/misc/bip/bip32.py"), ("word lists", "monero_glue/misc/bip/bip39.py")],
  observe=["derived nodes vs an independent implementation"])

p("C28", "Wallet and transaction files round-trip and reject tampering",
  "Every wallet-keys file, unsigned-transaction, signed-transaction and exported-outputs file the library writes is read back equal with the right password or view key, and cannot be read (or is reported invalid) with the wrong one, when truncated, or when altered in an authenticated part. Writing never modifies the caller's data, and recorded files of the reference wallet are read and re-written compatibly.",
  ["inputs", "fault_sequences"], "all file contents x keys x truncations and alterations",
  "Tests read a few recorded files.",
  [X + "wallet.py", X + "enc/chacha.py"], [("file codecs", X + "wallet.py"), ("file encryption", X + "enc/chacha.py")],
  observe=["file bytes and parsed contents"])

p("C29", "Symmetric encryption helpers are correct and authenticated",
  "For all keys, nonces, associated data and messages, each encryption helper decrypts to the original, agrees with the published cipher, leaves the buffers it was given as they were, and never reuses a nonce of its own choosing. Authenticated modes refuse any altered, truncated or extended ciphertext, nonce, tag, key or associated data.",
  ["inputs", "fault_sequences"], "all keys and messages x alterations",
  "One or two round trips are tested.",
  [X + "enc/chacha.py", X + "enc/chacha_poly.py", X + "enc/aesgcm.py", X + "enc/aescbc.py"], [("authenticated stream cipher", X + "enc/chacha_poly.py"), ("block cipher modes", X + "enc/aesgcm.py, " + X + "enc/aescbc.py"), ("wallet cipher", X + "enc/chacha.py")],
  observe=["plaintexts, ciphertexts and refusals"])

p("C30", "The message codec is lossless and strict",
  "Every protocol message with any combination of fields, nested messages, repeated and large values decodes to the value that was encoded, its encoding equals the protocol-buffers wire format an independent codec produces, and the predicted size equals the bytes written. Malformed or truncated input is refused without hanging or unbounded reading, and unknown fields are skipped.",
  ["inputs"], "all messages of the message set, all byte strings",
  "Tests send a handful of messages through the codec.",
  ["monero_glue/protobuf.py", "monero_glue/protocol_base/messages.py", "monero_glue/hwtoken/misc.py", "monero_poc/utils/trezor_server_proxy.py"], [("codec", "monero_glue/protobuf.py: dump_message, load_message, dict_to_proto"), ("registry", "monero_glue/protocol_base/messages.py")],
  observe=["encoded bytes and decoded objects vs an independent codec"])

p("C31", "Transaction extra and ring references are encoded and parsed exactly",
  "Fields put into the transaction extra are found again with the same value by the parser, whatever their order and number, removing a field type leaves the others intact, and payment-id nonces keep kind and value. Converting absolute ring references to relative and back is the identity on sorted lists, and malformed extra data is reported rather than misread.",
  ["inputs"], "all field lists, byte strings and index lists",
  "A few recorded extras are parsed.",
  [X + "monero.py", X + "sub/tsx_helper.py"], [("extra parsing", X + "sub/tsx_helper.py, " + X + "monero.py"), ("offset conversion", X + "sub/tsx_helper.py: absolute_output_offsets_to_relative")],
  observe=["parsed fields vs an independent parser"])

p("C32", "Streaming transaction hashes equal the hashes of the whole",
  "Hashing a transaction incrementally, in the device's message-by-message order with the state saved and restored between any two steps, gives exactly the hash of the serialized prefix and the signing message defined for that transaction, for every signature type and shape. Each added element changes the result, and steps in a wrong order are refused where the hasher tracks order.",
  ["inputs", "crash_points"], "all transactions x save/restore points",
  "Tests compare a few recorded transactions without interruption.",
  [X + "sub/mlsag_hasher.py", X + "sub/keccak_hasher.py", X + "monero.py"], [("signing message hasher", X + "sub/mlsag_hasher.py: PreMlsagHasher"), ("prefix hasher", X + "sub/keccak_hasher.py: KeccakXmrArchive")],
  observe=["digests vs hashes of independently serialized transactions"])

p("C33", "Commitments and hidden amounts are exact",
  "For all amounts, masks and shared secrets, commitments equal the defined combination of mask and amount, add up homomorphically, and hidden amounts and masks decrypt to the originals in both the long and the short format, agreeing with the Monero definition. Wrong shared secrets never decode to a consistent opening, and decoding leaves the transaction as it was.",
  ["inputs", "configurations"], "all amounts, masks, shared secrets x formats x both backends",
  "A few vectors are tested.",
  [X + "ring_ct.py", X + "crypto.py", X + "monero.py", TSB], [("hidden amounts", X + "ring_ct.py: ecdh_encode, ecdh_decode"), ("commitments", X + "crypto.py: gen_c")],
  observe=["openings vs an independent computation"])

p("C34", "The transaction builder produces faithful construction data",
  "Every transaction description assembled with the builder (inputs, outputs, change, accounts, ring sizes) yields construction data in which inputs, outputs, change and fee add up, rings are sorted, distinct and contain the real output at the declared place with opening amount and mask, subaddress indices are complete, and which the host and device sign into a consensus-valid transaction paying the described recipients.",
  ["inputs"], "all builder call sequences",
  "A few fixed shapes are built and not verified independently.",
  [X + "transaction_builder.py"], [("input and output generation", X + "transaction_builder.py: TransactionBuilder")],
  observe=["construction data and resulting transactions"])

p("C35", "Batch plans cover every output and list helpers lose nothing",
  "For every number of outputs and range-proof mode the host's batch plan covers every output exactly once with supported batch sizes, and the batch helper functions split and permute lists without loss: chunks concatenate to the original, a permutation and its inverse cancel, and invalid permutations are detected before anything is moved. The helper for comparing byte strings decides equality exactly, the helpers for defaults replace exactly what is missing, and the hashing writers hash and pass on exactly what was written. In a session, the batches announced to the device, the proofs sent to it and the proofs in the signed transaction all follow that plan.",
  ["inputs"], "all list lengths, permutations and batch sizes",
  "Only the sizes that occur in recorded data are tested.",
  [AG, X + "common.py"], [("batch plan", AG + ": generate_rsig_batch_sizes, get_rsig_type"), ("list helpers", X + "common.py")],
  observe=["helper results vs their definition"])

p("C36", "The command line agent does exactly what the user typed and agreed to",
  "For every transfer, sweep or key-image command line, the request the agent sends to the hot wallet names exactly the typed addresses, amounts to the last atomic unit, subaddresses, priority, ring size, key image and payment id, or the line is refused; nothing is signed, submitted or written before the user agreed, and a refusal stops the command, also when it comes for a later transaction of several. A wallet that fails, answers nothing to sign, or does not name what it relayed is never reported as a success and leaves nothing signed that was not confirmed; a wallet that is not running gets no request, and what the looking commands show is what the wallet or device answered. What is submitted and stored is the transaction the device signed with the right key images, its record can be reopened by the owner, no secret key or password is stored, sent to the wallet or put on a command line in the clear, and an account is only opened with the right password, matching keys and the right device. Paths and addresses are passed to the started program unchanged. A wallet restored from a date scans every block of that day and later, as the configured daemon reports them.",
  ["inputs", "histories", "fault_sequences"], "all command lines, user answers, account files, device and wallet answers",
  "No test runs the command line agent.",
  ["monero_poc/agent.py", "monero_poc/utils/misc.py", "monero_poc/utils/cli.py", "monero_glue/xmr/wallet_rpc.py", "monero_glue/xmr/daemon_rpc.py", "monero_glue/xmr/wallet.py"], [("command grammar", "monero_poc/utils/misc.py: parse_transfer_cmd, parse_sweep_*"), ("signing and records", "monero_poc/agent.py: sign, store_cdata, key_image_sync"), ("accounts", "monero_poc/agent.py: open_account*, save_account, ensure_watch_only")],
  observe=["requests to the wallet RPC, device messages, files written, started program's arguments"])

p("C37", "The device emulator gives nothing out that its owner did not see and allow",
  "For every sequence of HTTP requests, hostile bodies included, the emulator signs a transaction, exports key images or hands out the view key only after its owner answered yes to that very request, having been shown every output, amount, fee, unlock time and payment id exactly as signed; any other answer, or no account, gives an error and no secret, and the spend key never leaves. A request arriving while another one is being confirmed cannot take its place. A new account's backups and file all restore the keys and address shown, and an existing account file is never overwritten.",
  ["inputs", "histories", "schedules"], "all request sequences, bodies, owner answers, racing requests, account files",
  "No test runs the emulator server.",
  ["monero_poc/trezor.py", "monero_poc/utils/trezor_server_proxy.py", "monero_poc/utils/misc.py"], [("confirmation", "monero_poc/trezor.py: TokenInterface, do_T, do_W, do_K"), ("HTTP interface", "monero_poc/trezor.py: TrezorServer.on_*"), ("accounts", "monero_poc/trezor.py: create_wallet, open_account")],
  observe=["HTTP responses ordered against the owner's answers, console text, signed transactions, account files"])

p("C38", "A hardware device is spoken to exactly as the emulated one",
  "Over the hardware client, every message the agent sends reaches the device field by field as it was built (zero values, absent fields, lists and big integers included) and every answer reaches the agent as the device gave it, whatever the size and however many confirmation prompts come in between. Signing, key-image export, live refresh, watch-only key, key recovery, addresses and pings give the same results as with the emulated device; a device that refuses or fails at any step ends that operation without a transaction and without further messages of it, and the same client serves the next operation; no link to the device stays held after an operation, answered or failed.",
  ["inputs", "histories", "fault_sequences"], "all messages x sessions x prompts x refusals at every step",
  "No test talks to a device over its link; the conversion is tested for one message.",
  ["monero_glue/trezor/manager.py", "monero_glue/protocol_base/messages.py", AG], [("client", "monero_glue/trezor/manager.py: Trezor"), ("conversion", "monero_glue/protocol_base/messages.py: MessageConverter, bytes_fix")],
  observe=["bytes received and sent by the device on its UDP link, results of the agent"])

p("C39", "The wallet and daemon clients ask exactly what they are told",
  "Every call of the wallet and daemon clients makes one request the server lets in: to the address set last, with the method and parameters given (big integers, unicode, nesting included; block heights in the daemon's binary form) and no others, and hands back exactly what that server answered to that very request, whatever the size. Credentials set last are the ones used, in every accepted form (passwords with colons included), only as a digest answering the server's challenge, never in the clear and never after they were taken away; none or wrong ones give no result. An HTTP error, a cut or lost answer, or one that cannot be read fails the call.",
  ["inputs", "histories", "fault_sequences"], "all calls x parameters x answers x address and credential histories",
  "No test uses the RPC clients.",
  ["monero_glue/xmr/wallet_rpc.py", "monero_glue/xmr/daemon_rpc.py"], [("wallet client", "monero_glue/xmr/wallet_rpc.py: WalletRpc"), ("daemon client", "monero_glue/xmr/daemon_rpc.py: DaemonRpc")],
  observe=["HTTP requests as the servers got them, results of the calls"])

p("C40", "Generated test transactions belong to the new keys and keep their worth",
  "For every file of unsigned transactions its current keys can open and every choice of options, monero-test-gen writes a file only the destination keys open, holding as many transactions: every input's real output becomes one that the destination keys own under the asked account and one of the asked subaddresses, at the same place of its ring, with a mask and amount that open its commitment, no two inputs spending one output; the other ring members stay. Values of inputs, of outputs and the fee are kept for any number of inputs and outputs asked for; the change goes to the destination account's first address and is declared as such; other destinations, payment ids and unlock time stay unless an option asks for them (subaddress outputs: each to a subaddress of its own). The result can be signed with the destination keys. Wrong keys or an altered file give no output, and the input files stay.",
  ["inputs"], "all unsigned sets x option combinations",
  "No test runs the test generator.",
  ["monero_poc/tools/test_gen.py", "monero_glue/xmr/wallet.py"], [("input handover", "monero_poc/tools/test_gen.py: rekey_input, amplify_inputs"), ("outputs", "monero_poc/tools/test_gen.py: adjust_change, reduce_outs, amplify_outs, subadress_outs")],
  observe=["files written by the console tool, transactions signed from them"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["title"]
        f.write(json.dumps(r) + "\n")
print(len(P))
