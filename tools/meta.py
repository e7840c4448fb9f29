#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: "
P = []


def prop(pid, title, statement, over, quant, why, files, mech, technique, note, state=(), observe=()):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(id=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state, observe=observe))


T = "monero_glue/protocol/"
TOK = "monero_glue/hwtoken/token.py"
TRUST = (" Trusts the curve arithmetic and keccak of the installed C library (shared with the oracle); the oracle "
         "(transaction parser, MLSAG, Bulletproof and ownership checks in sim/ref.py) is written separately. "
         "Seeded exploration, no exhaustiveness.")

prop("C01", "Every valid transaction gets signed and the network would accept it",
     "Any well-formed spend (any mix of main-address and subaddress inputs, accounts, recipients, payment ids, change, "
     "sweeps, protocol variants, up to 16 outputs) which the user confirms is signed by the device and host together. "
     "The resulting transaction parses, balances, carries valid range proofs and ring signatures whose key images "
     "belong to the spent outputs, pays exactly the requested recipients and spends exactly the requested inputs. "
     "This holds whatever sessions were abandoned, rejected or interrupted on the same device before.",
     ["inputs", "histories", "configurations"],
     "All valid transactions (accounts, subaddresses, payment ids, ring sizes, one to 16 outputs plus change) and all "
     "earlier sessions abandoned at any step on the same device.",
     "The tests sign a few recorded transactions once each on a fresh device and check little of the result.",
     ["monero_glue/agent/agent_lite.py", "monero_glue/hwtoken/token.py", "monero_glue/protocol/tsx_sign_builder.py",
      "monero_glue/xmr/mlsag2.py", "monero_glue/xmr/ring_ct.py"],
     [("host protocol driver", "monero_glue/agent/agent_lite.py Agent.sign_tx"),
      ("device session", "monero_glue/protocol/tsx_sign_builder.py TransactionSigningBuilder")],
     "generated transactions run through the real host and device after abandoned sessions; independent verification",
     "Full end-to-end runs judged by an independent transaction verifier." + TRUST)

prop("C02", "What the device signs is exactly what its user confirmed",
     "Whatever a malicious host sends after the user confirmed a transaction, every signature the device releases "
     "verifies only over a transaction with exactly the recipients, amounts, change, fee and unlock time shown to the "
     "user. Otherwise the device refuses before it releases a signature.",
     ["inputs", "histories", "fault_sequences"],
     "All sequences of protocol messages with altered fields, swapped or replayed parts, lies about inputs and range "
     "proofs, sent to the device after the confirmation.",
     "The tests drive the device only with their own honest host; no test alters a message in the middle of a session.",
     [T + "tsx_sign_builder.py", T + "tsx_sign.py", TOK],
     [("per-step integrity tags", T + "tsx_sign_builder.py"), ("prefix and full-message hash", T + "tsx_sign_builder.py")],
     "malicious scripted host against the real device; every released signature judged by an independent verifier",
     "Adversarial message sequences with seeded tampering; all released signatures judged." + TRUST)

prop("C03", "A rejected transaction or key image export releases nothing",
     "When the user rejects a transaction or a key image export, the device answers with a cancellation failure which "
     "the host reports as such. It then answers nothing but failures to every further message of that session, "
     "whatever was confirmed before, until a new session is confirmed.",
     ["histories", "inputs"],
     "All sequences of messages after a rejection, with any earlier accepted sessions completed or in progress.",
     "The tests always accept; the rejection path is never executed.",
     [T + "tsx_sign.py", TOK, "monero_glue/protocol/key_image_sync.py"],
     [("user confirmation", TOK), ("session reset on error", T + "tsx_sign.py")],
     "scripted user and host over the real device; drawn message sequences after a rejection",
     "Message histories after a rejection; refusal and error code checked." + TRUST)

prop("C04", "After any failed step the signing session is dead and leaks nothing",
     "When a step of a signing session fails for whatever reason (malformed data, internal error, failing randomness, "
     "rejected dialog), the device answers with a failure and every later message of that session fails as well. "
     "A new session on the same device then works normally, and no secret of the failed session is ever released.",
     ["crash_points", "fault_sequences", "histories"],
     "All points of a session at which a step can fail, and all message sequences afterwards.",
     "The tests never make a step fail inside the device.",
     [T + "tsx_sign.py", TOK],
     [("error handling", T + "tsx_sign.py"), ("failure conversion", TOK)],
     "failures injected at drawn points of device steps, then continued sessions; history checked",
     "Faults at drawn instruction-level points of the step (user callback, RNG, message damage)." + TRUST)

prop("C05", "The device accepts protocol steps only in order and in the confirmed number",
     "The device accepts a step only where the protocol allows it: every input and output exactly once and in order, "
     "no step skipped, repeated or resumed from an earlier point. A signature is released only after all "
     "inputs and outputs announced at the confirmation have been processed.",
     ["histories", "schedules"],
     "All orders, repetitions and omissions of the protocol's messages.",
     "The tests use one order of messages, that of the honest host.",
     [T + "tsx_sign_builder.py", T + "tsx_sign_state.py"],
     [("state machine", T + "tsx_sign_state.py")],
     "drawn message orders against the real device compared with a reference state machine",
     "Drawn reorderings compared with a small reference automaton." + TRUST)

prop("C06", "Signing sessions of several hosts sharing a device never mix",
     "When several hosts use one device in any interleaving, with lost, repeated or delayed messages and restarts, a host "
     "either obtains exactly its own transaction, complete and valid, or an error. Data recorded from one session is "
     "never accepted in another one, no integrity tag or encrypted value of one session recurs in another (even over "
     "equal transactions), and a host which is not interrupted always succeeds.",
     ["schedules", "fault_sequences", "crash_points"],
     "All interleavings of two or three hosts' messages, link faults and device restarts.",
     "The tests use one host and one session at a time.",
     ["monero_glue/agent/agent_lite.py", TOK, T + "tsx_sign.py", T + "tsx_sign_builder.py"],
     [("per-session random keys", T + "tsx_sign_builder.py"), ("session replacement", T + "tsx_sign.py")],
     "seeded scheduler over concurrent real hosts and one real device with link faults and restarts",
     "Interleavings drawn by a seeded scheduler." + TRUST)

prop("C07", "No confirmed lie makes the device create money or give the change away",
     "Even when the user confirms everything and the host lies consistently from the beginning, the device releases no "
     "signature for a transaction whose claimed inputs do not equal outputs plus fee, none for an input whose claimed "
     "amount differs from its commitment, and none for a transaction with an output of 64 bits or more, an input the "
     "wallet does not own, "
     "a change address other than the main address of the wallet's account being spent (a zero-value dummy of a two "
     "output sweep excepted), or with an illegal payment id or one for several recipients.",
     ["inputs", "histories", "fault_sequences"],
     "All transactions offered by a lying host, after any earlier sessions, with altered messages and restarts.",
     "The tests only offer correct transactions of an honest host.",
     [T + "tsx_sign_builder.py", "monero_glue/xmr/monero.py", "monero_glue/xmr/sub/addr.py"],
     [("change check", T + "tsx_sign_builder.py check_change"), ("fee check", T + "tsx_sign_builder.py all_out1_set"),
      ("ownership and commitment check", T + "tsx_sign_builder.py sign_input")],
     "lying scripted host with seeded tampering and restarts against the real device; no signature may be released",
     "Seeded lies combined with protocol faults, judged by the facts of the simulated world." + TRUST)

prop("C14", "Transaction keys can be recovered later, only by the wallet that signed",
     "From what the host keeps of every signed transaction, the wallet which signed it recovers exactly the secret keys "
     "belonging to the transaction's public keys, whatever was signed before and after. No other wallet and no other "
     "transaction's data opens them, they never leave the device in clear and are never used twice. When answers or "
     "stored data are lost, damaged, stale or mixed up, the host reports an error and never returns wrong keys.",
     ["inputs", "histories", "fault_sequences"],
     "All transactions, all orders of signing and recovery, all damaged or mixed-up stored data and answers.",
     "The tests recover the keys of no transaction they sign.",
     [T + "tsx_sign_builder.py", "monero_glue/hwtoken/misc.py", "monero_glue/agent/agent_lite.py",
      "monero_glue/xmr/enc/chacha_poly.py"],
     [("sealed keys", T + "tsx_sign_builder.py final_msg"), ("recovery", "monero_glue/agent/agent_lite.py get_tx_key")],
     "real signing sessions, then recoveries over a link with seeded faults against a model of the firmware",
     "The firmware's side of the recovery is a model written from the protocol; the repository has the sealing and the "
     "host side only." + TRUST)

prop("C22", "Live refresh accepts a key image only for exactly the output asked for",
     "The host returns a key image from a live refresh only if it is the one key image of the output asked for, proven by "
     "the device. Lost, damaged, stale or foreign answers, answers for another output, and a device that restarted or "
     "refuses lead to an error; a correct answer is accepted for every output of the wallet.",
     ["inputs", "fault_sequences", "histories"],
     "All outputs of all wallets and all answers a disturbed or lying device can give.",
     "No test runs the live refresh.",
     ["monero_glue/agent/agent_lite.py", "monero_glue/xmr/ring_ct.py", "monero_glue/xmr/enc/chacha_poly.py"],
     [("proof check", "monero_glue/agent/agent_lite.py live_refresh")],
     "real host against a lying and disturbed model of the device; results compared with independent key images",
     "The firmware's side is a model written from the protocol." + TRUST)

prop("C20", "No signature without valid range proofs over every output",
     "The device releases ring signatures only when range proofs over exactly the commitments of all outputs of the "
     "transaction were verified, also when the host computes the proofs and however it groups them. A wrong, damaged, "
     "missing, early or foreign proof makes the session fail; correct proofs in any legal grouping are accepted.",
     ["inputs", "histories"],
     "All host-computed proofs and groupings offered for all transactions of up to 17 outputs.",
     "The tests only feed correct proofs of the honest host.",
     [T + "tsx_sign_builder.py", "monero_glue/xmr/bulletproof.py", "monero_glue/xmr/ring_ct.py"],
     [("proof check", T + "tsx_sign_builder.py")],
     "malicious prover over the real device; every accepted proof re-verified independently",
     "Attacks on offloaded proofs; accepted proofs verified by an independent verifier." + TRUST)

prop("C08", "Key image export is correct for every wallet, and failed exports can be retried",
     "For any set of owned outputs (any number including none, any accounts, subaddresses, additional keys) a confirmed "
     "export returns exactly one correct key image with a valid proof per output, in order. If messages or their answers "
     "are lost, repeated or refused, or the device restarts, the host gets an error or the complete correct result, and "
     "an undisturbed retry succeeds. The watch-only export returns the wallet's view key and address, and is refused "
     "for another network.",
     ["inputs", "fault_sequences", "histories"],
     "All wallets' output sets, all link faults between host and device, all earlier abandoned sessions.",
     "The tests export one recorded list of outputs without any fault.",
     ["monero_glue/agent/agent_lite.py", T + "key_image_sync.py", "monero_glue/xmr/key_image.py", TOK],
     [("host export", "monero_glue/agent/agent_lite.py Agent.import_outputs"), ("device export", T + "key_image_sync.py")],
     "real host and device over a link with seeded faults; results compared with independently derived key images",
     "Exports of generated wallets compared with an independent derivation." + TRUST)

prop("C09", "The export key is released only for exactly the list the user confirmed",
     "Key images leave the device only encrypted under a fresh random key, which is released only after exactly the "
     "outputs of the confirmed list were processed, in order and in the confirmed number. Any deviation, failure or "
     "rejection kills the export, and no released key opens data of another export. Only outputs the wallet owns are "
     "processed.",
     ["histories", "inputs", "fault_sequences"],
     "All sequences of export messages of one or two interleaved exports with altered lists, restarts and failing "
     "randomness or dialogs.",
     "The tests run one honest export and never deviate from the list.",
     [T + "key_image_sync.py", "monero_glue/xmr/key_image.py", "monero_glue/xmr/enc/chacha_poly.py", TOK],
     [("commitment over the list", T + "key_image_sync.py"), ("key withheld until the end", T + "key_image_sync.py")],
     "drawn message histories against the real device compared with a reference automaton; re-run with other randomness",
     "Every answer compared with a reference automaton; ciphertexts tried with all released keys." + TRUST)

prop("C10", "Messages survive the wire exactly; a broken stream is never taken for one",
     "Every message which can be described by its class is encoded to exactly one byte string and decoded back to equal "
     "content, whatever order or unknown fields of newer peers are in it, and independently of other messages and of "
     "failed writes before it. A stream which ends, breaks or is damaged within a message leads to an error or to the "
     "content its bytes really describe, never to a message with invented content.",
     ["inputs", "fault_sequences", "crash_points"],
     "All message types and contents, all points at which a stream can end, break or be damaged.",
     "The tests encode a handful of messages over a perfect stream.",
     ["monero_glue/protobuf.py", "monero_glue/messages/__init__.py", "monero_glue/protocol_base/messages.py"],
     [("codec", "monero_glue/protobuf.py dump_message, load_message")],
     "streams with seeded faults between real encoder and decoder; contents compared with a separate codec",
     "Drawn messages of all types over a faulty stream, compared with a separately written codec. The field tables of the "
     "message classes are taken as the specification. Seeded exploration, no exhaustiveness.")

prop("C26", "The agent asks the wallet for exactly what was typed and submits only that",
     "Amounts, addresses, priorities, ring sizes, indices and payment ids reach the wallet exactly as typed. A set is "
     "signed and submitted only after the user confirmed it with exact amounts shown; only complete, verified sets with "
     "every key image mapped to its output are submitted. Damaged or foreign sets never reach the device; after any "
     "failure nothing is submitted. Undisturbed commands succeed.",
     ["inputs", "histories", "fault_sequences"],
     "All commands and answers of the user, all sets of the wallet, all failures of wallet-RPC, device, disk and user.",
     "No test runs the command line agent.",
     ["monero_poc/agent.py", "monero_poc/utils/misc.py", "monero_glue/xmr/wallet.py", "monero_glue/xmr/wallet_rpc.py",
      "monero_glue/agent/agent_lite.py"],
     [("transfer and sweep commands", "monero_poc/agent.py"), ("argument parsing", "monero_poc/utils/misc.py"),
      ("transaction set files", "monero_glue/xmr/wallet.py")],
     "real command line agent between a model of the wallet-RPC, a simulated user and the real device, with seeded faults",
     "Commands drawn and disturbed; calls, dialogs and submitted sets judged by independent decoding." + TRUST)


prop("C27", "A Trezor on the cable: the right result or an error, and free for the next try",
     "A command of the agent with a Trezor ends with a result that is correct and came from the chosen device or with an "
     "error, whatever happens on the cable, in the firmware or at its dialogs: chunks lost, resets, unplugging, failures, "
     "PIN, passphrase, cancel. Messages arrive with the values the agent gave them, nothing is signed that was not confirmed, "
     "the device is released, and the command succeeds when tried again undisturbed.",
     ["inputs", "fault_sequences", "histories"],
     "All commands, all points of all exchanges at which cable, device or user can fail, all sequences of such commands.",
     "No test talks to a Trezor or a model of one.",
     ["monero_glue/trezor/manager.py", "monero_glue/protocol_base/messages.py", "monero_poc/agent.py",
      "monero_glue/agent/agent_lite.py"],
     [("connection and sessions", "monero_glue/trezor/manager.py"), ("message conversion", "monero_glue/protocol_base/messages.py"),
      ("choice of the device", "monero_poc/agent.py connect")],
     "real agent, manager and trezorlib over a simulated cable and firmware with seeded faults at any chunk or dialog",
     "The firmware around TokenLite (dialogs, Initialize, key services) is a model." + TRUST)
prop("C15", "The device server gives out only what its user confirmed, and never hangs",
     "The server accepts a transaction, exports key images or the view key only if its user confirmed a dialog of this "
     "very request which shows every recipient, exact amount, fee, unlock time and payment id; a rejection is reported. "
     "However requests, dialogs and commands at the console interleave, a user who answers is heard and every request "
     "ends; secrets never leave in any other answer.",
     ["schedules", "histories", "inputs"],
     "All interleavings of host requests with the console of the server, at every source line.",
     "No test starts the server.",
     ["monero_poc/trezor.py", "monero_poc/utils/misc.py", "monero_poc/utils/trezor_server_proxy.py"],
     [("dialogs", "monero_poc/trezor.py do_T, do_W, do_K"), ("waiting for the user", "monero_poc/utils/misc.py CliPrompt")],
     "real server threads under a seeded scheduler with preemption at source lines; dialogs compared with requests",
     "Drawn preemptions of the server, console and host threads." + TRUST)

prop("C16", "Remote signing gives the correct result or an error, and can be retried",
     "An agent using a device server over HTTP ends with the complete correct result or with an error, whatever "
     "requests or answers are lost, repeated, cut or refused, and whenever the server process is restarted or the "
     "device fails; once the disturbance is over the next attempt succeeds with the account unchanged.",
     ["fault_sequences", "histories", "crash_points"],
     "All fault sequences on the connection, all restart points of the server, all failing device steps.",
     "No test runs the agent against the server.",
     ["monero_poc/trezor.py", "monero_poc/utils/trezor_server_proxy.py", "monero_glue/agent/agent_lite.py"],
     [("proxy", "monero_poc/utils/trezor_server_proxy.py TokenProxy"), ("handlers", "monero_poc/trezor.py TrezorServer")],
     "agent, proxy and server in one process over simulated HTTP with seeded faults and server restarts",
     "Transactions and exports of generated wallets over a faulty connection." + TRUST)

prop("C17", "Range proofs computed with a host are valid, resumable and keep blinds fresh",
     "A range proof which a device computes together with a host, message by message, is valid for exactly the "
     "device's amounts and masks, with every outsourcing method and threshold, also when the device is rebuilt from its "
     "dumped state between any messages or loses power in the middle of a step and is resumed from it, and when "
     "several proofs interleave; vectors leave the device only blinded, no blind, mask or secret is used twice, and a "
     "disturbed computation never makes the verifier accept an invalid proof nor spoils the next one.",
     ["inputs", "crash_points", "schedules", "fault_sequences"],
     "All amounts, masks and methods; every interruption of every step; every damaged, repeated or foreign message; all "
     "interleavings of sessions. Excluded: settings whose batch does not divide the vectors sent in pieces.",
     "Tests run one undisturbed session with fixed amounts and a fixed random generator.",
     ["monero_glue/xmr/bulletproof.py", "monero_glue/xmr/bulletproof_cl.py"],
     [("device", "monero_glue/xmr/bulletproof.py BulletProofBuilder.prove_batch_off, prove_batch_off_step, dump_state"),
      ("host", "monero_glue/xmr/bulletproof_cl.py BulletproofClient.compute_bp")],
     "one to three provers and hosts scheduled message by message, state dumped, restored and cut off at drawn points",
     "Generated amounts, methods and thresholds, judged by an independent verifier." + TRUST)

prop("C11", "A device's answers never contain the secrets it is there to keep",
     "Whatever a host sends in whatever order, and however sessions fail or mix, nothing the device answers (fields, "
     "proofs, error texts, logs) contains in the clear its spend key, a secret key of an output, subaddress or "
     "transaction, a signature nonce or one known in advance, a commitment mask the protocol does not hand out, or the "
     "keys with which it protects a session.",
     ["inputs", "histories", "fault_sequences"],
     "All messages a host can send, all failures, all mixtures of sessions on a device.",
     "Tests compare results of honest sessions; nothing searches what is sent.",
     [T + "tsx_sign_builder.py", T + "key_image_sync.py", TOK, "monero_glue/xmr/mlsag2.py"],
     [("encryption of stored values", T + "tsx_sign_builder.py"), ("signature nonces", "monero_glue/xmr/mlsag2.py")],
     "every answer of seeded honest, malicious and faulty runs searched for secrets known or recognised by their public points",
     "Secrets are recognised verbatim, as scalars or as text; information flow is not measured." + TRUST)

prop("C12", "Wallet files read back exactly what was written or are refused",
     "Every file the host keeps or exchanges (watch-only wallet keys, unsigned and signed transaction sets, exported "
     "outputs, the agent's account) reads back exactly as written with the right key or password; a damaged, cut or "
     "foreign file or a wrong key is refused and never yields other content; nonces are never repeated, and when "
     "randomness fails no file is written.",
     ["inputs", "fault_sequences"],
     "All wallets and sets of the format, all damage of the stored bytes, keys and passwords, all failures of the "
     "random source. Excluded: parts of a file which its format does not authenticate.",
     "Tests read a few recorded files and never a damaged one.",
     ["monero_glue/xmr/wallet.py", "monero_poc/agent.py", "monero_glue/xmr/enc/chacha.py",
      "monero_glue/xmr/enc/chacha_poly.py"],
     [("wallet formats", "monero_glue/xmr/wallet.py"), ("account file", "monero_poc/agent.py open_account, save_account")],
     "real writers and readers over simulated storage with seeded damage and a failing random source, against an "
     "independent reader and writer",
     "One to four files of generated wallets per run." + TRUST)

prop("C13", "A crash or disk error never loses an account or a handed out transaction",
     "If the process is killed, the power fails or the disk fails or is full at any point while an account or wallet "
     "is created, opened or a transaction is signed, then starting again with the same inputs works and gives the same "
     "keys, what was reported as done is still there and complete, and the data belonging to a transaction that was "
     "handed out is durable.",
     ["crash_points", "fault_sequences", "histories"],
     "All crash and fault points of the programs' disk operations, all subsets of unsynced data lost, repeated crashes.",
     "No test interrupts a write.",
     ["monero_poc/agent.py", "monero_poc/trezor.py", "monero_glue/xmr/wallet.py"],
     [("account files", "monero_poc/agent.py save_account, ensure_watch_only"), ("transaction data", "monero_poc/agent.py"),
      ("server wallet", "monero_poc/trezor.py create_wallet, open_account")],
     "agent and device server on a simulated disk with kills, power loss, torn writes, full disk and I/O errors",
     "Account creation and signing with up to three disturbed starts; the disk model keeps what was synced." + TRUST)

prop("C18", "The restore height is the confirmed one; a date never skips that day's blocks",
     "A new watch-only wallet restores from exactly the height the user confirmed; a height found for a date is shown "
     "before, comes from the daemon the user named, and skips no block of that date or later (nor is it more than some "
     "days too early), whatever the chain's length, block times and gaps, while the chain grows or reorganises and "
     "requests fail; a date or entry which cannot be resolved is never taken as a height.",
     ["inputs", "histories", "fault_sequences"],
     "All chains with block times out of order by a bounded amount, all entries, growth, reorganisations and daemon faults "
     "between any two requests. Excluded: a daemon lying about block times.",
     "No test runs the search or the dialog.",
     ["monero_glue/xmr/wallet.py", "monero_glue/xmr/daemon_rpc.py", "monero_poc/agent.py"],
     [("search", "monero_glue/xmr/wallet.py get_blockchain_height_by_date"), ("dialog", "monero_poc/agent.py wallet_restore_param"),
      ("daemon client", "monero_glue/xmr/daemon_rpc.py")],
     "wallet creation against a simulated daemon whose chain grows and reorganises, with HTTP faults and a scripted user",
     "Chains of up to three million blocks, one to four entries per run." + TRUST)

prop("C21", "One-time secrets are never used twice, even across reboots or twin devices",
     "No nonce, blinding value, transaction key, session key or ciphertext a device or the host's prover emits ever occurs "
     "twice: not in two sessions, not after a reboot, not on a second device with the same seed or memory image, even "
     "when the very same transaction is signed again; they depend on the hardware's randomness only.",
     ["histories", "crash_points"],
     "All sequences of complete and broken off sessions over several boots from one memory image.",
     "Tests sign once and with fixed randomness.",
     [TOK, T + "tsx_sign_builder.py", "monero_glue/xmr/bulletproof.py", "monero_glue/xmr/mlsag2.py",
      "monero_glue/protocol/key_image_sync.py"],
     [("blinding values", "monero_glue/xmr/bulletproof.py"), ("signature nonces", "monero_glue/xmr/mlsag2.py"),
      ("session keys", T + "tsx_sign_builder.py")],
     "the device booted several times from one forked memory image with different hardware randomness, all emitted values and "
     "recovered signature nonces compared",
     "Two or three boots with one or two sessions each per run." + TRUST)

prop("C25", "The agent supervises its wallet process: right command, secrets, state and end",
     "The agent starts monero-wallet-rpc with exactly the intended arguments whatever the file names contain, gives the "
     "secrets only through standard input with an unguessable RPC password, lets commands through exactly while the "
     "wallet serves, whatever it prints and whenever it crashes, and ending the session at any moment ends the process and "
     "the agent within bounded time; the user's own running wallet is used as given and never stopped.",
     ["schedules", "histories", "fault_sequences"],
     "All thread schedules, process timings, output cuts, crashes, failed forks, HTTP faults and moments of leaving.",
     "No test starts the wallet thread.",
     ["monero_poc/agent.py", "monero_poc/utils/misc.py", "monero_glue/xmr/wallet_rpc.py"],
     [("wallet thread", "monero_poc/agent.py wallet_rpc_main"), ("shutdown", "monero_poc/agent.py shutdown_rpc"),
      ("quoting", "monero_poc/utils/misc.py escape_shell")],
     "agent threads preempted at source lines against a simulated process in virtual time",
     "Sessions of up to a minute of virtual time; the process library (sarge) is a model." + TRUST)

NA = []


def na(pid, title, statement, over, quant, why, files, mech, reason):
    P.append(dict(id=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  technique=None, note=None, state=(), observe=()))
    NA.append({"property": pid, "reason": reason})


na("N01", "Addresses and base58 decode to what was encoded and damage is rejected",
   "Encoding and decoding of addresses is inverse for every key pair and network, and a damaged address is rejected.",
   ["inputs"], "All key pairs, networks and damaged strings.", "Tests use a few recorded addresses.",
   ["monero_glue/misc/b58_mnr.py", "monero_glue/xmr/crypto.py"], [("checksum", "monero_glue/misc/b58_mnr.py")],
   "pure function without state, concurrency, time, I/O or peers: there is no schedule or fault to simulate")
na("N02", "Mnemonic seeds restore the wallet they were made from",
   "Every wallet seed turned into words and back, in every supported word list, gives the same keys.",
   ["inputs"], "All seeds and word lists.", "Tests use a few recorded seeds.",
   ["monero_glue/xmr/core/mnemonic.py"],
   [("word list coding", "monero_glue/xmr/core")],
   "pure function without state, concurrency, time, I/O or peers: there is no schedule or fault to simulate")
na("N03", "The elliptic curve back ends compute the same values",
   "The pure Python and the C back end give the same result for every operation and input.",
   ["inputs", "configurations"], "All inputs of all operations.", "Tests compare recorded vectors.",
   ["monero_glue/xmr/core/ec_py.py", "monero_glue/xmr/core/ec_trezor.py"], [("back end interface", "monero_glue/xmr/core")],
   "pure functions compared with each other: an input-space question with no environment to simulate")


def main():
    have = set()
    d = os.path.join(HERE, "sim", "props")
    for f in os.listdir(d):
        if f.startswith("c") and f[1:-3].isdigit():
            have.add(f[:-3].upper())
    ids = [p["id"] for p in P]
    assert len(ids) == len(set(ids))
    assert have == set(p["id"] for p in P if p["technique"]), have ^ set(p["id"] for p in P if p["technique"])
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            for x in p["files"]:
                assert os.path.exists(os.path.join("/repo", x)), (p["id"], x)
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                            "mechanism": [dict(zip(("name", "where"), m)) for m in p["mech"]],
                            "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": [], "not_applicable": NA,
         "notes": "No hooks in /repo: every seam used exists (wire interface, connector, file system calls, module "
                  "level random source). See DESIGN.md."}
    for p in P:
        if not p["technique"]:
            continue
        m["checks"].append({
            "property": p["id"],
            "quick_cmd": "python3 -m sim.check %s --tier quick" % p["id"],
            "thorough_cmd": "python3 -m sim.check %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": TECH + p["technique"], "level": "exploration", "level_note": p["note"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
