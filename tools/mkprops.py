#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source: the table below)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

BLK = "src/data/bookkeeping/block.rs"
NOTEST = "The repository has no test at all for this module; "

p("C01", "Protocol upgrades happen only by an approved vote, on schedule",
  "Along every chain of accepted blocks the protocol in force changes only to a version that was proposed while no other proposal was pending, only at the round fixed when it was proposed (vote window plus the announced delay, which lies within the limits of the protocol in force, zero meaning that protocol's default delay), and only if at least the threshold number of blocks before the vote deadline approved it. "
  "A proposal short of the threshold is dropped exactly at its deadline, and nothing else alters the vote state. "
  "A vote that proposes over a pending proposal, announces a delay outside the limits, gives a delay without proposing, or approves when nothing is pending or at or after the deadline makes the block invalid.",
  ["histories", "configurations"],
  "All sequences of block votes (propose / approve / abstain / malformed) from any reachable vote state, under any upgrade parameters of the protocol in force.",
  NOTEST + "voting spans thousands of rounds, so only a state-machine exploration with scaled-down windows reaches deadlines, thresholds, lingering approval and switch-over.",
  [BLK, "src/data/bookkeeping/errors.rs", "src/protocol/consensus.rs"],
  [("upgrade vote application", BLK), ("next version query", BLK), ("own vote choice", BLK)],
  state=[("upgrade state", "current version, pending version, approvals, vote deadline, switch round", BLK)],
  observe=["result of checking a successor header", "upgrade state of the accepted header", "next-version query"])

p("C02", "A header is accepted as successor exactly when the chain rules hold",
  "A block header is accepted as the successor of a block of a chain (whose round is not the largest representable) exactly when its round is one more, it names the previous header's digest, its upgrade state is the one its vote produces, its timestamp is not before the previous one nor more than the protocol's allowed increment after it (unless the previous timestamp is zero), its genesis ID is present and equal to the previous one when that is set, and its genesis hash obeys the same rule when the protocol supports it and is absent otherwise. "
  "Every other header is refused with an error rather than a crash. "
  "Checking changes neither header, and checking again gives the same answer.",
  ["inputs", "histories"],
  "All pairs of headers over the boundary values of each field (one-field and multi-field deviations), including repeated checks and chains of checks.",
  NOTEST + "acceptance is a conjunction over many fields whose combinations and boundaries a handful of examples cannot cover.",
  [BLK, "src/data/bookkeeping/errors.rs"],
  [("successor header check", BLK)],
  observe=["accept/reject of the check", "both headers before and after"])

p("C03", "A block the node assembles itself is always acceptable to its peers",
  "For every valid previous header (with a genesis hash if the protocol it leads to needs one), the block a node assembles on top of it passes the successor check, carries an empty transaction list with the matching commitment, keeps the genesis identity and special reward addresses, and has a timestamp within the allowed window. "
  "It proposes an upgrade only when none is pending and only to an upgrade the protocol in force approves, with the delay that protocol prescribes, and approves a pending proposal before its deadline exactly when the protocol in force approves that version. "
  "Assembling does not change the previous header, so any number of blocks can be assembled and checked on the same parent.",
  ["histories", "configurations", "inputs"],
  "All reachable previous headers under any approved-upgrade table, any clock relation between parent timestamp and now, and chains of locally assembled blocks through full upgrade cycles.",
  NOTEST + "agreement between the assembling and the validating side is a relation over all upgrade states and clock offsets.",
  [BLK, "src/data/bookkeeping/tx_merkle.rs"],
  [("block assembly", BLK), ("own vote choice", BLK), ("successor header check", BLK)],
  observe=["assembled block", "result of checking it against its parent"])

p("C04", "Reward distribution conserves money and never overspends the pool",
  "For every representable round and nonzero refresh interval, the reward level never decreases, and the amount released (level increase times reward units, plus the new residue) equals exactly the per-round rate plus the old residue; with no reward units, or when the next level cannot be represented, level and residue stay unchanged. "
  "The rate changes only at the recalculation round, where it becomes the pool balance less what must remain in it (minimum balance, plus pending residue if the protocol says so), divided over the refresh interval, and zero if the pool cannot cover it; so the rewards promised for an interval never exceed the spendable pool. "
  "The special addresses never change, and no input crashes the computation.",
  ["inputs", "histories", "configurations"],
  "All reward states, pool balances and unit totals including the limits of 64-bit arithmetic, and all histories of rounds across several recalculations.",
  NOTEST + "the invariant is arithmetic over unbounded histories and the extreme ends of 64-bit amounts.",
  [BLK], [("next rewards state", BLK)],
  state=[("rewards state", "level, rate, residue, recalculation round, special addresses", BLK)],
  observe=["rewards state returned for the next round"])

p("C05", "Account rewards, minimum balance and stake follow the ledger rules",
  "Bringing an account up to a reward level adds exactly (level minus the level it last reflected) for each whole reward unit of its balance to the balance and, wrapping, to its lifetime rewards, records the new level, leaves non-participating accounts unchanged, never compounds between updates, and a second update to the same level adds nothing. "
  "The required minimum balance is the base amount per account and per held asset, plus the per-created-app, per-opted-in-app, per-extra-page and schema charges, never wrapping around on overflow. "
  "Only online accounts carry voting stake or a normalized balance, the latter being the balance scaled to reward level zero with rounding down for every representable balance.",
  ["inputs", "histories"],
  "All account contents and reward levels (at or above the account's last level, the updated balance still being representable), including amounts near the limits of 64-bit arithmetic, and histories of interleaved updates and balance changes.",
  "The existing tests sample four balances and four levels; minimum balance, stake and normalized balance are untested, and overflow ends are not reached.",
  ["src/data/basics/user_balance.rs", "src/data/basics/teal.rs", "src/data/basics/units.rs"],
  [("pending rewards", "src/data/basics/user_balance.rs"), ("minimum balance", "src/data/basics/user_balance.rs"), ("normalized balance", "src/data/basics/user_balance.rs"), ("schema charges", "src/data/basics/teal.rs")],
  observe=["updated account", "money, minimum balance, voting stake, normalized balance"],
  hook="expose the account computations that are private to the crate")

p("C06", "A transaction is well-formed exactly when every rule of its kind holds",
  "For every transaction and protocol, the stand-alone check accepts exactly when all common rules (fee at least the minimum unless fees are pooled or the kind is exempt, ordered and bounded validity range, note size, non-zero sender that is not the rewards pool, leases, groups and rekeying only where supported) and all rules of its kind (payments, key registration, assets, applications, compact certificates) hold, limits being inclusive. "
  "Every other transaction is refused with an error; no transaction makes the check crash.",
  ["inputs", "configurations"],
  "All combinations of boundary values (just inside, at, just outside) of each limit for each transaction kind, under protocols with each feature on and off.",
  "The tests exercise a handful of key-registration and fee cases; the rule table has several dozen independent limits and feature flags whose boundaries and combinations are unsampled.",
  ["src/data/transactions/transaction.rs", "src/data/transactions/keyreg.rs", "src/data/transactions/payment.rs", "src/data/transactions/compactcert.rs"],
  [("well-formedness check", "src/data/transactions/transaction.rs"), ("key registration coherency", "src/data/transactions/keyreg.rs"), ("fee sink spending rule", "src/data/transactions/payment.rs")],
  observe=["accept/reject of the check"])

p("C07", "A transaction is live only in its own round window and on its own chain",
  "A transaction may enter a block only in rounds from its first to its last valid round inclusive, only if its genesis ID is absent or equal to the block's, and only if its genesis hash is absent or equal to the block's where the protocol supports it (and not required there), and absent where it does not. "
  "In every other context it is refused with an error.",
  ["inputs", "configurations"],
  "All relations of round to window, of both genesis values to the context's, and all settings of the two protocol flags.",
  "No existing test drives this check over the flag combinations or the window edges.",
  ["src/data/transactions/transaction.rs"],
  [("liveness check", "src/data/transactions/transaction.rs")],
  observe=["accept/reject of the check"], hook="expose the liveness check, which is private")

p("C08", "Splitting a payset into groups and block encoding of transactions are lossless",
  "Splitting a list of transactions into groups keeps every transaction exactly once and in order, puts neighbours into one group exactly when they carry the same non-zero group ID, and flattening the groups gives the list back. "
  "Storing a signed transaction in a block and reading it back yields the same transaction with its genesis fields for every protocol; a transaction of another chain is refused when stored, and an entry that redundantly or illegally spells out genesis fields is refused when read, so where the protocol strips genesis fields no two distinct entries of a block (of a header with genesis ID and hash) read back as the same transaction.",
  ["inputs", "configurations"],
  "All sequences of group IDs up to the bound (zero, equal, interleaved) and all combinations of genesis fields, flags and protocol settings.",
  NOTEST + "losslessness and uniqueness of the stored form are statements about all inputs.",
  [BLK, "src/data/transactions/signed_tx.rs"],
  [("group splitting", BLK), ("store in block / read from block", BLK)],
  observe=["groups", "stored entry", "transaction read back"])

p("C09", "The header's commitment binds the block's exact transaction list",
  "A block's contents match its header exactly when the stored transaction list is the one the header's commitment was computed for: changing, adding, dropping, duplicating or reordering any entry, or any field of an entry including its genesis flags and applied effects, breaks the match. "
  "For protocols committing by tree, each transaction can be proven against that commitment at its own position and at no other. "
  "Equal lists always give equal commitments.",
  ["inputs", "histories", "configurations"],
  "All small transaction lists and all single edits of them, under both commitment plans; repeated commitments of equal lists.",
  NOTEST + "binding is a statement about every pair of different lists.",
  [BLK, "src/data/bookkeeping/tx_merkle.rs", "src/data/transactions/payset.rs", "src/data/transactions/signed_tx.rs", "src/crypto/merklearray/merkle.rs"],
  [("payset commitment", BLK), ("tree leaf", "src/data/bookkeeping/tx_merkle.rs"), ("flat commitment", "src/data/transactions/payset.rs")],
  observe=["commitment", "contents-match-header answer", "proof verification"], hook="expose the contents-match-header check, which is private")

p("C10", "Merkle array proofs are complete and sound",
  "For every array and every set of its positions, the proof produced for that set verifies against the array's root with exactly those elements, and asking for a position outside the array is an error. "
  "Verification rejects if any claimed element, position, proof hash or the root differs, if an element or hash is missing, extra or reordered, and for an empty tree accepts only the empty claim; it never crashes. "
  "The root is the Algorand hash tree of the elements in order.",
  ["inputs"],
  "All array sizes up to the bound, all position subsets, and all single tamperings (element, position, hash, root, insertion, deletion, swap) of each proof.",
  "The tests verify full-set proofs and one tampering pattern per size; they do not enumerate subsets or the possible forgeries.",
  ["src/crypto/merklearray/merkle.rs", "src/crypto/merklearray/partial.rs", "src/crypto/merklearray/layer.rs"],
  [("tree build, prove, verify", "src/crypto/merklearray/merkle.rs"), ("partial layer walk", "src/crypto/merklearray/partial.rs"), ("layer hashing", "src/crypto/merklearray/layer.rs")],
  observe=["root", "proof", "verification result"])

p("C11", "The Merkle trie is a set with a history-independent root",
  "After any history of additions and removals the trie answers each addition with whether the element was new and each removal with whether it was present, exactly as a set would; and its root hash depends only on the current set of elements, differs between different sets, and is the zero hash when the set is empty. "
  "An element whose length differs from the first one's is refused without changing the trie, an operation that fails for such a reason changes nothing, and storage holds no nodes beyond those of the current set. "
  "When a storage access fails the operation reports an error rather than success or a crash, root computations and additions and removals that change nothing leave everything as it was, and stored bytes that are no node are reported, never crashed on.",
  ["histories", "inputs", "fault_sequences"],
  "All histories of adds and removes over small element universes sharing prefixes (exhaustively to a depth, randomly beyond), including repeated, missing and wrong-length elements.",
  "The tests add and delete a few fixed patterns; history independence and node reclamation quantify over all histories.",
  ["src/crypto/merkletrie/trie.rs", "src/crypto/merkletrie/node.rs", "src/crypto/merkletrie/storage.rs", "src/crypto/merkletrie/bitset.rs", "src/crypto/merkletrie/cache.rs"],
  [("add / remove", "src/crypto/merkletrie/trie.rs"), ("node split / collapse", "src/crypto/merkletrie/node.rs"), ("node store", "src/crypto/merkletrie/storage.rs"), ("child set", "src/crypto/merkletrie/bitset.rs")],
  state=[("trie root and node store", "tree of nodes over byte strings of one length", "src/crypto/merkletrie/trie.rs")],
  observe=["add/remove answers", "root hash", "node statistics"])

p("C12", "One-time signing keys are forward secure and cannot be misused",
  "A one-time key set signs verifiably for exactly the identifiers it still covers: initially every offset of every generated batch, and after deleting up to a point, only identifiers at or after that point that were covered before; a deleted or never-covered identifier yields no verifying signature, however often deletion is repeated, skipped ahead or asked to go back. "
  "A signature verifies only for its own batch, offset, message and master key, and tampering any part of it makes verification fail. "
  "After deletion the secrets of deleted identifiers are absent from the key set and its saved snapshots, while snapshots taken and restored sign exactly what the original could at that time.",
  ["histories", "inputs", "crash_points"],
  "All interleavings of sign, delete-up-to, snapshot and restore on small two-level key sets, with targets before, inside, at the end of and beyond the key range.",
  "The tests follow one linear schedule of deletions; forward security is a safety property over all histories.",
  ["src/crypto/ots.rs"],
  [("two-level signing", "src/crypto/ots.rs"), ("deletion up to an identifier", "src/crypto/ots.rs"), ("snapshot", "src/crypto/ots.rs"), ("verification", "src/crypto/ots.rs")],
  state=[("key set", "first batch, batch keys, first offset, offset keys", "src/crypto/ots.rs")],
  observe=["verification of produced signatures", "public counters", "saved snapshot"])

p("C13", "Participation keys survive restarts exactly and never come back once deleted",
  "A participation key that was generated or saved is restored after a restart with the same parent, selection key, voting key, validity range and dilution, and can vote for exactly the rounds it could before; changing the parent is durable and changes nothing else. "
  "Once keys older than a round were deleted, neither the live key nor any later restored copy can vote in an earlier round, while all rounds from there to the last valid round remain votable. "
  "When the process ends at any point of an operation, what is restored afterwards is what was stored before it or after it, never a mixture, and an inverted round range, or restoring when nothing was saved, is an error rather than a crash; a registration transaction carries exactly the key's own public keys, range, dilution and parent.",
  ["histories", "crash_points", "inputs"],
  "All histories of generate, restart, restore, re-parent, and delete-before-round on small ranges and dilutions, with the process ending after any operation and at every point in one where it changes a file.",
  NOTEST + "durability and non-resurrection quantify over restart points and histories.",
  ["src/data/account.rs", "src/crypto/ots.rs", "src/data/basics/units.rs"],
  [("save / restore", "src/data/account.rs"), ("deletion of old keys", "src/data/account.rs"), ("round to key identifier", "src/data/basics/units.rs")],
  state=[("key store", "durable parent, selection key, voting keys, range, dilution", "src/data/account.rs")],
  observe=["restored key", "rounds it can sign for", "registration transaction"])

p("C14", "The account manager registers each key once and deletes only what is spent",
  "The manager reports a newly added key as added exactly when no key with the same address, range and public keys is present; its lists of keys for a round and its answer about live keys in a range contain exactly the registered keys whose inclusive validity range meets it. "
  "After processing a block, each key can no longer vote for rounds before the next one it may still need (the next round, or the next unsigned compact certificate's round if earlier) and can still vote from there on, whether or not certificates are active or the account has signed any.",
  ["histories", "inputs"],
  "All histories of adding keys with overlapping and duplicate identities, queries at range edges, and block headers with and without compact-certificate state and signatures.",
  NOTEST + "registry and retention rules quantify over histories of several keys and headers.",
  ["src/data/account_manager.rs", "src/data/account.rs"],
  [("registry", "src/data/account_manager.rs"), ("retention rule", "src/data/account_manager.rs")],
  state=[("registered keys", "map from key identity to key", "src/data/account_manager.rs")],
  observe=["add result", "listed keys", "live-key answer", "rounds each key can still sign for"], hook="expose the manager, which is private")

p("C15", "Multisignatures verify exactly when the threshold is genuinely met",
  "A multisignature verifies exactly when its version is known, its threshold is between one and the number of keys, its keys, threshold and version in order hash to the claimed address, at least threshold signatures are present, and every present signature is valid for its key and the message. "
  "Signing alone, assembling, adding and merging preserve keys, threshold and version, keep exactly the union of the contributed signatures, refuse mismatched keys, versions or thresholds and (when adding or merging) conflicting signatures, and do not depend on the order of contributions when these agree (the outcome of a refused addition being unspecified). "
  "Distinct (version, threshold, key list) triples have distinct addresses.",
  ["inputs", "histories"],
  "All small key lists (including duplicates), thresholds and versions, and all histories of sign, assemble, add and merge with matching, mismatching, forged and conflicting parts.",
  "The tests follow a 3-of-4 happy path and a few failures; combining operations in arbitrary orders and with conflicting parts is unsampled.",
  ["src/crypto/multisig.rs", "src/crypto/batch_verifier.rs"],
  [("address derivation", "src/crypto/multisig.rs"), ("sign / assemble / add / merge", "src/crypto/multisig.rs"), ("verification", "src/crypto/multisig.rs")],
  observe=["verification result", "resulting multisignature"], hook="expose the private multisignature operations")

p("C16", "Batch verification accepts exactly when every single signature is valid",
  "A batch accepts exactly when it holds at least one signature and each queued (key, message, signature) triple is valid on its own; one bad triple at any position, with any mix of keys, messages and signatures of other entries, makes it reject. "
  "The reported queue length is the number queued, verifying is repeatable, and queueing more afterwards is judged together with everything queued before.",
  ["inputs", "histories"],
  "All histories of queueing valid and invalid triples (wrong key, wrong message, other entry's signature, corrupted bytes) and verifying, up to the bound and at pre-allocation edges.",
  "The tests corrupt one entry of a batch; histories of interleaved queueing and verifying and cross-entry mixes are unsampled.",
  ["src/crypto/batch_verifier.rs"],
  [("queue and verify", "src/crypto/batch_verifier.rs")],
  observe=["verification result", "queue length"])

p("C17", "Committee credentials are sound and selection is monotone in luck",
  "A credential verifies only with the selection key that made it, for the same selector, and its weight is the number of the account's stake units selected: between one and its voting stake, zero-weight and offline accounts being refused, and never decreasing when the selection hash grows; it equals the smallest count whose binomial cumulative probability reaches the hash's fraction, within the precision of floating-point numbers. "
  "Selection depends on the account's address and the random output, so accounts or outputs differ in their selection hash whichever hashing rule the protocol uses. "
  "The tie-break value is the minimum over all of the credential's weight many sub-tickets, the same every time it is asked, and orders credentials strictly.",
  ["inputs", "configurations"],
  "All stakes up to a bound against hash fractions at every probability step, both hashing rules, every weight up to a bound, and all substitutions of key, selector and address.",
  "The committee tests are commented out; the one sortition test is a statistical average over random hashes.",
  ["src/data/committee/credential.rs", "src/data/committee/sortition.rs", "src/data/committee/mod.rs"],
  [("credential verification", "src/data/committee/credential.rs"), ("binomial walk", "src/data/committee/sortition.rs"), ("tie-break", "src/data/committee/credential.rs")],
  observe=["verification result and weight", "selection count", "tie-break value and order"], hook="expose the private credential operations")

p("C18", "Group fee credit is exactly what was overpaid",
  "For every transaction group and minimum fee, the credit is the sum of all fees (capped at the largest amount) minus the minimum fee for every transaction that is not a compact certificate. "
  "A group whose fees fall short, or whose requirement cannot be represented, is refused with an error; nothing crashes.",
  ["inputs"],
  "All small groups mixing fee-paying and certificate transactions with fees at, below and above the minimum and at the limits of 64-bit amounts.",
  NOTEST + "the rule involves capping and overflow at the ends of the amount range.",
  ["src/data/transactions/signed_tx.rs"], [("fee credit", "src/data/transactions/signed_tx.rs")],
  observe=["credit or error"])

p("C19", "Textual forms of addresses, hashes and mnemonics are strict and lossless",
  "Every address, hash and key prints to one text form that parses back to the same value, and that form is the Algorand one (unpadded base-32 with a four-byte checksum for addresses, twenty-five words with a checksum word for keys). "
  "Every other text is refused with an error and never crashes or panics: wrong length, wrong alphabet, wrong checksum, non-canonical trailing bits or extra data, unknown word or wrong word count.",
  ["inputs"],
  "All single-symbol substitutions, insertions, deletions, truncations, extensions and re-checksummed corruptions of valid texts, and round trips of boundary and random values.",
  "The tests check a few malformed strings; strictness quantifies over all strings.",
  ["src/data/basics/address.rs", "src/crypto/hashable.rs", "src/crypto/mnemonic.rs", "src/data/transactions/transaction.rs"],
  [("address text", "src/data/basics/address.rs"), ("hash text", "src/crypto/hashable.rs"), ("mnemonic", "src/crypto/mnemonic.rs")],
  observe=["printed text", "parse result"])

p("C20", "Consensus parameter sets merge, save and reload consistently",
  "Merging a parameter table into another replaces or adds every given version, removes the versions marked deleted together with every upgrade path leading to them, leaves all others as they were, and does so the same way every time, whatever the deletions' order. "
  "Saving a table and loading it back yields the same table merged over the defaults; saving an empty table removes the file, and a missing file loads the defaults. "
  "In the built-in table every approved upgrade names a version of the table whose prescribed delay lies within the limits of the version it is approved from, and upgrade and committee thresholds are majorities of what they count.",
  ["inputs", "configurations", "histories"],
  "All merges of small tables over linked versions with additions, replacements and (multiple, linked) deletions; all save/load histories; every edge of the built-in upgrade table.",
  "The tests save and load one custom table; merging several linked deletions and repeated save/load are unsampled.",
  ["src/config/consensus.rs", "src/config/mod.rs"],
  [("merge", "src/config/consensus.rs"), ("save / load", "src/config/mod.rs")],
  state=[("parameter table", "map from version to parameters with approved upgrades", "src/config/consensus.rs")],
  observe=["merged table", "file on disk", "loaded table"])

p("C21", "Key tool commands round-trip keys and signatures",
  "A key generated to a file, exported to its mnemonic and imported from it gives the same key file and the same public address in every output; the secret key file is readable by its owner only. "
  "Signing a transaction file with a key file or its mnemonic writes a signed transaction that contains the unchanged transaction, a signature valid for that key, and names the key as authorizer exactly when it is not the sender. "
  "Participation key generation, information and re-parenting show consistent data across invocations, and bad input gives an error exit without altering the files.",
  ["histories", "inputs"],
  "All sequences of commands over a scratch directory with valid and invalid key files, mnemonics, transactions and ranges.",
  "No test runs the command-line tool.",
  ["src/bin/algokey/main.rs", "src/bin/algokey/generate.rs", "src/bin/algokey/export.rs", "src/bin/algokey/import.rs", "src/bin/algokey/sign.rs", "src/bin/algokey/part.rs"],
  [("commands", "src/bin/algokey")],
  observe=["exit status", "standard output", "files written"])

p("C22", "Canonical encoding is lossless and equal objects have equal identifiers",
  "Every transaction, signed transaction, in-block transaction, header, genesis and key structure decodes from its own encoding, and from nothing less of it, to an equal object. "
  "Equal objects encode, and therefore hash, identically no matter how they were built; objects differing in any field that belongs to their identity have different encodings and identifiers, and identifiers of different kinds of object never coincide because each kind's prefix is unique and no prefix begins another.",
  ["inputs", "histories"],
  "All single-field (and selected multi-field) variations of a base object of each kind, including default and empty values, and repeated encodings of objects with map-valued parts built in different orders.",
  "One test checks that an all-default structure encodes to one byte; no round trip or distinctness is tested.",
  ["src/protocol/codec.rs", "src/protocol/hash.rs", "src/crypto/hashable.rs", "src/data/transactions/signed_tx.rs", "src/data/transactions/transaction.rs", "src/data/transactions/teal.rs", "src/data/basics/address.rs", BLK],
  [("encode / decode", "src/protocol/codec.rs"), ("hash representation", "src/crypto/hashable.rs"), ("hash prefixes", "src/protocol/hash.rs")],
  observe=["encoded bytes", "decoded object", "identifiers"])

p("C23", "A genesis configuration determines one valid genesis block",
  "The genesis block of a configuration has round zero, no predecessor, the configured identity, timestamp, protocol and special addresses, an empty transaction list, its seed and (where supported) genesis hash taken from the genesis hash, and as its reward rate the initial rewards pool, less its minimum balance where the protocol requires keeping it, spread over one refresh interval and rounded down, due for recalculation after one interval. "
  "A node can assemble and accept a first block on it, a missing or malformed genesis file is an error rather than a crash, and a block answers for round, identity, seed, protocol and digest from its header, another seed changing nothing else.",
  ["inputs", "configurations"],
  "All protocol settings of the rate calculation and genesis hash support, and all pool balances around the minimum balance and interval multiples.",
  NOTEST + "the block depends on protocol flags and balances at boundaries.",
  ["src/data/bookkeeping/genesis.rs"],
  [("genesis block creation", "src/data/bookkeeping/genesis.rs")],
  observe=["genesis block", "acceptance of a first successor"], hook="expose genesis block creation, which is private")

p("C24", "Application state deltas and schemas are accounted exactly",
  "A state delta is valid exactly when every key and every set byte value is within the protocol's key, value and combined limits and no delta exists where keys are not allowed. "
  "Converting a stored value to a delta and back gives the value, deletions giving none; the schema of a key-value store counts each entry once under its type; and adding and subtracting schemas saturates, so totals never wrap.",
  ["inputs"],
  "All key and value lengths around each limit, all value kinds, and schema counts at the ends of their range.",
  NOTEST + "limits and saturation are boundary statements over all inputs.",
  ["src/data/basics/teal.rs"],
  [("delta validity", "src/data/basics/teal.rs"), ("schema arithmetic", "src/data/basics/teal.rs")],
  observe=["validity", "converted values", "schemas"])

p("C25", "Transactions resolve their addresses and references consistently",
  "The addresses a transaction touches are exactly its sender, the fee sink and, for payments and asset transfers, the receiver and any given close-to and clawback addresses; an address matches a transaction exactly when it is one of these. "
  "In an application call, index zero denotes the sender or the called app and index i the i-th listed one; resolving any listed entry to an index (its first one) and back gives that entry, and an index or entry not in the list is an error.",
  ["inputs"],
  "All transaction kinds with each optional address present or absent, and all index and entry lookups over short lists with duplicates.",
  NOTEST + "consistency of both directions is a statement about all lists and indices.",
  ["src/data/transactions/transaction.rs", "src/data/transactions/application.rs"],
  [("relevant addresses", "src/data/transactions/transaction.rs"), ("index resolution", "src/data/transactions/application.rs")],
  observe=["address list", "match answer", "resolved index or entry"], hook="expose the private lookups")

p("C26", "Verifiable random outputs are unique, reproducible and unforgeable",
  "A proof made with a key pair verifies under its public key for its own message and no other, and yields the same output every time, even from another valid proof, different messages or keys yielding different outputs. "
  "A proof altered in any byte, used with another key or message, or checked under a public key that is not a valid curve point or is of small order is refused with an error and never crashes.",
  ["inputs", "histories"],
  "All pairings of a set of keys, messages and proofs, and all single-byte alterations of proofs and public keys.",
  "The tests check specification vectors; substitution, alteration and invalid public keys are not enumerated.",
  ["src/crypto/vrf.rs"],
  [("prove", "src/crypto/vrf.rs"), ("verify", "src/crypto/vrf.rs")],
  observe=["verification result", "output"])

p("C27", "Node configuration files load, save and migrate without losing settings",
  "Settings saved to a data directory load back unchanged, values absent from the file keep their defaults (relays being archival always), and a missing or malformed file is an error rather than a crash. "
  "A saved phonebook loads back as the same list of relays. "
  "Only genuinely named key files are recognised as root or participation key files.",
  ["inputs", "histories"],
  "All subsets of overridden settings, malformed and missing files, and histories of save and load.",
  "The tests cover parts of saving and loading; phonebook entries and partial files are not checked.",
  ["src/config/mod.rs", "src/config/default.rs", "src/config/version.rs", "src/config/keyfile.rs"],
  [("load / save", "src/config/mod.rs"), ("key file names", "src/config/keyfile.rs")],
  observe=["loaded settings", "file on disk"], hook="expose the private loaders and file-name helpers")

p("C28", "Hashes and signatures of different kinds of objects never coincide",
  "What is hashed or signed for an object is the protocol's mark for its kind followed by its contents, hashed with SHA-512/256, and no mark begins another. "
  "So equal hashes mean the same object, no message, name, seed, tree node or application number can be chosen such that its bytes are those of an object of another kind, and a signature, one-time signature or VRF proof made for one object is valid for no other. "
  "Addresses derived from application numbers and special names are the hashes of those.",
  ["inputs"],
  "All pairs of kinds with chosen contents, and all signatures and proofs of sample objects checked against objects of every kind.",
  "The tests hash single objects; the separation of kinds is a statement about all pairs of objects, including chosen ones.",
  ["src/protocol/hash.rs", "src/crypto/hashable.rs", "src/crypto/ots.rs", "src/crypto/merklearray/layer.rs", "src/data/transactions/transaction.rs", "src/data/transactions/compactcert.rs", "src/data/basics/user_balance.rs", "src/data/bookkeeping/tx_merkle.rs"],
  [("marks", "src/protocol/hash.rs"), ("hash representation", "src/crypto/hashable.rs"), ("objects that are hashed", "src/data/transactions/transaction.rs")],
  observe=["hashed bytes", "hashes", "verification results"], hook="expose private hashed types")

p("C29", "Arithmetic on rounds, amounts and digests is exact over its whole range",
  "Subtracting rounds stops at zero, rounding up gives the least multiple not below the round, sums are exact and comparisons are those of the numbers, whenever the result fits into 64 bits. "
  "The one-time key of a round is its quotient and remainder by the dilution, and the leading part of a digest is its first eight bytes read from the lowest.",
  ["inputs"],
  "All pairs of numbers around zero, the ends of the range and its fractions.",
  "The tests check a few small numbers; intermediate overflow shows only near the ends of the range.",
  ["src/data/basics/units.rs", "src/crypto/hashable.rs"],
  [("rounds and amounts", "src/data/basics/units.rs"), ("digests", "src/crypto/hashable.rs")],
  observe=["results"], hook="expose private round arithmetic")

p("C30", "The digest of a block pins down the whole chain before it, contents included",
  "Whoever trusts only the digest of a chain's last block, and checks every block against its predecessor and its contents against its header, is shown the one history that digest was made from: any altered header field, transaction, signature or recorded effect, and any block left out, repeated, moved or cut off, is found, by the very next block unless everything after it was rebuilt too, and the true chain is never rejected. "
  "This holds for chains of received and self-made blocks across protocol upgrades, whose transactions are read back in their groups with their genesis. "
  "A proof that a transaction is in a block holds for that entry at that place only, in blocks with the same contents.",
  ["histories", "inputs"],
  "All chains of up to four blocks across an upgrade and every forgery of one header field, entry or block, with and without rebuilding what follows; longer random chains.",
  "The tests look at single headers and paysets; that nothing in a history can be exchanged depends on the chain rules, the hashes and the commitments together.",
  ["src/data/bookkeeping/block.rs", "src/data/bookkeeping/tx_merkle.rs", "src/data/bookkeeping/genesis.rs", "src/data/transactions/payset.rs", "src/crypto/hashable.rs", "src/crypto/merklearray/merkle.rs"],
  [("successor rules and contents", "src/data/bookkeeping/block.rs"), ("commitment to transactions", "src/data/bookkeeping/tx_merkle.rs")],
  observe=["verdicts of successor and contents checks", "digests", "verification of proofs", "groups read back"], hook="expose private contents check and genesis block creation")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    n = x["statement"].count(". ") + 1
    assert n <= 3, (x["id"], n)
open(out, "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
