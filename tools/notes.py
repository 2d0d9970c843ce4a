NA = {}
NOTES = {
 "C01": "Chain.tla/MCVote: all vote sequences from a fresh protocol up to a round bound on shortened windows, with an "
        "independent history of proposals and approvals as oracle for the bookkeeping; each transition replayed through pre_check.",
 "C02": "Chain.tla/MCHeader: every single deviation from each valid successor of a set of previous headers (all header "
        "fields, 64-bit timestamp edges), plus random multi-deviation chains.",
 "C03": "Chain.tla/MCAsm: in every upgrade state reachable within the bound, blocks assembled against the wall clock, "
        "judged by the specification and by the successor check.",
 "C04": "Rewards.tla/MCRewards: all histories of a few rounds over edge pools, units and rates in 64-bit arithmetic; longer "
        "random histories validated.",
 "C05": "Account.tla/MCAccount, MCMinBal: updates, balance changes, stake and minimum balances over edge amounts; random histories.",
 "C24": "Teal.tla/MCTeal: all deltas of up to two entries around the limits, conversions, schema totals at both ends of their range.",
 "C06": "TxRules.tla/MCTxRules: for every transaction kind, valid transactions with every single deviation (all limits at their edges, "
        "every role of address, fees, windows, wide characters) under several protocols; random transactions and random protocols validated.",
 "C07": "Refs.tla/MCRefs (live): all combinations of windows, rounds, genesis ID and hash, protocol support; random ones validated.",
 "C25": "Refs.tla/MCRefs (refs): touched addresses of every kind, and every lookup in every list up to a length, by index and by entry; "
        "inversion checked in the specification; random longer lists validated.",
 "C08": "Payset.tla/MCPayset (entries): all sequences of group IDs to a length, all combinations of genesis fields, flags, headers and "
        "protocols, with round trip and uniqueness checked in the specification; random blocks validated.",
 "C09": "Payset.tla/MCPayset (commit): lists and all single edits of them, every single field change of every kind, both commitment "
        "plans, proofs of every entry claimed for every entry and place; random longer lists validated.",
 "C10": "MerkleArray.tla/MCMerkleArray: hashes as terms; arrays to a size, every subset of positions, every single tampering; soundness "
        "against a declarative acceptance rule; random larger arrays and paths of up to 66 levels validated.",
 "C18": "Payset.tla/MCPayset (fees): groups to a size over fees and minimum fees at the edges of 64 bits; random groups of up to 16.",
 "C11": "Trie.tla/MCTrie: the storage failing at every access of every operation on small tries; every set over a small universe of strings sharing prefixes with every choice of stale inner nodes; every "
        "transition replayed on all storages, roots named by the set of which a new trie has them; random histories validated.",
 "C12": "Ots.tla, OtsKeys.tla/MCOts: every deletion point from every reachable key set, snapshots and reloads of both copies, every mixture "
        "of the parts of two signatures against every identifier; random long histories up to the ends of 64 bits validated.",
 "C13": "Part.tla/MCPart (one, two): every history of generating, deleting, re-parenting, saving, restarting (the process is killed) and "
        "restoring on small ranges and dilutions; votable rounds probed after every step; random histories validated; the process is also "
        "ended at every point of storing, deleting and opening where it changes a file (or after part of the change), and the next "
        "process must find the key as before or as after.",
 "C14": "Part.tla/MCPart (manager): every registry of up to two keys with duplicate and differing identities, all queries, all headers and "
        "signature tables up to a round; random histories, with the stored key restored afterwards, validated.",
 "C15": "Multisig.tla/MCMultisig (verify, merge): every key list, threshold and choice of filled, absent, foreign and corrupted subsignatures to a "
        "size, both verifiers, all contributions and mergings of two and three copies; random larger multisignatures validated.",
 "C16": "Batch.tla/MCBatch: every history of queueing valid and differently invalid triples and verifying to a length; random long ones at "
        "pre-allocation edges validated.",
 "C17": "Sortition.tla, Cred.tla/MCCred: selection for all small stakes, totals and committee sizes at every step of the exact distribution, "
        "large ones in high-precision arithmetic; every substitution of key, selector, account, rule; tie-breaks of random credentials.",
 "C19": "Text.tla, SHA512.tla/MCText: addresses, mnemonics and other texts with every single alteration of character, word, length and padding; "
        "checksums computed in the specification; random keys and texts validated.",
 "C20": "Params.tla/MCParams (merge, files): all tables over three linked versions merged with all choices of deletions, additions and "
        "replacements; all histories of saving, loading, spoiling and removing the file; random tables over all versions; the built-in table's upgrade edges.",
 "C27": "Conf.tla/MCConf (files, books, names): all histories of writing, saving, cutting, spoiling and loading settings, phonebooks and the global "
        "directory; every setting alone; key file names composed of all pieces; random histories validated.",
 "C21": "Algokey.tla/MCAlgokey (keys, sign, part): the tool is run as users run it, on every reachable directory of key files, transactions and "
        "participation keys, with valid and spoilt files, mnemonics and ranges; exit, output, files and their modes compared; random histories validated.",
 "C22": "Codec.tla/MCCodec (singles, across, squares, cuts): objects of every type as assignments of values to fields; every single field changed "
        "from several base objects, every pair of fields, maps built in several orders, every truncation; random lists of equal and nearly equal objects validated.",
 "C23": "Genesis.tla/MCGenesis (rates, grow, files): blocks over all protocol settings and pool balances around the minimum balance and interval "
        "multiples, first blocks assembled on each; files written, spoilt and loaded; random configurations validated.",
 "C28": "Kinds.tla/MCKinds: marks checked prefix-free in the specification; objects of every kind hashed, contents of free kinds chosen to imitate "
        "every other, every signature and proof of an object checked against objects of every kind; random ones validated.",
 "C29": "Rounds.tla/MCRounds: all pairs of numbers around zero, the ends of 64 bits and fractions of them, with the defining equations checked in the "
        "specification; random numbers validated.",
 "C30": "History.tla/MCHistory, composed of Chain.tla's successor rules and commitments, with a digest modelled as the list of all headers before it: "
        "all chains of up to four blocks across an upgrade (from protocols with flat and Merkle commitments), every alteration of a header field, entry or "
        "block, with the rest left, recommitted or rebuilt, and every receipt; random longer chains validated.",
 "C26": "Vrf.tla/MCVrf (pairs, altered, strange, outputs): every pairing of keys, messages and proofs, every single byte altered, torsion points and "
        "non-points as keys and proof parts, outputs of all proofs of a message; random ones validated.",
}
