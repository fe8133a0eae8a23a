#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. The single place where properties are worded."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique="", note="", level="model_checking"):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None),
        _tech=technique, _note=" ".join(note.split()), _level=level))

H, I, S, C, F = "histories", "inputs", "schedules", "crash_points", "fault_sequences"
BFS = "explicit-state model checking of the real code against a reference model"
DFS = "stateless model checking: exhaustive bounded choice enumeration on the real code vs reference model"

# ---------------------------------------------------------------- tree
prop("T01", "The state root is a function of the contents only",
 """After any sequence of puts, overwrites and deletes the root hash equals the Patricia-Merkle hash (Blake2b nodes as in the
 Nimiq accounts tree) computed from scratch from the current key/value contents. Two histories that end in the same contents
 have the same root, an emptied tree has the root of a fresh one, and different contents have different roots.""",
 [H], "every operation sequence over the key families (shared prefixes of length 0 to 39 nibbles) and values up to the explored depth",
 """Tests insert three fixed keys in three orders and delete them all. Stale hashes and aliasing of shared path buffers depend on
 which branch was split, merged or rolled up before, which only operation sequences reach.""",
 ["tree/tree.go", "tree/node.go", "tree/store_mem.go"],
 [("path invalidation and bottom-up rehash", "tree/tree.go"), ("branch split, roll-up on delete", "tree/tree.go"), ("node hash encoding", "tree/node.go")],
 [("nodes", "prefix to branch/leaf map", "tree/store_mem.go")], ["root hash after every operation"], BFS,
 """All histories up to the depth bound without state merging, plus closure over all reachable contents of each key family; the oracle is an
 independent recursive trie hash. Trusts x/crypto blake2b.""")
prop("T02", "The tree behaves as a map and reports changes exactly",
 """A lookup returns exactly the value last put for that key and nothing if it was never put or was deleted (an empty value deletes).
 An update reports a change if and only if it changed the stored value, a no-op update leaves the root as it was, and no update affects any other key.""",
 [H], "every operation sequence over the key families and values (including empty) up to the explored depth",
 "Tests never read entries back and only check the change flag on fresh inserts and deletes of three keys.",
 ["tree/tree.go", "tree/store_mem.go"],
 [("entry lookup and update", "tree/tree.go"), ("node store", "tree/store_mem.go")],
 [("nodes", "prefix to branch/leaf map", "tree/store_mem.go")], ["return values of get and put", "all keys after every operation"], BFS,
 "Every step of every explored history is compared with a Go map, for all keys of the family and bystander keys.")
prop("T03", "The tree keeps exactly the nodes its contents need",
 """After every operation the node store holds precisely the nodes of the canonical trie of the current contents: the root, one leaf per entry and one
 branch per point where entries diverge, each filed under its own path and each child link carrying the correct path and hash.
 Nothing that was deleted or merged away is left behind.""",
 [H], "every operation sequence over the key families up to the explored depth, on a store that records its contents",
 "No test looks at the stored nodes; leaked or dangling nodes are invisible until a later history descends into them.",
 ["tree/tree.go", "tree/node.go", "tree/store_mem.go"],
 [("pruning and roll-up", "tree/tree.go"), ("branch split", "tree/tree.go")],
 [("nodes", "prefix to branch/leaf map", "tree/store_mem.go")], ["contents of an injected store after every operation"], BFS,
 "Node-for-node comparison with the canonical trie built from the model map after every step.")
prop("T04", "Overlay writes stay invisible below until flushed",
 """Work done through an overlay, however deeply stacked, reads like work done on a plain store but leaves the lower store unchanged, also in its root hash and every lookup.
 Flushing makes the lower store hold exactly what the overlay showed and leaves the overlay empty; an overlay that is dropped has no effect.""",
 [H], "every interleaving of updates at base, first and second overlay level, flush and discard up to the explored depth, all triples of related values over three levels, and flushes of up to thousands of nodes",
 "Overlays have no test at all; isolation only fails for particular combinations of existing lower branches and overlay updates.",
 ["tree/store_overlay.go", "tree/tree.go"],
 [("copy on read, diff map, flush", "tree/store_overlay.go")],
 [("diffs", "pending node changes", "tree/store_overlay.go")], ["roots and entries of every layer after every operation", "contents of an injected lower store"], DFS,
 "All layer/operation sequences up to the bound against one model map per layer.")
prop("T05", "All tree state lives in the store it was given",
 """The tree gives the same lookups, change flags and roots on any store that keeps what was put under each path, whether it hands back the stored node itself or a copy, and
 no matter whether one tree handle is kept or a new one is opened on the store before each operation.""",
 [H, "configurations"], "every operation sequence up to the explored depth on each store implementation and handle policy",
 "Tests only use the in-memory store with one handle, where in-place mutation hides missing writes.",
 ["tree/tree.go", "tree/store.go", "tree/store_mem.go", "tree/store_overlay.go"],
 [("write-back of changed nodes", "tree/tree.go")], [("nodes", "stored nodes", "tree/store_mem.go")], ["root, lookups and flags on each backend"], DFS,
 "Differential: in-memory, copying, serialising-by-copy and overlay stores run in lock step with the reference model.")
prop("T06", "Tree paths convert faithfully",
 """Expanding an address to nibbles, printing, packing and turning back into an address lose nothing: packing a path of any length yields its nibbles two per byte (high first, zero-padded),
 the hex form is the hex of the address, and address to path to address is the identity. The common prefix of two paths is their longest shared prefix, and a path is a prefix of another exactly if it equals that.
 Both path implementations (tree and wire) agree.""",
 [I], "all nibble sequences up to the explored length, all pairs of short sequences, all single-byte variations of addresses",
 "Tests check six fixed strings.",
 ["tree/store.go", "wire/nibbles.go"], [("nibble conversion", "tree/store.go"), ("nibble conversion", "wire/nibbles.go")], (), ["return values"], DFS,
 "Exhaustive within length bounds against direct definitions.")

# ---------------------------------------------------------------- accounts
prop("A01", "Accepted blocks move exactly the funds they state",
 """A block is accepted exactly if its transactions, taken as all debits in order, then all credits in order, then contract creations, then pruning, then the miner's reward, are all allowed.
 It then debits each sender value plus fee, credits each recipient the value, creates the stated contracts, removes the pruned ones, pays the miner the block subsidy plus all fees, and leaves every other account untouched.
 The resulting root is that of the resulting accounts.""",
 [H], "every sequence of blocks built from the transaction menu (basic/contract senders, self-payments, chains through one account, creation, pruning, miner overlap) up to the explored depth, and at heights all along the emission and after it",
 "One test pushes two fixed blocks and only checks that no error is returned.",
 ["accounts/accounts.go", "wire/account.go", "policy/policy.go"],
 [("block processing phases", "accounts/accounts.go"), ("per-account debit/credit", "wire/account.go")],
 [("accounts tree", "address to account", "accounts/accounts.go")], ["all accounts and the root after each block"], BFS,
 "Reference ledger written independently; each block is applied to model and code and full states are compared.")
prop("A02", "Blocks create no money beyond the subsidy",
 """For every accepted block the sum of all balances (accounts and contracts) grows by exactly the subsidy of that height, and no balance ever wraps around.
 This holds for any amounts and fees a transaction can state.""",
 [H, I], "every block sequence from the menu, with amounts and fees over boundary values (0, 1, balance and neighbours, 2^63, 2^64-1) for each sender kind, and at heights all along the emission and after it",
 "No test checks balances; wrap-around needs specific 64-bit amounts.",
 ["accounts/accounts.go", "wire/account.go", "policy/policy.go"],
 [("debit with overflow check", "wire/account.go"), ("inherents", "accounts/accounts.go")],
 [("accounts tree", "address to account", "accounts/accounts.go")], ["sum over all stored accounts"], BFS,
 "Sums use big integers over all leaves of an injected store, so unexpected accounts count too.")
prop("A03", "A rejected block leaves no trace",
 """If applying a block fails for any reason, at any transaction or phase, every account, every lookup and the root are exactly as before, and the following block behaves as if the rejected one had never been tried.""",
 [H, F], "every block sequence with each possible failing block (failure in each phase and at each transaction position) followed by further blocks",
 "No test pushes an invalid block.",
 ["accounts/accounts.go", "tree/store_overlay.go"],
 [("staging overlay", "accounts/accounts.go")], [("accounts tree", "address to account", "accounts/accounts.go")], ["store contents, root and accounts before and after a rejected block"], BFS,
 "Store snapshots are compared node by node around each rejected block; futures are compared with the reference.")
prop("A04", "Nobody spends more than they have",
 """A transaction whose value plus fee (as integers, without wrap-around) exceeds the sender's spendable balance at its turn in the block is rejected with an overspend error, whatever the sender kind.
 One that does not exceed it is not rejected for lack of funds, and a rejected spend leaves the account object unchanged.""",
 [I, H], "all combinations of boundary balances, values and fees (0, 1, neighbours, 2^32, 2^63, 2^64-1) for each account kind, alone and as two transactions in one block",
 "Tests have one spend, far below the balance.",
 ["wire/account.go", "accounts/accounts.go"],
 [("overspend check", "wire/account.go")], [("balance", "account value", "wire/account.go")], ["error type, resulting and original account"], DFS,
 "Big-integer oracle over the full cross product of boundary values.")
prop("A05", "Emptied contracts are pruned exactly as the block quotes",
 """A block must list exactly the contracts its transactions empty, each once and with exactly their final content; otherwise it is rejected.
 Listed contracts are gone from the state after the block, unlisted non-empty ones stay, and basic accounts at zero vanish by themselves.""",
 [H, I], "all blocks that drain zero, one or two contracts combined with every variant of prune list (missing, extra, altered field, wrong type, duplicate, reordered), and all pairs of boundary account values for what counts as the same account",
 "The only pruning test ends in a TODO before pruning anything.",
 ["accounts/accounts.go", "wire/account.go"],
 [("prune list check", "accounts/accounts.go"), ("account equality", "wire/account.go")], [("pruned list", "accounts quoted by the block", "wire/block.go")], ["acceptance and resulting state"], DFS,
 "Each single field of each quoted contract is altered in turn.")
prop("A06", "Declared account types are enforced and contracts begin as declared",
 """A transaction is rejected if the sender or recipient type it declares is not the type of the account at that address, including reserved and unknown types.
 A creation transaction turns a plain recipient into exactly the contract its data describes, holding the recipient's whole balance; creation with undecodable data, a basic or unknown type, or at an existing contract is rejected.
 Contracts accept no incoming payments.""",
 [I, H], "all pairs of (actual account kind, declared type 0..4, 0xFE, 0xFF) for both ends, all flags, and creation data of every length 0..100 with boundary contents",
 "Tests create one vesting contract with the shortest data form.",
 ["accounts/accounts.go", "wire/account.go"],
 [("type check", "accounts/accounts.go"), ("contract initialisation", "wire/account.go")], [("account kind", "basic, vesting or HTLC", "wire/account.go")], ["acceptance and resulting account"], DFS,
 "Independent parser for the creation data.")
prop("A07", "No decodable block can crash block processing",
 """Applying any block that can be decoded from bytes returns normally, with an error if it is invalid; it never panics, whatever the transaction types, declared account types, flags, data, proofs, prune lists, heights or missing body.""",
 [I, H], "all blocks from the structural menu (every tx kind, type byte, flag, data/proof length class, truncated or corrupted proof, prune list, height 0/1/max, no body) on states with every account kind",
 "Tests push two well-formed blocks.",
 ["accounts/accounts.go", "wire/account.go", "wire/signature.go", "wire/bitset.go", "policy/policy.go"],
 [("validation before use", "accounts/accounts.go"), ("proof parsing", "wire/account.go")], (), ["panic or normal return of block application"], DFS,
 "Panics, fatal runtime errors and hangs of the worker process all count as violations.")
prop("A08", "Stored accounts read back exactly and are snapshots",
 """An account of any kind that is stored is read back with every field equal; an address without entry reads as an empty basic account.
 Storing an empty basic account, or none, removes the entry, and changing an account object obtained from a lookup changes neither the state nor any other lookup.
 A stored entry that is not exactly the encoding of one account is reported, never looked up as an account.""",
 [H, I], "all cut, extended and mistyped entries, and all sequences of stores, removals, lookups and mutations of looked-up objects over addresses and account values (boundary field values for each kind) up to the explored depth",
 "No test reads an account.",
 ["accounts/accounts.go", "wire/account.go"],
 [("account (de)serialisation", "wire/account.go"), ("default account", "accounts/accounts.go")], [("default account", "what absent addresses read as", "wire/account.go")], ["looked-up accounts and root"], DFS,
 "Model is a Go map of account values.")

# ---------------------------------------------------------------- contracts
prop("V01", "A vesting contract never pays out more than has vested",
 """At every height, over any series of withdrawals, a vesting contract with total T, start s, step length d and step amount a keeps at least T minus a*floor((h-s)/d) (never below zero), counting value and fee; nothing can be withdrawn at or before s.
 Whatever exceeds that bound can be withdrawn by the owner, and with zero step length or amount everything can after s.""",
 [H, I], "all withdrawal histories over rising heights for all schedules of a bounded parameter grid, plus boundary parameters up to 2^32-1 and 2^64-1",
 "No test withdraws from a vesting contract.",
 ["wire/account.go", "accounts/accounts.go"], [("vested amount", "wire/account.go")], [("value", "remaining balance", "wire/account.go")], ["acceptance and remaining balance"], BFS,
 "Reference uses big integers; each history is also run through whole blocks.")
prop("V02", "Only the designated parties can empty a contract",
 """A spend from a vesting contract is accepted only with a proof whose signer address is the owner; one from an HTLC only with proofs whose signers are the recipient (hash redemption), the sender (after timeout) or both (early resolve), in their roles.
 A malformed, truncated, over-long or empty proof is rejected, and an accepted spend changes nothing in the contract but its balance.""",
 [I], "all assignments of owners, senders and recipients (also addresses nobody has) and signers (plain key and multi-signature Merkle proofs of bounded depth) to proof roles, for spends of something and of nothing, all truncations and single-byte changes of valid proofs",
 "No test spends from a contract.",
 ["wire/account.go", "wire/signature.go"], [("signer derivation", "wire/signature.go"), ("proof dispatch", "wire/account.go")], (), ["acceptance and resulting contract"], DFS,
 "Covers the stateful signer-address rules the code implements; cryptographic verification of the signature bytes is not part of this code base.")
prop("V03", "HTLC funds move only by an open path and only as far as revealed",
 """Hash redemption works only up to and including the timeout height, with the contract's own hash root and algorithm, and leaves at least floor(T*(n-k)/n) of total T in the contract when k of n pre-images are revealed; timeout recovery works only after the timeout height; early resolve works at any height.
 At every height at most one of redemption and recovery is open.""",
 [I, H], "all proof kinds, heights around the timeout, hash roots, algorithms, depths 0..255, counts and amounts of a bounded grid and boundary values, and sequences of partial redemptions",
 "No test creates or spends an HTLC.",
 ["wire/account.go"], [("HTLC spend conditions", "wire/account.go")], [("timeout", "last redemption height", "wire/account.go")], ["acceptance and remaining balance"], BFS,
 "Big-integer oracle. That the pre-image hashes to the root is checked nowhere in this code base (the reference client does it outside account state) and is not claimed.")

# ---------------------------------------------------------------- beserial
prop("B01", "Encoding and decoding are inverse for every supported type",
 """For any value of a type built from the supported ones (integers, bools, fixed arrays, length-tagged strings and slices (of elements that take at least one byte), structs, pointers, optional pointers, self-encoding types), encoding yields the documented big-endian layout, and decoding it, also when followed by other data, yields an equal value and consumes exactly the encoded bytes.
 Encoding appends to the given buffer without changing what it held, and a decoded value does not change with the input buffer.""",
 [I, "programs"], "all type shapes up to the explored depth (generated by reflection) with all combinations of boundary values and slice lengths",
 "Tests check one value for each of a dozen hand-written types; nesting and combinations of tags are not covered.",
 ["beserial/encode.go", "beserial/decode.go", "beserial/tags.go"], [("reflective encoder", "beserial/encode.go"), ("reflective decoder", "beserial/decode.go"), ("struct tags", "beserial/tags.go")], (), ["bytes, value, consumed count"], DFS,
 "Type shapes are enumerated, not sampled; the expected bytes come from a separate schema-driven encoder.")
prop("B02", "The announced size is the encoded size",
 """For any value of a supported type, and for every wire type, the size that is announced equals the number of bytes encoding produces.""",
 [I, "programs"], "the type shapes and values of B01 plus all enumerated wire values",
 "Tests check nine sizes, none with bools or self-encoding types.",
 ["beserial/size.go", "wire/tx.go", "wire/account.go", "wire/block.go", "wire/signature.go", "wire/p2p.go"], [("size computation", "beserial/size.go")], (), ["size versus length of the encoding"], DFS,
 "Equality on every enumerated value.")
prop("B03", "Decoding accepts exactly the canonical encodings and never crashes",
 """For any byte string and any supported type, decoding returns either an error or a value whose encoding is exactly the bytes it consumed, and never panics; the consumed count is between zero and the input length, also on error.
 Every proper prefix of a valid encoding is rejected, the strict variant rejects trailing bytes, and flags other than zero and one are rejected.""",
 [I, "programs"], "all byte strings up to the explored length and all truncations, extensions and one- or two-byte changes of valid encodings, for all enumerated type shapes",
 "Tests have one invalid input in total.",
 ["beserial/decode.go"], [("bounds-checked reads", "beserial/decode.go"), ("flag validation", "beserial/decode.go")], (), ["error, value, consumed count, re-encoding"], DFS,
 "Acceptance is compared with an independent schema-driven parser, so wrongly rejected inputs are found too.")
prop("B04", "Encoding is faithful or fails",
 """Encoding never reports success with bytes that do not decode back to the value: a slice or string too long for its length tag, a missing value that is not optional, an unsupported kind or an error of a nested self-encoding type, at any nesting depth, is reported as an error.""",
 [I, "programs", F], "one injected failure of each kind at every position of all enumerated type shapes; lengths around 2^8 and 2^16 for each tag width",
 "No test encodes anything invalid.",
 ["beserial/encode.go", "beserial/size.go"], [("error propagation", "beserial/encode.go")], (), ["error or faithful bytes"], DFS,
 "Fault-injecting element types are placed in each leaf position in turn.")
prop("B05", "Codec misuse is an error, not a crash",
 """Decoding into, encoding from, or asking the encoded size of something that is nil or not a pointer returns an error and touches nothing.
 A field of a kind that the codec does not support (floats, maps, platform-dependent integers and so on) or a slice or string without length tag is an error in both directions (and for the size exactly if it is one for encoding), never a crash and never skipped, wherever it is in the type.
 (Unexported fields and malformed tags are programming errors that this does not cover.)""",
 [I], "nil, typed nil pointers and non-pointer values of every kind, with empty and non-empty data; every unsupported kind in every surrounding up to the explored depth",
 "Not tested.",
 ["beserial/decode.go", "beserial/encode.go", "beserial/size.go", "beserial/errors.go"], [("argument check", "beserial/decode.go")], (), ["returned error"], DFS,
 "Complete over the listed kinds.")
prop("B06", "Hostile lengths cannot make the decoder over-allocate",
 """The memory decoding allocates is bounded by a small multiple of the input length, whatever length fields the input claims and however they are nested.""",
 [I], "all length-tag widths and element kinds with boundary lengths (0, exact, +1, 2^8, 2^16, 2^31, 2^32, 2^63, 2^64-1) and all wire types with each length field set to each boundary",
 "Not tested.",
 ["beserial/decode.go", "wire/bitset.go", "wire/block.go", "wire/signature.go"], [("length sanity check", "beserial/decode.go")], (), ["bytes allocated per decode"], DFS,
 "Allocation is measured by the runtime; the bound is generous (element size times input length).")

# ---------------------------------------------------------------- wire
prop("W01", "Every message survives the trip through its wire form",
 """Encoding a message of any kind yields its type number as eight big-endian bytes followed by its content, and decoding that content under that type number yields an equal message of the same kind; no bytes may follow it.
 Type numbers without a message are reported as unknown, and no content of any message kind can crash the decoder.""",
 [I], "all message kinds with boundary values for every field, each field alone with every value of each of its bytes, short texts and lists exhaustively, all type numbers 0..255 and boundaries, all truncations, extensions and single-byte changes of each content",
 "No message is encoded or decoded by any test.",
 ["wire/msg_types.go", "wire/msg.go", "wire/msg_inv.go", "wire/msg_p2p.go", "wire/p2p.go"], [("message dispatch", "wire/msg_types.go"), ("message contents", "wire/msg_inv.go"), ("peer addresses", "wire/p2p.go")], (), ["bytes and decoded message"], DFS,
 "Expected bytes come from hand-written reference encoders of each message.")
prop("W02", "Blocks, transactions and accounts have one wire form each",
 """Every accepted encoding of a block, transaction, account, proof, hash, bit set, address or body re-encodes to exactly the bytes consumed, each field sits at its specified place, and everything else is rejected without a crash.""",
 [I], "structurally enumerated values (list lengths 0..2, bit sets of 0..255 bits, all kinds and flags), each field alone with every value of each of its bytes, short texts and lists exhaustively, all truncations, all single-byte and selected two-byte changes",
 "Only the genesis blocks and two signed transactions are ever (de)serialised.",
 ["wire/block.go", "wire/tx.go", "wire/account.go", "wire/signature.go", "wire/bitset.go", "wire/hash.go"], [("custom codecs", "wire/block.go"), ("type prefixes", "wire/tx.go")], (), ["acceptance, fields, re-encoding"], DFS,
 "Independent reference encoder and length parser for each type.")
prop("W03", "Interlinks expand to the right hashes",
 """Decoding a block interlink of n entries with given repeat bits yields n hashes where each unset bit takes the next hash of the stream and each set bit repeats the one before (the previous-block hash at the beginning), consumes exactly the hashes that are there, and re-encodes to the same bytes, for any n up to 255 and any padding bits.""",
 [I], "all repeat-bit patterns for up to 16 entries (all padding patterns included) and structured patterns for every length up to 255, with distinct, equal, alternating and zero hashes",
 "Genesis blocks have empty interlinks, so the algorithm is never run.",
 ["wire/block.go", "wire/bitset.go"], [("interlink decoder", "wire/block.go"), ("bit access", "wire/bitset.go")], (), ["expanded hashes, consumed count, re-encoding"], DFS,
 "Exhaustive over bit patterns within the bound.")
prop("W04", "Merkle proofs lead to the signer they prove",
 """The root computed from a Merkle path is the one obtained by hashing the leaf and combining it with each sibling on the side its branch bit says, so that every leaf of a tree proves the same root and any altered leaf, sibling or side proves another.
 The signer address of a signature proof is the first 20 bytes of that root.""",
 [I], "all tree shapes and leaves up to the explored depth, all branch-bit patterns up to 10 levels, every level up to 255 individually, all single alterations",
 "No path with any sibling is ever evaluated by a test.",
 ["wire/signature.go", "wire/bitset.go", "wire/account.go"], [("root computation", "wire/signature.go"), ("key to address", "wire/account.go")], (), ["root and address"], DFS,
 "Reference tree hashing with blake2b.")
prop("W05", "All views of a transaction agree",
 """For any transaction, its kind, amounts, sender, recipient, simplified content and extended form state the same fields as the transaction itself; a basic transaction and its extended form have the same content, and the extended form's proof names the same signer and carries the same signature.
 Taking a view never changes the transaction.""",
 [I], "all combinations of boundary values of all fields for both kinds",
 "Only indirectly touched by two signing tests.",
 ["wire/tx.go", "wire/tx_basic.go", "wire/tx_extended.go"], [("conversions", "wire/tx_basic.go")], (), ["view results"], DFS,
 "Field-by-field comparison.")
prop("W06", "Compact targets round down within their precision",
 """The compact form of any positive target up to 256 bits denotes a number not above the target and differing from it only below its three most significant bytes (two if the top bit is set), never with the sign bit set, and larger targets never get a smaller compact value; zero is zero.
 A difficulty d maps to the integer quotient of the maximum target by d.""",
 [I], "all leading-three-byte patterns of a dense grid at every length of 1 to 32 bytes with zero and all-ones tails; all difficulties up to the explored bound and around powers of two",
 "No test covers it.",
 ["wire/utils.go", "policy/policy.go"], [("conversion", "wire/utils.go")], [("maximum target", "2^240", "policy/policy.go")], ["compact value"], DFS,
 "Big-integer oracle.")
prop("W07", "A peer address signature vouches for exactly the signed fields",
 """Signing a peer address makes it verify under the signer's key, and changing the protocol, services, timestamp, key or signature in any bit makes it not verify; fields that are not signed can change freely, and the signature survives the wire.
 A peer's ID is the first half of the Blake2b hash of its key.""",
 [I], "all boundary values of the signed fields, every single-bit change of every signed field, key and signature, with several keys and all combinations of unsigned fields; special keys (points of small order) and signatures",
 "No test signs or verifies a peer address.",
 ["wire/p2p.go"], [("signed digest", "wire/p2p.go")], (), ["verification result"], DFS,
 "Exhaustive over single-bit changes.")

# ---------------------------------------------------------------- policy
prop("P01", "The emission schedule is exact at every height",
 """The supply after a height is the initial supply plus all block rewards up to it, where each reward is the remaining supply divided by the emission speed (rounded down), or the fixed tail reward once the tail starts and while enough remains; the subsidy of a height is the reward at the supply before it.
 Supply never decreases and never exceeds the total, from the first block to the last height there is.""",
 [I], "every height at which the schedule can deviate: all heights around every cache boundary, the tail start and the end of emission, and dense ranges; one sequential accumulation over all heights as oracle",
 "Tests look at twelve heights.",
 ["policy/policy.go"], [("reward formula", "policy/policy.go"), ("checkpointed supply", "policy/policy.go")], [("supply checkpoints", "supply at every 5000 blocks", "policy/policy.go")], ["supply and subsidy"], DFS,
 "All 52.9 million heights are accumulated sequentially from the documented formula in each run.")
prop("P02", "Supply answers do not depend on what was asked before",
 """The supply and subsidy returned for a height are the same whatever sequence of heights was asked about before in the process, in any order.""",
 [H], "every sequence of queries over heights around checkpoint boundaries, tail and maximum up to the explored depth, each from a fresh process state",
 "Tests query rising heights once in one process.",
 ["policy/policy.go"], [("lazily extended checkpoints", "policy/policy.go")], [("supply checkpoints", "supply at every 5000 blocks", "policy/policy.go")], ["answers along the sequence"], DFS,
 "The package is compiled into a resettable copy generated from the working tree; every sequence starts from the initial package state.")
prop("P03", "Supply queries are safe from any number of goroutines",
 """Concurrent supply and subsidy queries never race on shared state, never deadlock and each return what they would return alone, under every interleaving.""",
 [S], "all interleavings, at every synchronisation operation, of two to four goroutines with one to three queries each, up to the preemption bound",
 "Tests are single-threaded.",
 ["policy/policy.go"], [("checkpoint lock", "policy/policy.go")], [("supply checkpoints", "shared cache", "policy/policy.go")], ["answers, happens-before races, deadlocks"],
 "stateless model checking of all thread interleavings (controlled scheduler, vector-clock race detection)",
 """The package's source is instrumented automatically at check time (every access to package variables and heap memory, every operation of sync and sync/atomic), so every schedule is executed on the real code and every unordered pair of accesses is reported on the schedule it occurs in (schedules that differ only between synchronisation operations are equivalent unless there is such a pair); go statements, channels and select inside the package are refused (no answer) rather than guessed at.""")

# ---------------------------------------------------------------- the library as a whole
prop("C01", "Independent work can run on any number of goroutines",
 """Goroutines that work on objects of their own (encoding, decoding and sizing of any message or structure, addresses, keys, signatures, trees and ledgers on separate stores, contracts, wallets, genesis profiles, policy queries),
 or that only look at an object they share, never race on memory, never block each other for good, and each obtain what they would obtain alone, in every interleaving.""",
 [S], "all schedules, at the granularity of synchronisation operations and up to the preemption bound, of two and three goroutines with every combination of operations from the menus, on fresh and on used package state and on shared objects",
 "Tests use one goroutine. A package-level buffer, cache or reused hasher passes every test and corrupts results only when two calls overlap.",
 ["beserial/encode.go", "beserial/decode.go", "beserial/size.go", "wire/msg_types.go", "wire/account.go", "wire/signature.go", "tree/tree.go", "tree/node.go", "accounts/accounts.go", "wallet/basic.go", "address/address.go", "policy/policy.go", "genesis/genesis.go"],
 [("package state of all library packages", "policy/policy.go, wire/msg_types.go, address/address.go"), ("caches inside objects", "wallet/basic.go, tree/node.go")],
 [("package variables", "what outlives a call", "all packages")], ["results, arguments, data races, deadlocks"],
 "stateless model checking of thread interleavings of the real code (controlled scheduler, happens-before race detection on every execution)",
 """The library is linked from its working tree with sync and sync/atomic replaced by stand-ins under a controlled scheduler. Whether two accesses are unordered is decided on each explored execution by Go's race detector, which is shown the modelled synchronisation and none of the
 scheduler's own; schedules that differ only between synchronisation operations are equivalent unless there is a race. If the library starts goroutines or uses channels of its own, or stand-ins are missing, the schedules explored are those of whole operations. Trusts the race detector; it keeps four accesses per eight bytes.""")
prop("C02", "Results do not depend on what was done before",
 """What an operation on its own arguments returns (encodings, sizes, decoded values, errors, addresses, roots, ledger outcomes, views of a transaction) is the same whatever was done before it on other or the same objects, however often and whether that succeeded or failed,
 and is not changed by what is done after it. Operations leave the arguments they only read as they were.""",
 [H, I], "all sequences of two to four operations from the menus, sequences of two operations of the same kind whose arguments differ in a single field, and each operation repeated a thousand times before others, from fresh package state",
 "Tests call each function a few times with unrelated values. Caches with colliding keys, reused result buffers and counters that are not reset need particular pairs of calls.",
 ["beserial/encode.go", "beserial/decode.go", "beserial/size.go", "beserial/tags.go", "wire/msg_types.go", "wire/account.go", "wire/signature.go", "wire/utils.go", "tree/tree.go", "tree/node.go", "accounts/accounts.go", "wallet/basic.go", "address/address.go", "policy/policy.go", "genesis/genesis.go"],
 [("package state of all library packages", "policy/policy.go, wire/msg_types.go, address/address.go")],
 [("package variables", "what outlives a call", "all packages")], ["results after the last operation, arguments"], DFS,
 """Every sequence starts from package state that is initialised again; the oracle is what each operation gives alone, and what that should be is decided by the other properties.""")

# ---------------------------------------------------------------- address, wallet
prop("D01", "Every address has one user-friendly form and comes back from it",
 """Encoding any address yields 'NQ', two check digits and 32 Base32 characters in groups of four, whose IBAN check (mod 97) is valid, and decoding it yields the address again, with spaces removed, added or moved anywhere.
 Different addresses have different forms.""",
 [I], "all one- and two-byte patterns at every position over several backgrounds, all placements of up to two extra spaces, all check values",
 "Tests encode one address.",
 ["address/address.go"], [("Base32 and check digits", "address/address.go")], (), ["encoded string, decoded address"], DFS,
 "Independent big-integer mod-97 oracle; every check value 2..98 is reached.")
prop("D02", "Decoding accepts valid addresses only",
 """A string is accepted exactly if, without spaces, it is 36 characters long, begins with 'NQ', consists of allowed characters and passes the mod-97 check, and the result is the Base32 value of its last 32 characters; anything else is rejected with an error and never a crash.
 In particular a mistyped digit-for-digit or letter-for-letter, or another country code, is always rejected.""",
 [I], "for many addresses, all replacements of each character by every byte, all adjacent swaps, all deletions and insertions, all country codes with recomputed check digits, all short strings over a small alphabet",
 "Tests try six invalid strings.",
 ["address/address.go"], [("validation", "address/address.go")], (), ["acceptance and result"], DFS,
 "Acceptance compared with an independent validator on every string.")
prop("S01", "A wallet signature binds every field of the transaction",
 """The signature a wallet puts on a transaction verifies over the transaction's content under the wallet's key and fails for the content with any single bit changed or under another key; signing changes nothing in the transaction but the signature or proof.
 Transactions that differ in any signed field have different signed content.""",
 [I], "all boundary values of all fields of both kinds, every single-bit change of the content and signature, several wallets",
 "Tests compare two fixed signatures.",
 ["wallet/basic.go", "wire/tx.go", "wire/tx_basic.go", "wire/tx_extended.go"], [("content serialisation and signing", "wallet/basic.go")], (), ["signature verification with crypto/ed25519"], DFS,
 "Content bytes are recomputed by an independent encoder.")
prop("S02", "A wallet signs only as itself",
 """A wallet refuses to sign a basic transaction that names another sender and leaves it unchanged; proofs it makes name its own key and address; its address and key are the same on every query in any order, are derived deterministically from the seed, and other wallets' use never affects them; nor does signing a copy of a transaction affect the proof of the original.""",
 [H, I], "all sequences of wallet operations (address, key, sign own, sign foreign, sign extended, sign a changed copy) over two wallets up to the explored depth",
 "Tests use one wallet once.",
 ["wallet/basic.go", "wire/account.go", "wire/signature.go"], [("sender check and cached address", "wallet/basic.go")], [("address", "lazily derived address", "wallet/basic.go")], ["results along the sequence"], DFS,
 "All operation sequences up to the bound on fresh wallets.")

# ---------------------------------------------------------------- genesis, replay, export
prop("G01", "A genesis profile loads completely or not at all",
 """Opening and initialising a genesis profile succeeds exactly if block and accounts file are complete and well-formed, the configuration is valid TOML whose
 values fit and whose genesis hash has 32 bytes, and the resulting root equals the one in the genesis block. Any missing, truncated, extended or corrupted file that
 is not such a profile is reported as an error without a crash. What is loaded is what the files say, and the built-in profiles load.""",
 [F, C, I], "every truncation length of every file, every single-byte change (several values) of block and accounts files, every combination of missing, empty or exchanged files, configuration values, and added trailing bytes; every profile name of a list, with decoys of the built-in names",
 "Tests only load the two built-in profiles.",
 ["genesis/genesis.go", "beserial/decode.go", "accounts/accounts.go"], [("profile loader", "genesis/genesis.go"), ("root check", "genesis/genesis.go")], (), ["error or resulting state"], "exhaustive fault enumeration (all truncation points and single-byte corruptions) on the real code vs reference model",
 "Files are rewritten in a scratch directory; the oracle is an independent parser and trie hash.")
prop("R01", "Replaying an exported chain accepts exactly consistent chains",
 """The replay tool reports success with the right block and transaction counts exactly if every block of the archive decodes, applies and leads to the root in its header; a corrupted, reordered, missing-in-the-middle, truncated or wrongly rooted block makes it fail.""",
 [H, F], "all chains of bounded length from the block menu with every single fault (kind and position) injected, blocks of up to 40 MiB, with and without debug output",
 "The command has no tests.",
 ["cmd/gimiq/main.go", "accounts/accounts.go", "genesis/genesis.go"], [("replay loop and root comparison", "cmd/gimiq/main.go")], (), ["exit status and printed counts"], "exhaustive enumeration of chains and injected faults against the built binary",
 "Runs the real binary on generated archives; expected roots come from the reference ledger.")
prop("E01", "A block export is complete and in order",
 """Exporting blocks from A to B writes exactly the blocks A..B, each once, in ascending order and byte-exact, whatever the batch size and in whatever order the node answers within a batch; an error answer makes the export fail rather than skip a block.""",
 [F, I], "all small ranges and batch sizes, all permutations of the answers within each batch, every position of an error answer",
 "The script has no tests.",
 ["scripts/export_blocks.py", "docs/block_export.md"], [("batching and ordering", "scripts/export_blocks.py")], (), ["archive contents"], "exhaustive enumeration of environment answers (all response permutations and faults) around the real script",
 "The HTTP library is replaced by a stand-in that the checker controls.")

NA = {}           # ids not claimed, with the reason
import glob, re
BUILT = set(re.findall(r'ID: +"([A-Z]\d\d)"', "".join(open(f).read() for f in glob.glob(os.path.join(ROOT, "mc/props/*.go")))))
for p in P:
    if p["id"] not in BUILT:
        NA.setdefault(p["id"], "The check for this property has not been built yet.")
def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}, ensure_ascii=False) + "\n")
    checks = [dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"],
                   evidence_file="evidence/%s.json" % p["id"], technique=p["_tech"], level=p["_level"], level_note=p["_note"])
              for p in P if p["id"] not in NA]
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks,
             not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
             notes="No hooks in /repo: all checks use exported interfaces, injected stores, or sources instrumented at check time. Known findings: /verif/known_findings.json.")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
    print(len(P), "properties", len(checks), "checks")
main()
