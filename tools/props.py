#!/usr/bin/env python3
"""Source of /verif/properties.jsonl and /verif/MANIFEST.json.  Run: python3 tools/props.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, technique="", note=""):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(p=dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why, anchors=a), technique=technique, note=note))

COMMON = " Level: exploration by random generation; the absence of a failure is evidence over the generated cases only. Trusts the Go toolchain, rapid, hive.go's blake2b/ed25519 and the reference model in /verif/harness."

# ---------------------------------------------------------------- codec
prop("C01", "Binary encoding round-trips every protocol object",
 "Encoding any valid block, transaction, output, address, unlock, feature, token scheme, commitment, candidacy payload or protocol-parameter set to binary and decoding the result yields an equal object, consuming exactly the bytes produced. Re-encoding the decoded object yields the same bytes, object identities (IDs) are unchanged by the round trip, and a decoded object shares no memory with the bytes it was decoded from or encodes to.",
 ["inputs"], "for all valid objects of every type, with and without structural validation, any mix of optional parts and boundary values",
 "existing tests round-trip a fixed handful of hand-written or lightly randomised objects; they cannot cover combinations of optional parts, boundary lengths and nested types",
 ["api_v3.go", "api_common.go", "block.go", "transaction.go", "output.go", "feat.go", "unlock_cond.go", "unlock.go"],
 [("type registry and encode/decode entry points", "api_v3.go, api_common.go"), ("manual codecs of addresses and bit masks", "address_multi.go, address_restricted.go, address_capabilities_bitmask.go")],
 observe=["Encode/Decode results"], technique="property-based round-trip (rapid structured generators)")
prop("C02", "Binary decoding is canonical: one accepted encoding per object",
 "Whenever a byte string is accepted by the validating binary decoder, re-encoding the decoded object with validation succeeds and reproduces exactly the bytes consumed, and its identity computed before and after agrees. Unordered or duplicate map/set elements (features, unlock conditions, mana allotments, native block-issuer keys, context inputs, parents, capabilities), zero-padded bit masks, unknown type tags, and truncated input are rejected.",
 ["inputs"], "for all byte strings obtained by mutating valid encodings, including targeted element swaps/duplications, padding, type-tag and length edits and truncations",
 "tests feed only valid encodings or single hand-made bad cases; malleability is a universally quantified statement over byte strings",
 ["api_v3.go", "address_multi.go", "address_capabilities_bitmask.go", "bitmask.go", "syntax_validator.go", "block.go", "transaction.go"],
 [("array rules: uniqueness, lexical order, bounds", "api_v3.go"), ("trailing-zero rejection in bit masks", "bitmask.go, address_capabilities_bitmask.go, transaction_capabilities_bitmask.go")],
 technique="mutation fuzzing of structured encodings with a re-encode oracle")
prop("C03", "JSON encoding round-trips every protocol object",
 "Encoding any valid protocol object (block, signed transaction, output, address, commitment, protocol parameters, API response) to JSON and decoding it gives an object equal to the original and with the same binary encoding and identity. The JSON form uses the documented field names, decimal strings for 64-bit numbers and 0x-prefixed hex for byte strings.",
 ["inputs"], "for all valid objects and API responses, including extreme 64-bit values",
 "tests compare a few fixed JSON documents; precision or omission errors only show for particular values and optional-field mixes",
 ["api_v3.go", "api_common.go", "api/core.go", "api/indexer.go", "hexutil/numbers.go"],
 [("serix JSON field tags", "block.go, transaction.go, output_*.go, feat*.go, api/core.go"), ("numbers as strings", "mana.go, token_scheme_simple.go, hexutil/numbers.go")],
 technique="property-based round-trip plus an independently written JSON reference for key structures")
prop("C04", "Untrusted input never crashes a decoder or parser",
 "No byte string, JSON document or text handed to a decoder or parser (binary and JSON decoding of every object, bech32 addresses, hex and text identifiers, block-issuer keys, proofs, bit masks, quantities) makes it panic or hang: it either returns a value or an error. A value a parser accepts from text or bytes of an identifier always has exactly the length of that identifier.",
 ["inputs"], "for all byte strings, JSON documents and strings; mutated valid encodings, random junk, deep nesting and wrong lengths",
 "tests decode well-formed data and a few malformed cases; robustness is quantified over all malformed inputs",
 ["api_v3.go", "address.go", "address_multi.go", "block_issuer_key.go", "output_id.go", "output_id.gen.go", "identifier.gen.go", "bech32/bech32.go", "hexutil/numbers.go", "output_id_proof.go"],
 [("length checks before slicing", "identifier*.gen.go, *_id.gen.go, address.go"), ("array and depth bounds", "api_v3.go")],
 technique="mutation fuzzing with a no-panic/no-hang oracle")
prop("C05", "Wire layout and reported sizes match the protocol specification",
 "The binary encoding of every block, transaction, output, unlock, feature, address, allotment and commitment equals the byte layout laid down by the protocol (field order, little-endian widths, type tags, length and optional-presence prefixes). The size an object reports equals the length of its encoding.",
 ["inputs"], "for all valid objects with every combination of optional parts",
 "tests pin a few encodings; sizes (which drive limits, storage and work charges) are not compared with encodings across combinations",
 ["block.go", "transaction_essence.go", "transaction.go", "output_*.go", "feat*.go", "unlock*.go", "address*.go", "commitment.go"],
 [("size accounting", "Size methods of every object"), ("serix tags", "struct field tags")],
 technique="differential test against an independent reference encoder")
prop("C06", "Identifiers are content-derived hashes with their slot embedded",
 "Block, transaction, signed-transaction and commitment identifiers equal the BLAKE2b-256 digest of the specified content followed by the little-endian slot they belong to, output identifiers are transaction ID plus little-endian index, and account, anchor, NFT, delegation and foundry identifiers are derived from output ID or owner/serial/scheme as specified. Any change to the hashed content changes the identifier, while re-signing a transaction or a block's other identical copies never does, and slot, index and digest accessors return the embedded parts.",
 ["inputs"], "for all blocks, transactions, commitments and output identifiers, and for all single-field or single-bit alterations",
 "tests pin a few identifiers; collision/omission of a field from the hashed content is invisible unless every field is varied",
 ["block.go", "transaction.go", "signed_transaction.go", "commitment.go", "commitment_roots.go", "output_id.go", "identifier_account.gen.go", "identifier_anchor.gen.go", "output_nft.go", "output_delegation.go", "output_foundry.go"],
 [("ID computation", "block.go ID, transaction.go ID/TransactionCommitment, commitment.go ID"), ("chain ID derivation", "*FromOutputID")],
 technique="differential test against reference hashing plus metamorphic field perturbation")
# ---------------------------------------------------------------- syntactic
prop("C07", "Transaction syntactic rules accept exactly well-formed transactions",
 "Syntactic validation of a signed transaction accepts it if and only if: network ID matches, 1-128 unique UTXO inputs and 1-128 outputs, sorted unique context inputs and allotments, minimal capabilities, every output well-formed with amounts summing to at most the token supply, stored and allotted mana each summing to at most the mana limit, chain IDs unique among outputs, and unlock count equal to input count with signatures unique and references pointing backwards to suitable unlocks. There is at most one commitment input, present whenever outputs or other context inputs need it, and reward indices are unique and within the input count.",
 ["inputs"], "for all transactions obtained from valid ones by zero or more rule-violating edits",
 "table tests cover one example per rule; interactions and boundary counts/values are unexplored",
 ["transaction.go", "signed_transaction.go", "transaction_essence.go", "input.go", "allotment.go", "syntax_validator.go", "unlock.go", "output.go"],
 [("syntactic validators", "transaction.go SyntacticallyValidate, signed_transaction.go, output.go OutputsSyntactical*, input.go, unlock.go UnlocksSigUniqueAndRefValidator")],
 technique="model-based differential test: reference rule set vs validator on valid and mutated transactions")
prop("C08", "Output syntactic rules accept exactly well-formed outputs",
 "Output validation accepts an output if and only if it carries exactly the unlock conditions and features its type requires and permits, meets its storage deposit, has a storage-return amount at least the minimum deposit and less than or equal to its amount, non-zero expiration and timelock slots, valid foundry supply figures, chain-state rules for fresh identifiers (zero counters and index), no self-referential address, no implicit account creation address outside a basic output's address condition, staking only together with a block issuer feature and within the amount, a non-empty delegation validator, restrictions of restricted addresses respected, and metadata (mutable and immutable), tag, key and native-token fields within limits.",
 ["inputs"], "for all outputs of all six types obtained from valid ones by zero or more rule-violating edits",
 "table tests cover one example per rule and type; combinations of conditions and features are not explored",
 ["output.go", "output_*.go", "unlock_cond*.go", "feat*.go", "token_scheme_simple.go", "api_v3.go", "address_multi.go", "address_restricted.go"],
 [("output validators", "output.go OutputsSyntactical*"), ("type restrictions per output", "api_v3.go registrations")],
 technique="model-based differential test: reference rule set vs validator on valid and mutated outputs")
prop("C09", "Block syntactic rules accept exactly well-formed blocks",
 "Block validation accepts a block if and only if protocol version and network ID match, parents are sorted and unique within each set with the allowed counts, with at least one strong parent and weak parents disjoint from strong and shallow-like ones, its slot commitment lies within the commitment-age window relative to its slot and matches a carried transaction's commitment input and creation slot constraints, allowed payload types for the block kind are used, a validation block's highest supported version is at least its version, and the encoded block does not exceed the maximum size.",
 ["inputs"], "for all basic and validation blocks near every boundary, under several protocol parameter sets",
 "table tests cover one example per rule at small slot numbers; windows at boundaries and parameter combinations are not explored",
 ["block.go", "api_v3.go"],
 [("block validators", "block.go syntacticallyValidate (block, basic, validation bodies)")],
 technique="model-based differential test with boundary-biased generators")
# ---------------------------------------------------------------- economics
prop("C10", "Storage deposit equals the specified score of the stored object",
 "The storage score of every output is the offset plus the factor-weighted byte size with the specified extra scores for key-bearing and delegation/staking/issuer parts, and the minimum deposit is that score times the price per byte-score, reported as an overflow error when unrepresentable. Outputs below the minimum are rejected and those at or above it accepted, and the score never depends on amounts and never decreases when optional content is added.",
 ["inputs", "configurations"], "for all outputs and all storage-score parameter sets",
 "tests compare a few outputs under one parameter set",
 ["storagescore.go", "output_*.go", "address_*.go", "feat*.go", "unlock_cond*.go", "block_issuer_key*.go"],
 [("score structure", "storagescore.go"), ("per-type score", "StorageScore methods")],
 technique="differential test against a reference score plus metamorphic monotonicity")
prop("C11", "Work score and block mana cost match the fee schedule",
 "A block's work score is the sum of the configured per-byte, per-input, per-context-input, per-output, per-native-token, staking, block-issuer, allotment, block and signature charges for its content, with validation blocks free, and any sum outside 32 bits is an error. The mana cost of a block is work score times reference mana cost, an error when it does not fit 64 bits.",
 ["inputs", "configurations"], "for all blocks, payloads and outputs and all work-score parameter sets, including overflowing ones",
 "tests compare a few objects under one parameter set; overflow and parameter mixing are not covered",
 ["workscore.go", "block.go", "transaction.go", "signed_transaction.go", "output_*.go", "feat*.go", "unlock*.go"],
 [("per-object work score", "WorkScore methods"), ("cost", "mana.go, block.go ManaCost")],
 technique="differential test against a reference schedule (big integers)")
prop("C12", "Mana decay follows the configured table and never creates mana",
 "Decaying an amount of mana between two slots applies the configured per-epoch factors for exactly the number of epoch boundaries crossed, is the identity within an epoch, and equals a big-integer evaluation of the specified fixed-point formula. Decay never increases an amount, is monotone in amount and in elapsed epochs, and a creation slot after the target slot is an error; reward decay uses epochs the same way.",
 ["inputs", "configurations"], "for all mana amounts up to 64 bits, all slot pairs, and all decay tables",
 "tests pin some values of one table; fixed-point rounding and carry behaviour are quantified over 64-bit inputs",
 ["mana_decay_provider.go", "mana.go"],
 [("fixed-point multiplication and table steps", "mana_decay_provider.go")],
 technique="differential test against math/big reference plus metamorphic relations")
prop("C13", "Mana generation equals the closed-form per-slot formula",
 "Mana generated by an amount of base tokens between two slots equals the specified fixed-point closed form (whole epochs decayed, partial first and last epochs) evaluated with big integers, for any genesis slot and any epoch length, and is an error rather than a wrong value when it overflows or when slots are reversed. It is zero within the same slot, monotone in amount up to one rounding unit and bounded by amount times rate times elapsed slots; an output's potential mana is that generation for its amount less its minimum storage deposit (zero if below).",
 ["inputs", "configurations"], "for all token amounts up to the token supply, slot pairs from the genesis slot on, genesis slots and mana parameter sets",
 "tests pin some values with genesis slot zero",
 ["mana_decay_provider.go", "mana.go", "timeprovider.go"],
 [("generation formula", "mana_decay_provider.go"), ("potential mana", "mana.go PotentialMana")],
 technique="differential test against math/big reference plus metamorphic relations")
prop("C14", "Slot, epoch and time conversions are mutually consistent",
 "For any genesis time, genesis slot, slot duration and epoch length: a time maps to the slot whose half-open interval contains it (the genesis slot for earlier times), slot start and end times delimit contiguous non-overlapping slots, every slot belongs to exactly the epoch whose start and end slots enclose it, epoch durations and starts are multiples of the epoch length above the genesis slot, and conversions compose to the identity. Sub-second time components are treated consistently and never move a slot boundary.",
 ["inputs", "configurations"], "for all time provider configurations, times, slots and epochs in range",
 "tests check one configuration and a handful of slots",
 ["timeprovider.go", "slot_index.gen.go", "epoch_index.gen.go"],
 [("conversions", "timeprovider.go")],
 technique="differential test against a big-integer/time reference plus inverse laws")
# ---------------------------------------------------------------- VM
VMF = ["vm/vm.go", "vm/nova/vm.go", "output.go", "unlock_cond.go"]
prop("C15", "Base tokens are conserved and storage-deposit returns honoured",
 "A transaction executes only if the sum of base tokens on inputs equals the sum on outputs. For every address owed storage-deposit returns by consumed outputs that were not unlocked by that return address itself, it executes only if the simple (feature-less, single-condition) basic outputs to exactly that address sum to at least the returns owed, otherwise it is rejected. A transaction within these limits that breaks no other rule executes.",
 ["inputs"], "for all transactions and resolved inputs generated as valid ones plus amount edits, including multiple returns to the same address and expired conditions",
 "scenario tests cover a handful of fixed transactions",
 VMF, [("base token balance and deposit returns", "vm/vm.go ExecFuncBalancedBaseTokens")],
 technique="model-based differential test against a reference executor")
prop("C16", "Mana is conserved: outputs never hold more than inputs provide",
 "A transaction executes only if stored mana on outputs plus allotments is at most decayed stored mana plus potential mana of inputs plus claimed rewards at the creation slot; any shortfall destroyed is permitted only with the mana-burning capability set; and overflow anywhere or an input younger than the transaction is rejected. Otherwise-valid transactions within these limits are accepted.",
 ["inputs"], "for all transactions, input ages, rewards and allotments generated as valid ones plus mana edits",
 "scenario tests use a handful of fixed values with little decay",
 VMF + ["mana.go"], [("mana totals", "vm/vm.go TotalManaIn/TotalManaOut"), ("balance", "vm/vm.go ExecFuncBalancedMana")],
 technique="model-based differential test against a reference executor")
prop("C17", "Native tokens are conserved and only foundries mint or melt them",
 "For every native token a transaction executes only if the amount on outputs minus inputs equals what its foundry's minted and melted counters account for, within maximum supply; without the foundry in the transaction outputs never exceed inputs and a deficit requires the native-token burning capability. A foundry is created only together with a transition of its owning account which raises that account's foundry counter by the foundries created, with serial numbers within the raised range and ordered, and its maximum supply and immutable features never change; its destruction requires melting consistent with all tokens being gone and the foundry-destruction capability.",
 ["inputs"], "for all foundry/native-token transactions generated as valid ones plus edits of amounts, counters and serials",
 "scenario tests cover a few fixed transitions",
 VMF + ["token_scheme_simple.go", "output_foundry.go"], [("native token balance", "vm/vm.go ExecFuncBalancedNativeTokens"), ("scheme transitions", "token_scheme_simple.go"), ("foundry transitions", "vm/nova/vm.go foundry*")],
 technique="model-based differential test against a reference executor")
prop("C18", "Inputs are consumed only with the authorisation of their owner",
 "A transaction's inputs unlock if and only if each input's current owner is authorised: a direct key-hash address by a signature over exactly this transaction by that key (or a reference to an earlier input unlocked by the same address), an account, anchor or NFT address by a reference of the matching kind to the earlier input that unlocked that chain, and anchors by their governor or state controller depending on the transition. Any altered signature, wrong key, forward, self or mismatching reference, or altered signed content is rejected.",
 ["inputs"], "for all transactions with mixed owners, chained references and multiple inputs, with valid unlocks and adversarial edits of them",
 "scenario tests cover some fixed unlock chains; forgery is quantified over all unlock arrangements",
 VMF + ["unlock.go", "address_signer.go", "signature_ed25519.go"], [("unlock validation", "vm/vm.go ValidateUnlocks and helpers")],
 technique="model-based differential test with adversarial unlock mutation")
prop("C19", "Multi-addresses need their threshold; restricted addresses their permits",
 "An input owned by a multi-address unlocks if and only if distinct listed addresses actually unlocked reach the threshold in total weight, with one unlock slot per listed address and no nesting. A restricted address can be sent only outputs whose contents (native tokens, mana, timelock, expiration, storage return, and output type) its capabilities permit, is unlocked exactly like the address it wraps, and capability sets are minimal and unambiguous.",
 ["inputs"], "for all multi-addresses (weights, thresholds, mixes of member kinds), unlock arrangements and restricted capability masks",
 "scenario tests cover a few configurations",
 VMF + ["address_multi.go", "address_restricted.go", "address_capabilities_bitmask.go", "output.go"], [("multi unlock", "vm/vm.go unlockMultiAddress"), ("restriction checks", "output.go OutputsSyntacticalAddressRestrictions, address_restricted.go")],
 technique="model-based differential test over weights, masks and unlock arrangements")
prop("C20", "Timelocks and expirations gate spending exactly at their slots",
 "Relative to the transaction's commitment input, an output with a timelock is spendable only once the timelock slot is at or before the future-bounded slot (commitment slot plus minimum committable age); an expiring output is spendable only by its owner while the expiration is after the past-bounded slot (commitment slot plus maximum committable age), only by its return address once it is at or before the future-bounded slot, and by no one in between. Without a commitment input such outputs cannot be consumed at all.",
 ["inputs", "configurations"], "for all timelock/expiration slots, commitment slots, committable-age parameters and unlocking identities",
 "scenario tests hit a few slot values",
 VMF + ["unlock_cond_timelock.go", "unlock_cond_expiration.go"], [("timelock exec func", "vm/vm.go ExecFuncTimelocks"), ("owner resolution", "output.go/vm.go expiration")],
 technique="model-based differential test with boundary-biased slots")
prop("C21", "Account, anchor and NFT chains keep identity and immutables",
 "A chain output with a fresh (zero) identifier is created only without predecessor and with its issuer unlocked; an existing identifier appears on outputs only if consumed on inputs, at most once; and immutable features never change. Account foundry counters never decrease and rise exactly by foundries created; anchor state changes raise the index by one and leave controllers and metadata alone while governance changes leave state index, amount and state metadata alone; and destroying a chain requires the matching capability.",
 ["inputs"], "for all account/anchor/NFT transitions generated as valid ones plus edits of each field",
 "scenario tests cover one example per rule",
 VMF + ["output_account.go", "output_anchor.go", "output_nft.go"], [("state transition functions", "vm/nova/vm.go accountSTVF, anchorSTVF, nftSTVF"), ("chain matching", "vm/vm.go ExecFuncChainTransitions")],
 technique="model-based differential test against a reference executor")
prop("C22", "Block-issuer and staking accounts obey issuance, lock and stake rules",
 "A block-issuer account transitions only with a commitment input and non-negative block issuance credit, cannot drop the feature before expiry or set an expiry before the past-bounded slot, and while it remains issuer its mana cannot leave except into allotments to itself or outputs mana-locked to it. A staking feature starts at the current epoch with at least the unbonding period, cannot be removed or have its stake, cost or start changed or its end shortened before it ends, and rewards are claimed if and only if staking is removed or replaced.",
 ["inputs"], "for all account transitions at and around expiry, epoch and unbonding boundaries",
 "scenario tests hit a few slot and epoch values",
 VMF + ["feat_blockissuer.go", "feat_staking.go", "output_account.go"], [("block issuer and staking transitions", "vm/nova/vm.go accountBlockIssuerSTVF, accountStakingSTVF")],
 technique="model-based differential test with boundary-biased slots")
prop("C23", "Delegations keep identity, amount and validator, and pay once",
 "A delegation output is created only with a zero identifier, delegated amount equal to its amount, end epoch zero, and start epoch the one prescribed by the commitment input's slot and registration window. It transitions once, to the delayed-claiming state with the derived identifier, same delegated amount, validator and start epoch and the prescribed end epoch, without claiming rewards; rewards are claimed exactly when it is destroyed.",
 ["inputs", "configurations"], "for all delegation outputs, commitment slots around registration boundaries, and field edits",
 "scenario tests hit a few slot values",
 VMF + ["output_delegation.go"], [("delegation transitions", "vm/nova/vm.go delegationSTVF"), ("registration slot", "vm/vm.go, api_v3")],
 technique="model-based differential test with boundary-biased slots")
prop("C24", "Implicit accounts can only become accounts with their derived ID",
 "A basic output held by an implicit account creation address can only be consumed in a transaction that is unlocked by the address key and turns it into exactly one account output with the derived account ID, foundry counter zero and a block-issuer feature; the account has non-negative block issuance credit and its mana is locked like any block issuer's; it cannot be destroyed. At most one implicit account creation address is consumed per transaction, and a transaction creates no such outputs with extra conditions or features.",
 ["inputs"], "for all conversions generated as valid ones plus edits",
 "scenario tests cover a few fixed conversions",
 VMF + ["address_implicit_account_creation.go", "output_basic.go"], [("implicit account handling", "vm/vm.go, vm/nova/vm.go implicitAccountSTVF")],
 technique="model-based differential test against a reference executor")
prop("C25", "Sender and issuer features prove who unlocked the transaction",
 "A transaction whose outputs carry a sender feature, or whose newly created chain outputs carry an issuer feature, executes only if the named address (or the address a restricted one wraps) is unlocked by one of the transaction's inputs, including chain addresses unlocked by their own outputs and multi-addresses. Removing the unlocking input makes it rejected; adding it makes it accepted.",
 ["inputs"], "for all sender/issuer addresses of every kind against all sets of unlocked inputs",
 "scenario tests cover a few pairs",
 VMF + ["feat_sender.go", "feat_issuer.go"], [("sender/issuer check", "vm/vm.go ExecFuncSenderUnlocked, IsIssuerOnOutputUnlocked")],
 technique="model-based differential test against a reference executor")
prop("C26", "Transaction execution is deterministic and side-effect free",
 "Executing the same transaction on the same resolved inputs any number of times, from any number of goroutines, after a codec round-trip, or with its context presented in another map order, gives the same verdict and the same created outputs. Execution never alters the transaction, its unlocks, the consumed outputs or the context it was given.",
 ["inputs", "schedules"], "for all valid and invalid transactions, repeated and concurrent executions",
 "tests execute each scenario once",
 VMF, [("execution entry points", "vm/nova/vm.go Execute, ValidateUnlocks")],
 technique="metamorphic testing (repeat, concurrent, round-trip) with snapshots")
# ---------------------------------------------------------------- builders
prop("C27", "The transaction builder only produces valid, fully accounted transactions",
 "A transaction built and signed by the transaction builder from spendable inputs passes syntactic validation and execution, contains the requested inputs, outputs, allotments and context inputs, and is signed by exactly the needed keys. When unbound mana is stored or allotted automatically, stored plus allotted mana equals available mana exactly, the minimum required allotment covers the block's mana cost, and account-bound mana stays with its account; otherwise building reports an error.",
 ["inputs", "programs"], "for all sequences of builder calls over generated wallets of basic, account and other chain outputs",
 "tests build a few fixed transactions",
 ["builder/transaction_builder.go", "address_signer.go"], [("building, mana allotment and storing", "builder/transaction_builder.go")],
 technique="stateful generation of builder programs, checked by the real and reference executors")
prop("C28", "Blocks are signed over their content and verify only unaltered",
 "A block built by the block builder carries the set fields, sorted deduplicated parents and enough maximum burned mana, and its signature verifies; attestations extracted from it verify and yield the same block ID. Altering any header or body byte, key or signature makes verification fail.",
 ["inputs"], "for all built basic and validation blocks and single-bit alterations",
 "tests sign and verify a few blocks without alterations",
 ["builder/block_builder.go", "block.go", "attestation.go", "signature_ed25519.go"], [("signing message", "block.go"), ("attestation", "attestation.go")],
 technique="property-based test with bit-flip fault injection")
prop("C29", "Output builders yield valid successors and never touch the original",
 "Building an output from a previous output with any sequence of builder operations leaves the previous output (and slices passed in) unchanged, copies everything not overridden, sets exactly what each operation names in canonical order, and so produces an output that passes output validation whenever the values asked for are valid. Changing immutable features or mixing state and governance operations of an anchor is refused. Transition helpers (state, governance, block-issuer, staking) only change what the named transition allows, and the state index advances by exactly one in a state transition, however often Build is called; foundry counters advance as asked.",
 ["programs", "inputs"], "for all sequences of builder operations on generated previous outputs",
 "tests run a few builder call chains and never inspect aliasing",
 ["builder/output_builder_*.go", "output_*.go", "feat*.go"], [("builder cloning", "builder/output_builder_*.go NewXFromPrevious")],
 technique="stateful model-based generation with deep snapshots")
prop("C30", "Merkle roots commit to the ordered values and proofs are sound",
 "The Merkle root of a value list equals the specified BLAKE2b tree (leaf and node prefixes, largest power-of-two split, empty-list hash), and every value's inclusion proof is accepted for that value and hashes to the root. A proof that hashes to the root and contains a value does so only for a value of the list, whatever alteration it went through, and proofs survive binary and JSON round trips.",
 ["inputs"], "for all value lists of any length and all indices",
 "tests check a few small lists",
 ["merklehasher/merkle_hasher.go", "merklehasher/merkle_proof.go"], [("tree hashing and proofs", "merklehasher/*")],
 technique="differential test against reference tree plus mutation")
prop("C31", "Output ID proofs bind an output to its transaction and index",
 "For every output of every transaction, the generated output ID proof recomputes exactly that output's ID from the output alone and survives codec round trips. A different output, altered slot, transaction identifier part, index or proof content never yields the original output ID, and out-of-range indices are errors.",
 ["inputs"], "for all transactions, output indices and proof alterations",
 "tests check a few transactions and the honest proof only",
 ["output_id_proof.go", "transaction.go", "merklehasher/merkle_proof.go"], [("proof creation and verification", "output_id_proof.go")],
 technique="property-based test with proof mutation")
prop("C32", "Bech32 addresses round-trip and detect every small error",
 "Every address of every kind encodes to bech32 under any network prefix and parses back to an equal address and prefix, regardless of all-upper or all-lower case. Parsing accepts only strings that re-encode to themselves (case aside): any one to three character substitutions, mixed case, wrong length, bad padding, trailing or missing data is rejected, and so is the text of an address which no object may contain (a restriction of a restricted or implicit account creation address, or a mask that is too long or ends in a zero byte).",
 ["inputs"], "for all addresses, prefixes and corruptions of their text",
 "tests use fixed vectors and random addresses of some kinds without corruption",
 ["bech32/bech32.go", "bech32/checksum.go", "bech32/chars.go", "address.go"], [("checksum and base32 regrouping", "bech32/*"), ("address length check", "address.go ParseBech32")],
 technique="round-trip, differential against a reference bech32, and corruption fuzzing")
prop("C33", "Clones are equal and independent; equality and keys follow content",
 "Cloning any output, feature, unlock condition, token scheme, address, context input, unlock, transaction or signed transaction gives an equal object, and mutating any part of the clone leaves the original's encoding unchanged and vice versa. Equality holds exactly when encodings are equal, and address map keys are equal exactly when addresses are.",
 ["inputs"], "for all objects of those kinds and all in-place mutations of every reachable field",
 "tests clone few objects and never mutate",
 ["output_*.go", "feat*.go", "unlock_cond*.go", "address*.go", "token_scheme*.go", "transaction.go", "signed_transaction.go", "input*.go"], [("Clone/Equal/Key", "methods of each type")],
 technique="metamorphic test with reflective deep mutation and snapshots")
# ---------------------------------------------------------------- config/infrastructure
prop("C34", "The protocol version history answers consistently under concurrency",
 "After any sequence of version and parameter registrations, the version in force for an epoch, slot or time is the one with the greatest start epoch not after it (epoch start per version, latest and committed API likewise), and the history hash depends only on the registered history. Unknown versions or unavailable parameters are refused (an error, or a panic where the method returns none), never answered with another version's API, and concurrent readers and writers never observe inconsistent answers, races or crashes.",
 ["histories", "schedules"], "for all registration and query sequences, sequential and concurrent",
 "tests run a couple of fixed sequences without concurrency",
 ["api_epoch_based_provider.go", "api_protocol_epoch_versions.go", "api_single_version_provider.go"], [("version map and lookup", "api_epoch_based_provider.go, api_protocol_epoch_versions.go")],
 technique="stateful model-based testing plus race-detector stress")
prop("C35", "Protocol parameters derive, encode and compare faithfully",
 "Protocol parameters built from options report exactly the configured values and the derived ones (network ID as hash prefix of the name, mana and time settings, token supply), and their binary and JSON forms round-trip. Their hash and equality distinguish any two sets differing in any field and agree for equal sets.",
 ["configurations"], "for all option combinations and single-field perturbations",
 "tests use a few fixed parameter sets",
 ["api_v3_protocol_parameters.go", "api_protocol_parameters.go", "api.go"], [("option application", "api_v3_protocol_parameters.go"), ("hash and equality", "api_protocol_parameters.go")],
 technique="property-based test with single-field perturbation")
prop("C36", "Derived protocol parameters follow their formulas, unsafe sets are refused",
 "Protocol parameters derive their decay factor table, sum of decay factors, bootstrapping duration and initial and final target reward rates from the configured values by the specified formulas. Combinations that could overflow the mana supply, or break the documented constraints between liveness thresholds, committable ages, epoch nearing threshold, congestion thresholds, scheduler rate, pool coefficient and validation blocks per slot, are refused exactly at their boundary; all others are accepted with the values given.",
 ["configurations"], "for all parameter sets within the documented ranges and all boundary values of each constraint",
 "tests derive from one or two fixed parameter sets and check a few constraint violations", ["api_v3_protocol_parameters.go"], [("derivation", "api_v3_protocol_parameters.go derive* functions"), ("sanity checks", "api_v3_protocol_parameters.go *SanityCheck")],
 technique="differential test against a reference derivation and boundary-value generation of constraint violations")
prop("C37", "Transaction failure reasons are stable, total and most specific",
 "Every error the executor returns maps to the failure reason documented for its cause however deeply it is wrapped, an unknown (or no) error maps to the generic reason, and reason codes round-trip through their wire forms. The reason a rejected transaction reports names the rule that was violated.",
 ["inputs"], "for all wrapped error chains and all rejected generated transactions",
 "tests check individual scenarios' errors only", ["api/core.go", "error.go", "vm/vm.go", "vm/nova/vm.go"], [("error to reason mapping", "api/core.go DetermineTransactionFailureReason")],
 technique="property-based test over wrapped errors and single-fault transactions")
prop("C38", "Proof-of-work mining returns only nonces meeting the target",
 "A mined nonce always satisfies the requested number of trailing zeros under independent recomputation, for any data, target and worker count. Mining stops with an error promptly on cancellation and never returns an insufficient nonce.",
 ["inputs", "schedules"], "for all data, targets and worker counts, with cancellation at arbitrary times",
 "tests mine one or two fixed messages", ["blockissuer/pow/pow.go"], [("hash batches and trailing-zero count", "blockissuer/pow")],
 technique="property-based test with independent recomputation and random cancellation")
prop("C39", "The node client returns exactly what was served for the request, or an error",
 "Every call of the node client (core, indexer, management and block issuer APIs) sends the documented method, route, parameters, headers and body, and returns the decoded object a faithful server sent, over JSON and binary, following all pages of paged results. A server answering with an error status (reported as the matching error), no content, or an empty, truncated, malformed or overlong body makes the call fail with an error; an output is returned only if its ID proof yields the requested output ID. Connecting fails with an error unless the node's info holds usable protocol parameters in force at its latest commitment, which the client then answers with; plugin clients are given exactly if the node lists the plugin. No answer makes a client panic.",
 ["fault_sequences", "inputs"], "for all served objects and injected response faults, over a loopback HTTP server",
 "tests mock happy-path responses", ["nodeclient/http.go", "nodeclient/http_api_client.go", "nodeclient/indexer_client.go", "nodeclient/management_client.go", "nodeclient/blockissuer_client.go", "api/endpoints.go", "api/core.go", "api/indexer.go", "output_id_proof.go"], [("response interpretation", "nodeclient/http.go"), ("output ID verification", "nodeclient/http_api_client.go OutputByID")],
 technique="fault-injecting loopback server with generated objects")
prop("C40", "Key derivation and signing match their standards and owners",
 "Keys derived from a seed, mnemonic or path equal those of an independent SLIP-10 ed25519 derivation, are deterministic and differ for different indices, and addresses derive from the public-key hash. A 24-word mnemonic is accepted exactly when its checksum is right, and the mnemonic of a random or mnemonic-made key manager restores its keys. Signers sign for exactly the addresses they hold keys for, their signatures verify for the message and no other, and unknown addresses are errors.",
 ["inputs"], "for all seeds, indices, messages and key sets",
 "tests use one or two fixed keys", ["wallet/keymanager.go", "wallet/account.go", "address_signer.go", "address_ed25519.gen.go", "signature_ed25519.go"], [("derivation", "wallet/keymanager.go"), ("signing", "address_signer.go")],
 technique="differential test against an independent SLIP-10 implementation")
prop("C42", "The event client delivers exactly the events of its registrations",
 "Every registration of the event client subscribes to the documented topic once; each event of that topic is delivered to its channel as the object its payload encodes, and to no other; a truncated, malformed or overlong payload is delivered nowhere and reported once on the error channel, dropped if nobody can take it, without blocking or panicking. A refused registration reports the broker's error, closing unsubscribes the topic, registering with an inactive client panics with the documented error, and events nobody takes are given up when the context ends.",
 ["inputs", "histories", "fault_sequences"], "for all registrations, payloads, and histories of connecting, registering, receiving, closing and failing",
 "tests register for one topic and receive one block", ["nodeclient/event_api_client.go", "nodeclient/http_api_client.go", "api/endpoints.go"], [("event decoding", "nodeclient/event_api_client.go subscribeToTopic"), ("topics", "api/endpoints.go EventAPITopic*")],
 technique="stateful model-based test over a recorded broker connection")
prop("C41", "Identifier text forms round-trip and ID collections behave as sets",
 "Hex and text forms of every identifier, index, hex-encoded number and byte string parse back to the same value, and only strings of exactly the right length are accepted. Sorting and deduplicating identifier collections yields the sorted set of their elements, key and ID collections keep order and reject duplicates, and capability bit masks report exactly the bits set.",
 ["inputs"], "for all identifiers, collections with repeats, and malformed texts",
 "tests cover a few identifiers of some types", ["identifier.gen.go", "identifier_account.gen.go", "block_id.gen.go", "commitment_id.gen.go", "output_id.go", "output_id.gen.go", "transaction_id.gen.go", "block_issuer_key.go", "hexutil/numbers.go", "slot_index.gen.go", "epoch_index.gen.go", "bitmask.go"], [("hex parsing", "*.gen.go FromHexString/UnmarshalText"), ("set helpers", "RemoveDupsAndSort, block_issuer_key.go")],
 technique="property-based round-trip and set-model test")
prop("C43", "Outputs tell truthfully who may spend them and when",
 "For every output, address, next anchor state and pair of slot bounds, the spendability queries (owner, unlockable by, timelock, expiration, return address, mana lock) answer as the conditions say: nobody before the timelock; the owner alone before expiration, the return address alone from it on, nobody while undecided; the controller or governor of an anchor by its next state, an error if that is impossible. Executing a transaction agrees: it is accepted with a key's signature exactly if the consumed output says that key may spend it.",
 ["inputs"], "for all outputs, addresses, next states and slot bounds around the condition slots",
 "tests sample a handful of outputs and bounds", ["unlock_cond.go", "output.go", "output_anchor.go", "output_basic.go", "output_nft.go", "output_account.go", "output_foundry.go", "output_delegation.go", "vm/vm.go"], [("queries", "unlock_cond.go unlockableBy, CheckExpirationCondition, HasManalockCondition"), ("owners", "output.go outputUnlockableBy, output_anchor.go Owner"), ("execution", "vm/vm.go addressToUnlock, checkExpiration")],
 technique="property-based differential test: queries against a reference rule and against execution of signed transactions")
prop("C44", "Views and collections report exactly the contents of their objects",
 "Reading never changes an object and leaves nothing out: a transaction lists its inputs, context inputs by kind, outputs by ID, allotments and native token sums exactly; a block lists its parents by kind in order; input sets list their outputs and chains by ID; outputs report their amount, mana, type, conditions and features; filters keep exactly what passes. Lists of conditions and features hold one element per type through any edits, set comparisons visit every pair once, and the slice validators accept exactly strictly increasing sequences.",
 ["inputs", "histories"], "for all transactions, blocks, outputs, sets and edit histories",
 "tests reach these helpers with a few fixed objects, most only indirectly", ["transaction.go", "block.go", "output.go", "feat.go", "unlock_cond.go", "vm/types.go", "syntax_validator.go", "allotment.go", "feat_native_token.go", "chain.go"], [("transaction views", "transaction.go Inputs, BICInputs, RewardInputs, CommitmentInput, OutputsSet"), ("block views", "block.go Parents, ParentsWithType, ForEachParent"), ("sets", "vm/types.go ChainInputSet, output.go Filter, NativeTokenSum; feat.go EveryTuple, FeatureUnchanged"), ("lists", "feat.go, unlock_cond.go Upsert, Remove, Sort, Set"), ("validators", "syntax_validator.go")],
 technique="property-based and stateful model-based test of every view against the object's own fields")
prop("C45", "Every execution rule decides by itself",
 "Each rule of the executor (timelocks, senders, base tokens and deposits to return, native tokens, each chain's own transition, mana, implicit accounts) run alone accepts a transaction exactly if that rule holds, whatever other rules it breaks; run together, in any order, they accept exactly if all hold, and the error names a rule that is broken. The chains and mana totals the rules work on are exactly those of the inputs and outputs.",
 ["inputs", "configurations"], "for all transactions with any set of broken rules, all rules and orders of rules",
 "tests check one broken rule at a time through the whole executor", ["vm/vm.go", "vm/nova/vm.go", "vm/types.go"], [("rules", "vm/vm.go ExecFunc…, RunVMFuncs"), ("transitions", "vm/nova/vm.go ChainSTVF"), ("working set", "vm/nova/vm.go NewVMParamsWorkingSet, vm/vm.go TotalManaIn, TotalManaOut")],
 technique="property-based differential test of every rule and every chain transition against the reference executor's rule set")
prop("C46", "Orders are total and sorting gives the order the syntax takes",
 "Allotments, context inputs, weighted addresses, block issuer keys, features, unlock conditions, output IDs and attestations compare by what identifies them (account; type, then account or index; address ID; type and hash; type; bytes; slot, time, body hash) and by nothing else: a total order that calls equal exactly what the syntax treats as duplicates. Sorting any permutation gives the same ascending list, keeps every element and changes none, and validators and codec accept exactly the strictly ascending lists.",
 ["inputs"], "for all lists, permutations and pairs of elements that agree in part",
 "tests compare a few pairs and mostly use lists that are sorted already", ["allotment.go", "input_context.go", "input_commitment.go", "input_block_issuance_credit.go", "input_reward.go", "address_multi.go", "block_issuer_key.go", "block_issuer_key_ed25519_pubkeyhash.go", "feat.go", "unlock_cond.go", "attestation.go", "output_id.gen.go", "syntax_validator.go", "api_common.go"], [("comparison", "Compare of Allotment, ContextInput, AddressWithWeight, BlockIssuerKey, Feature, UnlockCondition, OutputID, Attestation"), ("sorting", "Sort of Allotments, ContextInputs, AddressesWithWeight, BlockIssuerKeys, Features, UnlockConditions, OutputIDs"), ("acceptance", "syntax_validator.go LexicalOrderAndUniquenessValidator, api_common.go validators")],
 technique="property-based test of pairwise comparison, sorting and acceptance against reference ranks")

NA = []

def main(claimed):
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for x in P: f.write(json.dumps(x["p"]) + "\n")
    checks = []
    for x in P:
        i = x["p"]["id"]
        if i not in claimed: continue
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
          "technique": x["technique"], "level": "exploration", "level_note": ("Random structured generation against an explicit oracle." + " " + x["note"]).strip() + COMMON})
    na = NA + [{"property": x["p"]["id"], "reason": "check under construction; not yet claimed"} for x in P if x["p"]["id"] not in claimed]
    m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
         "notes": "All checks compile one external Go test binary against /repo's working tree (public API only; no hooks)."}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")

if __name__ == "__main__":
    cl = open(os.path.join(ROOT, "tools", "claimed.txt")).read().split()
    main(set(cl))
