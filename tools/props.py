#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run from anywhere; rewrites the file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=False):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "A Merkle-Patricia trie is a map, and its root depends only on its contents",
  "After any sequence of insertions, overwrites and deletions of keys of which none is a proper prefix of another, a trie answers every lookup, membership test and iteration exactly as an ordinary map with the same contents would, deletion reports the value it removed, and clones taken earlier are unaffected. "
  "Its root is the Ethereum Merkle-Patricia root of that map: independent of the order and history of operations, of when roots were asked for in between, and of whether the caching or the non-caching trie is used.",
  ["histories"], "all operation sequences (insert, overwrite, delete, ask for the root, clone) over any prefix-free key set",
  "Unit tests and the random tests insert a few hundred random 64-nibble keys and delete some; they do not visit the histories in which an extension splits, a branch collapses into a leaf/extension, a node is shorter than 32 bytes, or a cached hash is asked for between two updates, and they compare only a handful of roots to a reference.",
  ["mpt_trie/src/trie_ops.rs", "mpt_trie/src/partial_trie.rs", "mpt_trie/src/trie_hashing.rs", "mpt_trie/src/utils.rs"],
  [("insertion, deletion, branch collapse, lookup, iteration", "mpt_trie/src/trie_ops.rs"), ("cached root invalidation", "mpt_trie/src/partial_trie.rs"), ("node encoding and hashing", "mpt_trie/src/trie_hashing.rs")])

p("C02", "Pruned Merkle-Patricia tries keep the root and never answer wrongly",
  "Pruning a trie to any set of keys keeps its root, keeps every one of those keys readable (and provably absent keys absent), and replaces everything else by hashes. "
  "Any later insertion or deletion on the pruned trie either gives exactly the result and root that the same operation gives on the full trie, or reports an error and changes nothing; a lookup finds the true value or, for a key in a hashed-out part, nothing, never a wrong value; and a trie rebuilt from the Merkle proofs of those keys is the same pruned trie.",
  ["histories", "inputs"], "all tries over a small key universe, all subsets of queried keys (present or absent), all following update sequences",
  "Tests prune a few fixed tries and compare roots; the interaction of pruning with later inserts/deletes (collapse onto a hashed-out sibling, extension in front of a hash node) is only met on real block witnesses, which are not part of the stable tests.",
  ["mpt_trie/src/trie_subsets.rs", "mpt_trie/src/trie_ops.rs", "mpt_trie/src/builder.rs", "mpt_trie/src/special_query.rs"],
  [("subset extraction", "mpt_trie/src/trie_subsets.rs"), ("updates that meet a hash node", "mpt_trie/src/trie_ops.rs"), ("rebuilding from proofs", "mpt_trie/src/builder.rs")])

p("C03", "Trie paths behave as nibble sequences",
  "Every operation on a trie path (building from bytes, integers, hex strings or hashes; push, pop, split, merge, truncate, reverse, equality and ordering, common prefix, nibble access) gives the result that the same operation gives on the plain sequence of its nibbles, for every length from 0 to 64 including leading zero nibbles. "
  "Paths are ordered by length first, then by their nibbles. The compact (hex-prefix) encoding agrees with the Ethereum definition, and conversions out of a path and back in lose nothing.",
  ["inputs"], "all nibble sequences of small length, and boundary patterns at every length up to 64",
  "Tests check a handful of hand-picked literals; leading zeros, odd lengths and the 63/64-nibble limits interact in every operation.",
  ["mpt_trie/src/nibbles.rs"],
  [("all path operations", "mpt_trie/src/nibbles.rs")])

p("C04", "Trie diagnostics report a difference exactly when there is one",
  "Comparing two tries reports no difference when their roots are equal, and when the roots differ it reports a difference whose path leads, in the two tries, to sub-tries whose hashes really differ and have the reported hashes (when there are many differences, a bounded number of them may be listed). "
  "A path query returns exactly the nodes on the way to the key, in order, and states correctly whether the key was found.",
  ["inputs"], "all pairs of tries over small key universes, full or pruned, and all query keys",
  "Tests compare three or four hand-made pairs.",
  ["mpt_trie/src/debug_tools/diff.rs", "mpt_trie/src/debug_tools/query.rs", "mpt_trie/src/special_query.rs", "mpt_trie/src/utils.rs"],
  [("difference search", "mpt_trie/src/debug_tools/diff.rs"), ("path query", "mpt_trie/src/debug_tools/query.rs, mpt_trie/src/special_query.rs")])

p("C05", "A sparse Merkle tree is a map, and its root depends only on its contents",
  "After any sequence of writes, overwrites and deletions (writing zero), the sparse Merkle tree returns for every key the value last written, or zero if there is none, and its root equals the root of a tree into which the same contents were written in any other order. "
  "The keys of distinct account fields, code lengths and storage slots are distinct and depend on nothing but the address and slot.",
  ["histories"], "all write/delete sequences over key sets with shared prefixes of any length",
  "The unit tests replay a few fixed histories from another implementation; deletions that collapse several levels and reads of absent keys are hardly touched.",
  ["smt_trie/src/smt.rs", "smt_trie/src/keys.rs", "smt_trie/src/bits.rs", "smt_trie/src/utils.rs"],
  [("set/get/delete", "smt_trie/src/smt.rs"), ("key derivation", "smt_trie/src/keys.rs, smt_trie/src/bits.rs")])

p("C06", "Serialised and pruned sparse Merkle trees keep the root and the readable values",
  "The flat serialisation of a sparse Merkle tree hashes to the root of the tree. "
  "Serialising only a chosen set of keys still hashes to the same root and still contains the value of each chosen key and the proof of absence of each chosen absent key.",
  ["inputs", "histories"], "all small trees and all subsets of kept keys (present or absent)",
  "Tests serialise random large trees and compare the hash; pruning with absent keys, single-leaf trees and the empty tree are not enumerated.",
  ["smt_trie/src/smt.rs"],
  [("serialisation and pruning", "smt_trie/src/smt.rs"), ("hashing a serialised tree", "smt_trie/src/smt.rs")])

p("C07", "Splitting a block into batches never changes what is proven",
  "For any block and any batch size, the batches produced by the trace decoder chain: each starts from exactly the state, transaction and receipt roots, transaction number and gas with which its predecessor ended, all transactions appear once and in order, and withdrawals and end-of-block effects appear in the last batch only. "
  "The final roots, gas and block data do not depend on the batch size, and each batch carries pruned tries with the root it claims that contain everything the batch reads or changes.",
  ["inputs", "configurations"], "all small blocks of traced transactions (transfers, creations, storage writes and deletions, self-destructs, failures, empty) and all batch sizes",
  "The repository's decoder tests need recorded mainnet blocks at one batch size; nothing varies the batch size or the shape of the block.",
  ["trace_decoder/src/core.rs", "trace_decoder/src/observer.rs", "evm_arithmetization/src/world.rs", "evm_arithmetization/src/tries.rs"],
  [("batching and per-batch state application", "trace_decoder/src/core.rs"), ("trie masking", "trace_decoder/src/core.rs")])

p("C08", "Decoding a block witness recovers exactly the encoded state",
  "For every state (accounts, balances, nonces, code, storage, with any part replaced by hashes), decoding the compact witness of its tries yields tries with the same root, the same readable accounts and slots and the same code, and decoding the separate direct/combined trie forms yields the same. "
  "Truncated or malformed witnesses are rejected (or, for the sparse-Merkle form, stop the decoder) and never decoded to a different state.",
  ["inputs"], "all small state tries with every choice of hashed-out nodes; every single-byte truncation of the witness",
  "Tests decode a few recorded witnesses.",
  ["trace_decoder/src/wire.rs", "trace_decoder/src/type1.rs", "trace_decoder/src/type2.rs", "trace_decoder/src/core.rs"],
  [("instruction parsing", "trace_decoder/src/wire.rs"), ("witness execution", "trace_decoder/src/type1.rs"), ("SMT witness", "trace_decoder/src/type2.rs")])

p("C09", "World-state updates match a plain account map",
  "Any sequence of account creations, balance/nonce/code/storage updates, self-destructs and clears applied to a world state reads back like the same sequence applied to a plain map of accounts, and the resulting root is the Ethereum state root of that map. "
  "Ordered transaction and receipt tries have the root of the list of inserted items, and pruning them or the state to any set of addresses keeps the root.",
  ["histories"], "all operation sequences up to a bounded length over a few addresses and slots; lists of any length across the index-encoding boundaries",
  "The world-state code is only exercised through whole recorded blocks.",
  ["evm_arithmetization/src/world.rs", "evm_arithmetization/src/tries.rs"],
  [("account operations", "evm_arithmetization/src/world.rs"), ("typed tries", "evm_arithmetization/src/tries.rs")])

p("C10", "Every arithmetic, comparison and bitwise instruction computes its EVM result",
  "For every combination of operands, each arithmetic, modular, comparison, signed, shift, byte, exponentiation and bitwise instruction executed by the virtual machine leaves on the stack exactly the value the EVM specification defines (256-bit wrap-around, division by zero gives zero, two's-complement signed forms, full-width intermediate products). "
  "The instruction changes nothing else: the remaining stack items and memory are untouched.",
  ["inputs"], "all operand combinations from a boundary alphabet of 256-bit words (limb, sign, shift and byte boundaries), for every instruction, in user mode",
  "Tests use a few random operands per instruction; limb-boundary carries, INT_MIN/-1, shifts at and above 256 and modulus zero are corner cases of a 2^768 space.",
  ["evm_arithmetization/src/arithmetic/mod.rs", "evm_arithmetization/src/logic.rs", "evm_arithmetization/src/witness/operation.rs", "evm_arithmetization/src/witness/transition.rs", "evm_arithmetization/src/cpu/kernel/asm/signed.asm", "evm_arithmetization/src/cpu/kernel/asm/exp.asm", "evm_arithmetization/src/cpu/kernel/asm/shift.asm"],
  [("native operations", "evm_arithmetization/src/arithmetic/mod.rs"), ("dispatch", "evm_arithmetization/src/witness/operation.rs"), ("kernel routines", "evm_arithmetization/src/cpu/kernel/asm")], hook=True)

p("C11", "Contract code executes as the EVM specification says",
  "For every short contract program, execution ends in the same way (stop, return, revert or exceptional halt), with the same stack, memory, memory size, returned data, logs, persistent and transient storage and gas charged as a reference EVM gives, including stack limits, invalid opcodes, jumps only to valid destinations and out-of-gas at every possible gas limit. "
  "No user program can make the machine itself fail or hang.",
  ["programs", "inputs"], "all programs up to a bounded length over an alphabet of instructions and boundary operands, with every relevant gas limit",
  "Kernel tests run a few hand-written fragments; the space of programs, jump targets inside push data, and gas limits is not enumerated anywhere.",
  ["evm_arithmetization/src/cpu/kernel/asm/memory", "evm_arithmetization/src/cpu/kernel/asm/core", "evm_arithmetization/src/witness/transition.rs", "evm_arithmetization/src/witness/gas.rs"],
  [("system calls", "evm_arithmetization/src/cpu/kernel/asm"), ("jump destination analysis", "evm_arithmetization/src/cpu/kernel/asm/core/jumpdest_analysis.asm, evm_arithmetization/src/generation/prover_input.rs"), ("exceptions", "evm_arithmetization/src/generation/state.rs")], hook=True)

p("C12", "A reverted call frame leaves no trace",
  "When a call or creation frame ends by revert or exceptional halt, every effect it and its descendants had on storage, transient storage, balances, nonces, code, account existence, access lists, logs, refunds and the self-destruct set is undone exactly, and effects of frames that succeeded remain. "
  "This holds for every nesting and interleaving of such effects.",
  ["histories", "programs"], "all sequences of effects and frame openings/closings (success or failure) up to a bounded length",
  "Tests revert single effects; interleavings of several kinds of effects across nested frames are not explored.",
  ["evm_arithmetization/src/cpu/kernel/asm/journal", "evm_arithmetization/src/cpu/kernel/asm/core", "evm_arithmetization/src/cpu/kernel/asm/linked_list"],
  [("journal", "evm_arithmetization/src/cpu/kernel/asm/journal"), ("checkpoint handling", "evm_arithmetization/src/cpu/kernel/asm/core/terminate.asm")], hook=True)

p("C13", "A transaction batch ends in the Ethereum post-state or is rejected",
  "For every batch of valid signed transactions of every type, execution accepts the true post-state roots, receipts and gas and rejects any other claim. "
  "Fees, refunds, nonces, balances, blooms, logs, withdrawals and fee burning are those the protocol defines, and a transaction the protocol does not admit changes no account.",
  ["inputs", "fault_sequences"], "all small batches over transaction types, outcomes and boundary values; every single wrong claim about the result",
  "Integration tests cover a few fixed transactions and only the accepting direction.",
  ["evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm", "evm_arithmetization/src/cpu/kernel/asm/main.asm", "evm_arithmetization/src/cpu/kernel/asm/transactions", "evm_arithmetization/src/generation/mod.rs"],
  [("transaction processing", "evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm"), ("final checks", "evm_arithmetization/src/cpu/kernel/asm/main.asm")], hook=True)

p("C14", "Splitting an execution into segments never changes it",
  "For every segment length the machine allows, the segments of an execution chain exactly: each starts with the registers and memory with which its predecessor ended, and together they perform the same instructions and end in the same final state as an unsegmented run. "
  "Replaying each segment for trace generation reproduces exactly the registers and memory that the segmentation announced.",
  ["inputs", "configurations"], "all admissible segment lengths, and every position at which a segment boundary can fall",
  "Integration tests use one or two segment lengths, so boundaries fall at a few positions only.",
  ["evm_arithmetization/src/generation/segments.rs", "evm_arithmetization/src/generation/state.rs", "evm_arithmetization/src/cpu/kernel/interpreter.rs", "evm_arithmetization/src/generation/mod.rs"],
  [("segment iteration", "evm_arithmetization/src/generation/segments.rs"), ("halting at a segment end", "evm_arithmetization/src/generation/state.rs"), ("memory pruning", "evm_arithmetization/src/witness/traces.rs")], hook=True)

p("C15", "Tries kept by the kernel equal the native tries",
  "For any sequence of insertions, overwrites, deletions and lookups performed by the virtual machine's own trie and account/storage list code, lookups return what a plain map would return, and the hashes it computes equal those of the native tries with the same contents, for full and partly hashed-out tries and for state, storage, transaction and receipt values. "
  "Missing keys are reported as missing.",
  ["histories"], "all operation sequences over small key sets forcing every node shape",
  "Tests insert a few keys into hand-built tries.",
  ["evm_arithmetization/src/cpu/kernel/asm/mpt", "evm_arithmetization/src/cpu/kernel/asm/linked_list", "evm_arithmetization/src/generation/mpt.rs", "evm_arithmetization/src/generation/trie_extractor.rs"],
  [("insert, delete, read, hash", "evm_arithmetization/src/cpu/kernel/asm/mpt"), ("linked lists", "evm_arithmetization/src/cpu/kernel/asm/linked_list"), ("loading", "evm_arithmetization/src/generation/mpt.rs")], hook=True)

p("C16", "Co-processor tables accept every true result and no false one",
  "For every operation of the arithmetic, logic, byte-packing, and hashing tables, the generated rows satisfy all constraints of their table and expose the operation, operands and result to the tables that look it up. "
  "Changing the result, an operand or the operation in such a row so that the statement becomes false makes at least one constraint or range/lookup check fail.",
  ["inputs", "fault_sequences"], "all operations on boundary operands, and every single-limb (single-byte, single-bit) alteration of the exposed cells",
  "Unit tests check that a few random valid rows satisfy the constraints; no test checks that wrong rows are rejected.",
  ["evm_arithmetization/src/arithmetic", "evm_arithmetization/src/logic.rs", "evm_arithmetization/src/byte_packing", "evm_arithmetization/src/keccak", "evm_arithmetization/src/keccak_sponge"],
  [("constraints and generation", "evm_arithmetization/src/arithmetic, evm_arithmetization/src/logic.rs, evm_arithmetization/src/byte_packing, evm_arithmetization/src/keccak, evm_arithmetization/src/keccak_sponge")], hook=True)

p("C17", "The processor's execution trace is provable and leaves no freedom",
  "The rows generated for any execution satisfy all processor constraints, and every lookup between tables balances. "
  "Altering in the trace any value that determines what was executed (program counter, mode, stack depth or top, operands, result, gas, context, memory address or value) makes at least one constraint or lookup fail.",
  ["programs", "fault_sequences"], "executions covering every instruction in user and kernel mode; every single alteration of such a cell",
  "The only trace-level tests prove a few complete transactions, in the accepting direction.",
  ["evm_arithmetization/src/cpu", "evm_arithmetization/src/all_stark.rs", "evm_arithmetization/src/witness"],
  [("processor constraints", "evm_arithmetization/src/cpu"), ("cross-table lookups", "evm_arithmetization/src/all_stark.rs")], hook=True)

p("C18", "A read always returns the last value written",
  "The memory table accepts every log of memory operations in which each read returns the last value written before it at the same address (or the initial value, which is zero unless the address was initialised), for every order of addresses and timestamps including large gaps. "
  "It accepts no log in which any read returns something else, and the memory handed to the next segment is exactly the final content of the addresses in live contexts.",
  ["histories", "fault_sequences"], "all operation logs up to a bounded length over a few addresses, contexts, segments and values; every wrong read or wrong final value",
  "No test builds a memory log other than those of whole executions, and none checks that a wrong one is rejected.",
  ["evm_arithmetization/src/memory/memory_stark.rs", "evm_arithmetization/src/memory_continuation/memory_continuation_stark.rs", "evm_arithmetization/src/witness/memory.rs", "evm_arithmetization/src/witness/traces.rs"],
  [("row generation and constraints", "evm_arithmetization/src/memory/memory_stark.rs"), ("continuation memory", "evm_arithmetization/src/memory_continuation/memory_continuation_stark.rs")], hook=True)

p("C19", "The kernel assembler preserves the meaning of the source",
  "Every optimisation leaves the effect of any instruction sequence on stack, memory and control flow unchanged, and every stack-rearrangement directive produces exactly the rearrangement written, for all layouts. "
  "Labels, constants, macros, repetitions and push sizes assemble to code in which every reference has the value the source gives it.",
  ["programs"], "all instruction sequences up to a bounded length over every instruction an optimisation rule mentions; all stack layouts up to a bounded size",
  "Tests check one example per rule and about ten stack directives.",
  ["evm_arithmetization/src/cpu/kernel/optimizer.rs", "evm_arithmetization/src/cpu/kernel/stack", "evm_arithmetization/src/cpu/kernel/assembler.rs", "evm_arithmetization/src/cpu/kernel/parser.rs"],
  [("peephole rules", "evm_arithmetization/src/cpu/kernel/optimizer.rs"), ("stack directives", "evm_arithmetization/src/cpu/kernel/stack"), ("assembly", "evm_arithmetization/src/cpu/kernel/assembler.rs")], hook=True)

p("C20", "Public values are encoded without loss and all bind the proof",
  "Encoding public values into public inputs and decoding them again returns the same values, for intermediate and final proofs. "
  "Changing any single public value changes what the verifier's challenges are derived from or what it checks the memory against, so that no public value can be altered after the fact.",
  ["inputs", "fault_sequences"], "every field of the public values, every boundary value, every single-field alteration",
  "Round trips are tested on random values only; binding is not tested.",
  ["evm_arithmetization/src/proof.rs", "evm_arithmetization/src/get_challenges.rs", "evm_arithmetization/src/verifier.rs"],
  [("encoding", "evm_arithmetization/src/proof.rs"), ("observation by the challenger", "evm_arithmetization/src/get_challenges.rs"), ("memory check", "evm_arithmetization/src/verifier.rs")], hook=True)

p("C21", "Field towers and curve operations obey their algebraic laws",
  "In each prime field and extension used for pairings, addition, subtraction, multiplication, negation, inversion, scaling, conjugation and Frobenius powers agree with polynomial arithmetic over big integers modulo the defining polynomials, and group operations agree with the affine group law. "
  "Conversions between field elements and stack words are inverse to each other.",
  ["inputs"], "all combinations of boundary elements (0, 1, -1, roots of the tower, limb boundaries) in every coordinate",
  "Tests multiply and invert random elements in some of the fields.",
  ["evm_arithmetization/src/extension_tower.rs", "evm_arithmetization/src/curve_pairings.rs"],
  [("tower arithmetic", "evm_arithmetization/src/extension_tower.rs"), ("curve arithmetic", "evm_arithmetization/src/curve_pairings.rs")], hook=True)

p("C22", "Encoded transactions and items are parsed exactly",
  "The kernel decodes every canonical RLP item to the value and length it encodes and encodes every value canonically, at all length boundaries. "
  "Every transaction of every type is parsed to the fields it was signed with, with its sender, access list, blob hashes and intrinsic gas, and the hash signed is recomputed exactly.",
  ["inputs"], "all items and transactions over boundary lengths and values of every field",
  "One example per transaction type, and a few items, are tested.",
  ["evm_arithmetization/src/cpu/kernel/asm/rlp", "evm_arithmetization/src/cpu/kernel/asm/transactions", "evm_arithmetization/src/generation/rlp.rs"],
  [("RLP", "evm_arithmetization/src/cpu/kernel/asm/rlp"), ("transaction parsing", "evm_arithmetization/src/cpu/kernel/asm/transactions")], hook=True)

p("C23", "Big-integer and hash routines of the kernel compute their function",
  "The multi-limb routines (compare, add, multiply-accumulate, multiply, modular multiply, modular exponentiation, shift) give the mathematical result for every length and value, including zero moduli, zero lengths and leading zero limbs. "
  "The hash functions offered by the kernel give the standard digest for every input length.",
  ["inputs"], "all operands over a limb alphabet up to a bounded number of limbs; every input length across all block boundaries",
  "Tests replay a table of vectors; block-boundary lengths and limb corner cases are not enumerated.",
  ["evm_arithmetization/src/cpu/kernel/asm/bignum", "evm_arithmetization/src/cpu/kernel/asm/hash", "evm_arithmetization/src/generation/prover_input.rs"],
  [("bignum", "evm_arithmetization/src/cpu/kernel/asm/bignum"), ("hashes", "evm_arithmetization/src/cpu/kernel/asm/hash")], hook=True)

p("C24", "Aggregation joins only proofs that continue one another",
  "When segments are joined, the second must begin with the registers and memory with which the first ended; when batches are joined, the second must begin with the state roots, gas and transaction counts with which the first ended; and every joined proof must agree on block metadata, block hashes and extra data. "
  "A segment chain that is accepted as a batch starts from the initial memory and registers and ends by halting, and a block continues its predecessor (state root, number, time, chain, block hashes, checkpoint) or starts at the checkpoint; the values told in the end are those of the last block, and only proofs made by the circuits themselves are joined. Public values that satisfy all this are always accepted, and the prover's own functions make proofs for them.",
  ["inputs", "fault_sequences"], "honest pairs of public values and every single alteration of either, for every joining constraint",
  "Only complete proofs of honest blocks are aggregated in tests (and those are too slow to be run with the others).",
  ["evm_arithmetization/src/fixed_recursive_verifier.rs", "evm_arithmetization/src/proof.rs"],
  [("joining circuits", "evm_arithmetization/src/fixed_recursive_verifier.rs"), ("public value targets", "evm_arithmetization/src/proof.rs")], hook=True)

p("C25", "Advice to the kernel cannot change what an execution does",
  "Whatever answers the prover gives to the kernel's non-deterministic questions (predecessors in sorted lists, quotients, roots, jump destinations, code, pointers) and whatever memory it presets, an accepted execution reaches the same results as with honest answers: every other answer is refused or makes no difference. "
  "Leaving out parts of the state cannot change the result either.",
  ["fault_sequences", "histories"], "every answer of executions replaced by boundary and by related values; every list to a bounded length with every answer; every preset cell; every account and slot left out",
  "Tests only ever run the honest prover.",
  ["evm_arithmetization/src/generation/prover_input.rs", "evm_arithmetization/src/cpu/kernel/asm"],
  [("honest answers", "evm_arithmetization/src/generation/prover_input.rs"), ("checks of the answers", "evm_arithmetization/src/cpu/kernel/asm")], hook=True)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
