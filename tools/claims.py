c("C01", "explicit-state model checking of the real tries in lockstep with a map and an independent root computation",
  "every content of small key universes and every operation from each; all histories to a depth")
c("C02", "exhaustive enumeration of tries x pruned key sets x following operations, executed on the real tries against the full trie",
  "small key universes chosen to force every node shape, bounded following operations")
c("C03", "exhaustive enumeration of nibble sequences and operations on the real paths against plain lists",
  "all short sequences; boundary patterns at every length to 64")
c("C04", "exhaustive enumeration of pairs of tries, checked against independently recomputed subtree hashes",
  "small key universes, full and pruned tries")
c("C05", "explicit-state model checking of the real sparse Merkle tree in lockstep with a map and an independent root computation",
  "every content of key universes sharing prefixes of every critical length and every operation from each; all histories to a depth; hash nodes planted in every position")
c("C06", "exhaustive enumeration of tree contents x chosen key sets, read back by an independent walker of the serialised vector",
  "the key universes of C05; subsets of present and absent keys")
c("C10", "exhaustive enumeration of operand combinations executed by the real virtual machine against big-integer arithmetic",
  "all pairs/triples of a boundary set of words, all shift and index values, user and kernel mode, every critical stack depth")
c("C16", "exhaustive enumeration of honest and altered table rows, judged by the real constraints and lookups against the truth of what the row states",
  "boundary operands; all single-cell alterations, solved-for alterations of modular and hash rows, bounded pairs")
c("C23", "exhaustive enumeration of limb patterns and input lengths, executed by the real virtual machine against independent big-integer and hash implementations",
  "limb alphabet for lengths 0-4 in every routine; every message length over several blocks and message shapes")
c("C11", "exhaustive enumeration of short programs, operands, stack depths, jump layouts and gas limits, executed by the real virtual machine in lockstep with an independent reference EVM",
  "all 256 opcodes at every critical stack depth; all programs of length 3-4 over an alphabet; all jump targets; gas limits around every instruction")
c("C12", "exhaustive enumeration of trees of call frames with effects and ends, executed by the real virtual machine in lockstep with an independent reference EVM",
  "16 effects, 5 kinds of call, 3 ends, nesting to depth 3, effects before and after; state compared by probes and by the final roots")
c("C13", "exhaustive enumeration of small transaction batches and of wrong claims about them, executed by the real virtual machine against an independent reference of the protocol",
  "all transaction types x outcomes, fee and gas limits, sequences of transactions, indices and withdrawals; every altered root or counter must be rejected; every way of being inadmissible at its limits")
c("C22", "exhaustive enumeration of RLP items and of transactions of every type and shape, run through the real kernel routines and parser against independent encoders",
  "all item lengths to a bound and around every change of form; every field length, data length, access list to 3 entries, index form; true and forged signatures")
c("C14", "exhaustive enumeration of cut points: executions of every kind, cut before every instruction, compared state by state with the uncut machine",
  "13 kinds of user code, each cut before every instruction with segments of 2^8 rows; whole batches of 4 shapes for 2^8..2^20; replayed segments are checked row by row")
c("C07", "exhaustive enumeration of small traced blocks and batch sizes, decoded by the real decoder, its batches compared with an independent world and executed by the real virtual machine",
  "14 kinds of transaction, all blocks to length 2 (3 in part), withdrawals, all batch sizes, separate and compact witnesses")
c("C08", "exhaustive enumeration of states and hashed-out parts, encoded by an independent encoder, decoded by the real decoder; every truncation and every single-byte alteration of witnesses",
  "all sets of 4 accounts and 4 slots with every set of hashed-out nodes; all sparse trees of up to 6 of 9 leaves")
c("C09", "explicit-state model checking of the real world states and tries in lockstep with plain maps and independent roots",
  "all operation sequences to a depth from every small content; lists of every length over the index boundaries")
c("C19", "exhaustive enumeration of instruction sequences, stack layouts, macros and literals, assembled by the real assembler and executed byte by byte in lockstep with an independent interpreter of the source",
  "all sequences to length 3-5 over the instructions the optimiser knows; all stack directives to 4 names; all constants")
c("C20", "exhaustive enumeration of single alterations of public values, judged by the real encoders, challengers (native and in circuit) and memory checks",
  "every public value at the boundaries of each of its limbs on three bases")
c("C21", "exhaustive enumeration of combinations of boundary elements, compared with polynomials over big integers and the affine group law",
  "about 60 boundary values per base field, all supports in degrees 6 and 12, Frobenius powers 0-13")
c("C18", "explicit-state model checking of the real memory table as an automaton whose steps are the rows its constraints allow, beside a monitor of accesses; exhaustive enumeration of logs and of alterations",
  "all states reachable by any rows over 4 segments, 3 contexts, small times and values; all logs to length 4-5, all gap sizes, every altered access, preset or final cell, whole segments")
c("C24", "exhaustive enumeration of alterations of honest public values of the children and the result of every aggregation circuit, each given to the real circuit and to a direct statement of the rules",
  "six circuits from segments to pairs of chains; all flag settings; every element alone and with its counterparts in the other sets; segment proofs replaced by a circuit of the same shape, with a hash that lets any public values go with a proof")
c("C25", "exhaustive enumeration of dishonest answers to the prover-input questions of executions and routines run by the real virtual machine, and of altered or hidden parts of the initial memory",
  "every question of 20 batches with boundary and related answers; all linked lists made by up to 2 operations with every predecessor; every jump-destination proof of short codes; single alterations (combinations of lies are not tried)")
