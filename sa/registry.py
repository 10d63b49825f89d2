"""property -> (rule module, function, metadata)"""
T = {}


def reg(pid, mod, fn, technique, explain, note, **kw):
    T[pid] = (mod, fn, dict(technique=technique, explain=explain, note=note, **kw))


RULES = T

reg("P01", "poly", "p01", "interprocedural path-sensitive dataflow over MIR (guard implication at call sites)",
    "Every exported function of fhe-math/fhe that can reach an unsafe *_vt primitive is abstractly interpreted with symbolic operands; at each such call the path conditions must imply the permission flag of each source polynomial.",
    "all paths of all entry points, any operand flags; sound up to the std/ndarray models and the naming anchor (*_vt marks variable time)")
reg("P02", "poly", "p02", "interprocedural dataflow over MIR (flag implication at function exits)",
    "For every exported fhe-math function returning or updating a polynomial the symbolic value of the permission flag at each exit must imply the permission of each polynomial the coefficients derive from.",
    "all paths, any flags; opaque external code is treated as an uninterpreted function of its inputs")
reg("P14", "poly", "p14", "interprocedural dataflow over MIR (mark propagation, guard implication)",
    "Every exported fhe-math function touching polynomials is interpreted with symbolic marks; an unmarked result must imply unmarked sources, and modular arithmetic must be guarded by the mark's absence.",
    "all paths, any marks; precomputed multiplication recognised by the mul_shoup primitives")
reg("P15", "poly", "p15", "interprocedural dataflow over MIR (value provenance of companions)",
    "For every exported fhe-math function the companion matrix of each returned/updated polynomial is compared with its coefficient matrix by provenance.",
    "all paths; provenance only, the arithmetic of shoup() itself is not decided")

reg("P03", "crypto", "p03", "interprocedural dataflow over MIR (flag provenance at decoder exits)",
    "Every function turning bytes or wire messages into polynomials or keys is interpreted; the permission flag of its results must be constant false or the caller's flag, and the wire field written constant false.",
    "all byte strings and messages; prost decoding is opaque")
reg("P05", "crypto", "p05", "interprocedural dataflow over MIR (additive-form abstraction of published polynomials)",
    "Every polynomial placed in a published object by an exported scheme-layer function is abstracted to its alternative sums; each secret-dependent alternative must contain its own fresh noise term and a hiding product.",
    "all paths, any inputs; noise quality (distribution, size) is not decided; noise identity is by draw site, loop and element index")
reg("P06", "crypto", "p06", "interprocedural dataflow over MIR (secrecy taint with masking, permission contract)",
    "Secrecy is propagated from secret-key coefficients, multiparty randomness and noise draws through every exported scheme-layer function; every polynomial-layer call on secret data must be permission-free.",
    "all paths; uses the permission contract of the polynomial layer decided by P01/P02")
reg("P07", "wipe", "p07", "typestate at compiler-inserted drops, with secrecy taint and contracts of the polynomial layer",
    "Every drop, overwriting, mem::drop and mem::forget the compiler emits for a value owning polynomials or word vectors, in every exported scheme-layer function and its helpers, is matched with the content of the value there: it is wiped, moved out, or holds no unmasked secret. Each fhe-math function applied to a secret is analysed once for the copies of its arguments it releases. Containers: each exit of their Drop and Zeroize implementations erases every word store owned; objects returned keep secrets only in wiping fields or types.",
    "unwinding, multi-precision integers, register and stack copies, reallocation inside std (a Vec that grows) are outside; external functions are modelled by data flow")
reg("P08", "crypto", "p08", "interprocedural dataflow over MIR (provenance of generators and seeds)",
    "The origin of the generator operand of every draw and of every expanded seed is computed for all exported functions of fhe and all samplers of fhe-math and fhe-util.",
    "all paths; quality of the generators themselves is trusted")

reg("P09", "state", "p09", "interprocedural dataflow over MIR (typestate of seed and polynomials, correlated path alternatives)",
    "Every ciphertext an exported scheme-layer function returns or updates is split into its path alternatives of (seed, polynomials); each must keep the two in step, and the encoder's alternatives must omit the last polynomial exactly with the seed.",
    "all paths; a seeded ciphertext received as argument is assumed in step (induction over the history)")

reg("P13", "wire", "p13", "interprocedural dataflow over MIR (field correspondence of encoders and decoders)",
    "The symbolic wire message built by every encoder and the symbolic object built by every decoder are split into fields; the field-to-field data dependences of the two must be inverse to each other.",
    "all objects; which field goes where is decided, not the bit packing inside a field")

reg("P19", "levels", "p19", "abstract interpretation of all constructors, operations and decoders: contexts of polynomials as terms over parameter levels, proved inductively through loops modulo the equalities and inequalities each path checked",
    "every ciphertext leaving a library function: the context of each of its polynomials (the context the polynomial-layer operation that made it gives its result) is that of the recorded level, for every element and every loop iteration; level changes only add guarded steps and end at the requested level; every polynomial's matrix has the row count of its context",
    "polynomials whose context neither side resolves are counted as undecided, never reported; polynomials that a client changes through DerefMut are outside")
reg("P22", "types", "p22", "path-sensitive dataflow over MIR of every comparison (equalities implied by the answer 'equal')",
    "Every PartialEq implementation of a library struct, derived or written by hand, is interpreted path by path; on each path that may answer 'equal' the accumulated comparisons must cover every field.",
    "all pairs of objects; comparisons of nested library types are decided at their own implementation, comparisons of foreign types are trusted")

reg("P24", "errs", "p24", "path-sensitive dataflow over MIR (may-analysis of failures met on a path)",
    "Every library function is interpreted with a memory cell recording the failures met; no exit reporting success may be reachable with the cell set, and no Result may be dropped unexamined.",
    "all paths of every library function; panics count as reported, None and false returned to the caller count as reported; a candidate dropped from a collection that the success path knows to be non-empty is excused")

reg("P18", "params", "p18", "path-sensitive dataflow over MIR (validity facts established at every exit of the constructors)",
    "Every exported function of fhe returning a parameter set is interpreted path by path; at each exit returning one, the facts established on the path about the values stored in it must imply the documented conditions, and nothing else assembles or modifies a parameter set.",
    "all configurations; primality test, greatest common divisor and big-integer product are trusted as named operations")

reg("P11", "decode", "p11", "path-sensitive dataflow over MIR with numeric evaluation of path conditions (structural invariants at every successful exit of a decoder)",
    "Every decoder is interpreted path by path; at each exit that succeeds, the conditions met on the path must establish the structural invariants of the returned object: levels, contexts, number of polynomials, decomposition base, seed, coefficient range. Conditions on counts and bases are evaluated for every modulus size.",
    "all byte strings; the protobuf decoder, residue deserialization and transforms are trusted as named operations; nested decoders are used through the invariants checked at their own exits")

reg("P12", "panics", "p12", "path-sensitive dataflow over MIR with linear-inequality and parity reasoning (unreachability of every panic site in a decoder)",
    "Every decoder is interpreted path by path, down to the decoders it calls and the arithmetic kernels; each panic, unwrap, bounds check, slicing, copy, division, logarithm, shift, subtraction and message-dependent sum or product it can run is an obligation: the path's facts and the objects' invariants must imply its condition. Partial kernels are called within their domain.",
    "all byte strings, all parameter sets, all configurations; kernels (zq, ntt, rns, scalers) are assumed total apart from listed preconditions, the protobuf decoder is trusted, one slice bound in the parameter builder is set aside (DESIGN.md)")

reg("P17", "mp", "p17", "interprocedural dataflow over MIR (linear forms of the aggregates over the shares, element coverage of loops)",
    "Every implementation of the aggregation trait is interpreted; the returned object is decomposed into sums of polynomials taken from the shares, and each contributed polynomial must occur with every share the iterator yields, once.",
    "all numbers of shares, all paths; that the shares of a protocol were made for the same public values is the caller's obligation and not decided")

NOT_APPLICABLE = {
    "P23": "numeric ranges of Barrett, Shoup and butterfly arithmetic rest on inequalities between 128-bit products and precomputed reciprocals; interval and dataflow domains lose these relations, and solving them per path is another family; the structural neighbours are decided (P11, P14, P15)",
    "P30": "depends on the numerical growth of noise over all inputs and operation sequences; no sound static bound on these runtime values is in reach of source analysis",
    "P31": "an algebraic identity over all coefficient vectors; it needs a functional proof of the butterflies and roots, not a dataflow or typestate argument",
    "P32": "exact rounding of multi-precision arithmetic for every input is a numerical theorem; static analysis of the source cannot decide it",
    "P33": "a statement about a probability distribution over the sample space, not about program structure",
    "P34": "equality of decoded and encoded values for all objects depends on bit-packing arithmetic; the structural part (field correspondence) is P13",
}

reg("P10", "compat", "p10", "interprocedural path-sensitive dataflow over MIR (congruence of ring contexts, facts at normal exits)",
    "At every normal exit of every exported scheme-layer operation on several ciphertexts, plaintexts or keys the path facts must imply equal parameters, levels and numbers of polynomials; every two-polynomial operation reached must get polynomials of one ring context.",
    "all paths, any operands; objects received are assumed to satisfy the level/context invariant (P19); operations whose contexts the analysis cannot name are counted in the evidence, not decided")

reg("P16", "evalkey", "p16", "interprocedural dataflow over MIR (descriptors of key sets: exponent terms with loop ranges and recurrences, compared as sets)",
    "For each operation of an evaluation key the exponents of the automorphism keys applied, looked up by the capability query and generated by the builder are extracted as terms over loop variables and compared as sets for every degree and argument; exits returning a ciphertext must imply that it fits the key.",
    "ring degrees 2^3 to 2^15 (2^17 thorough); all rotation indices and expansion sizes up to degree 64 and the boundary ones above; the exponent table is an uninterpreted injective function of the rotation index")

reg("P21", "memory", "p21", "path-sensitive dataflow over MIR with linear-inequality reasoning and tabulation of loop-control scalars (bounds of every unchecked access)",
    "Every library function reaching an unchecked slice access, raw-parts construction, pointer step or array pointer is interpreted path by path; the index must be below the length by the path's facts and the lengths fixed by the constructors (decided where the objects are built); obligations of unsafe and private functions are passed on to their callers up to the safe exported ones.",
    "all lengths, all paths, both transform backends; the transforms' kernels for every power-of-two size 2^3 to 2^62 by tabulating the scalars that steer their loops; external unsafe functions other than the known accesses are reported")

reg("P20", "witness", "p20", "compile-fail witnesses (type checking of forbidden client programs) and enumeration of the exported interface",
    "Small client programs misusing representations, tokens, permission flags and protocol rounds are type-checked against the current tree; each forbidden one must be rejected while the same text with the permitted type is accepted. Every exported signature, public field, trait implementation and aggregation is enumerated for another way to the same misuse.",
    "all client programs, through the finite set of exported functions, fields and implementations; client code using unsafe and client-defined representation markers are outside")

reg("P04", "ctime", "p04", "interprocedural secret-dependence (taint) analysis over MIR paths (conditions, indices, divisions and library calls reached by residues)",
    "Every modular-arithmetic, vector and transform function not marked variable-time, and every polynomial operation on the paths where variable time is not permitted, is interpreted with symbolic residues; each condition a path commits to, each index, division and library call whose control flow follows its argument is an obligation: it must not depend on a residue.",
    "all residue values, all paths, both transform backends; at the level of the compiler's intermediate representation (what the back end makes of a select or a comparison is not decided); external vectorised transforms are trusted; pow and inv (documented variable time), precomputed companions, serialization and the scalers are outside")
