"""Writes /verif/properties.jsonl (kept as a generator so that ids, titles and anchors stay in one place)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[dict(name=s) for s in state]
    if observe: a["observe_at"]=observe
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))

RQ="crates/fhe-math/src/rq/"; ZQ="crates/fhe-math/src/zq/mod.rs"; BFV="crates/fhe/src/bfv/"; MB="crates/fhe/src/mbfv/"

p("P01","Variable-time arithmetic runs only on data that was declared public",
 "A polynomial operation may run a variable-time algorithm (modular arithmetic or number-theoretic transform) only when every polynomial whose coefficients it processes carries the variable-time permission, and a slice-level conversion only when its caller passed the permission explicitly. Any operand without the permission forces the constant-time algorithm for the whole operation.",
 ["inputs","programs"],"all polynomials, all combinations of permission flags on the operands, all call paths to a variable-time primitive",
 "Both algorithms return the same numbers, so no functional test can see which one ran; only a proof over all call paths can.",
 [ZQ,"crates/fhe-math/src/ntt/native.rs","crates/fhe-math/src/ntt/tfhe.rs",RQ+"ops.rs",RQ+"mod.rs",RQ+"convert.rs",BFV+"plaintext_vec.rs"],
 [("variable-time primitives (unsafe *_vt)",ZQ),("permission test before dispatch",RQ+"ops.rs, "+RQ+"mod.rs ntt_forward/ntt_backward")])

p("P02","Variable-time permission is never gained implicitly",
 "The result of any polynomial operation carries the variable-time permission only if every polynomial it was computed from carries it; newly created, sampled, zero or converted polynomials carry it only when the caller asked for it. The permission is otherwise obtained only by presenting an explicit public-data token.",
 ["inputs","programs","histories"],"all polynomial-producing or polynomial-mutating functions, all operand flag combinations",
 "Permission is invisible in results; tests sample a few operations and flag combinations, not every constructor and operator in every representation.",
 [RQ+"mod.rs",RQ+"ops.rs",RQ+"convert.rs",RQ+"scaler.rs",RQ+"switcher.rs","crates/fhe-traits/src/lib.rs"],
 [("permission field and its writers",RQ+"mod.rs"),("token types","crates/fhe-traits/src/lib.rs PublicData, VariableTime")])

p("P03","Serialized data never grants variable-time permission",
 "Bytes received from outside cannot grant the variable-time permission: a polynomial decoded from any byte string lacks it whatever the bytes say, and encoding never emits a granted permission. A public key decoded from bytes, which encryption multiplies with fresh secret randomness, holds polynomials without it.",
 ["inputs"],"all byte strings given to any polynomial or public-key decoder",
 "A test checks the few byte strings it encodes itself; an attacker picks any.",
 [RQ+"serialize.rs",RQ+"convert.rs",BFV+"keys/public_key.rs"],
 [("decoder passes a constant permission",RQ+"serialize.rs from_bytes"),("encoder writes false",RQ+"convert.rs"),("public key strips permission",BFV+"keys/public_key.rs")])

p("P04","Constant-time primitives have no data-dependent control flow",
 "The modular-arithmetic, vector and transform functions of fhe-math that are not marked variable-time, and the polynomial operations on the paths where the permission for variable time is absent, never branch on, index by or divide the residues they process, never hand them to a routine whose control flow follows its argument, and never apply a variable-time counterpart to them; only moduli, lengths and precomputed public constants steer them. Outside: the documented variable-time pow and inv, the precomputation of multiplication companions, comparison, (de)serialization, and the rescaling of residue systems.",
 ["inputs"],"all residue inputs to every constant-time primitive, all paths through it and its callees",
 "Timing behaviour is not an output; a data-dependent branch yields the same values on every input.",
 [ZQ,"crates/fhe-math/src/ntt/native.rs"],
 [("const_time_cond_select, reduce1, lazy reductions",ZQ),("forward/backward butterflies","crates/fhe-math/src/ntt/native.rs")])

p("P05","Every secret-dependent public value is masked by fresh noise",
 "Every polynomial that depends on a secret key, an encryption randomness or a secret share and is placed in a ciphertext, public key, evaluation key or multiparty share has an error polynomial added to it that was sampled from the noise distribution for that polynomial within that call. No error polynomial masks two published polynomials, and no secret polynomial is published unmasked.",
 ["programs","inputs"],"all key-generation, encryption and share-generation entry points, all secrets and randomness",
 "An unmasked or re-used mask decrypts and evaluates perfectly well; functional tests pass with zero noise.",
 [BFV+"keys/secret_key.rs",BFV+"keys/public_key.rs",BFV+"keys/key_switching_key.rs",BFV+"rgsw_ciphertext.rs",MB+"public_key_gen.rs",MB+"relin_key_gen.rs",MB+"public_key_switch.rs",MB+"secret_key_switch.rs"],
 [("error sampling","Poly::small"),("share and key generation",MB+"*, "+BFV+"keys/*")])

p("P06","Secret polynomials are only ever processed in constant time",
 "A polynomial derived from a secret key, error sample, encryption randomness or decrypted plaintext never carries the variable-time permission until fresh noise has masked it (a plaintext being encoded may carry it only when the caller presented the public-data token), and every product or sum that mixes it with public polynomials is computed without the permission. Decryption and noise measurement therefore run without it whatever the ciphertext's flags say.",
 ["programs","inputs","histories"],"all entry points handling secret material, all permission flags on their public operands",
 "Results are identical with and without the permission; only an argument over every flow from secret sources shows it is never present.",
 [BFV+"keys/secret_key.rs",BFV+"keys/key_switching_key.rs",BFV+"keys/galois_key.rs",BFV+"keys/relinearization_key.rs",BFV+"rgsw_ciphertext.rs",MB+"relin_key_gen.rs",MB+"public_key_gen.rs",MB+"secret_key_switch.rs",MB+"public_key_switch.rs"],
 [("disallow before mixing",BFV+"keys/secret_key.rs"),("grant after masking",BFV+"keys/key_switching_key.rs")])

p("P07","Secret material is wiped from memory before it is released",
 "Secret keys, plaintexts and key builders erase their secret content when dropped, and erasing clears every secret-bearing field. Heap-held temporaries of the library that hold a secret key, an error sample, encryption randomness or plaintext coefficients, unmasked (polynomials and machine-word coefficient vectors), are wiped before their memory is released, on every return path, early error returns included. Multi-precision integers (which cannot be wiped), values handed to the caller and panics are outside.",
 ["programs","fault_sequences"],"all functions handling secret-derived heap values, all exits",
 "Freed memory is not an output of any test; a leaked copy on one error path is invisible.",
 [BFV+"keys/secret_key.rs",BFV+"plaintext.rs",BFV+"plaintext_vec.rs",BFV+"keys/evaluation_key.rs",BFV+"keys/key_switching_key.rs",RQ+"mod.rs",MB+"relin_key_gen.rs"],
 [("Zeroize/Drop impls",BFV+"keys/secret_key.rs, "+BFV+"plaintext.rs"),("Zeroizing temporaries","all key and share generation")])

p("P08","Secrets and noise come from the caller's cryptographic generator",
 "Every secret key, error polynomial, encryption randomness and public seed is drawn from a cryptographically secure generator: the one supplied by the caller, or the operating-system-seeded thread generator. Deterministic seeded generators expand only public values, each from a seed freshly drawn for that object or received from the wire, and a seed never expands into two different polynomials of one object.",
 ["programs"],"all sampling sites and the provenance of the generator or seed used there",
 "Statistical tests cannot distinguish a fixed or re-used seed from fresh randomness on one run.",
 [RQ+"mod.rs","crates/fhe-util/src/lib.rs",BFV+"keys/secret_key.rs",BFV+"keys/key_switching_key.rs",MB+"crp.rs"],
 [("sampling",RQ+"mod.rs random/small/random_from_seed"),("seed drawing",BFV+"keys/key_switching_key.rs generate_c1")])

p("P09","A ciphertext's compression seed always matches its last polynomial",
 "Whenever a ciphertext carries a compression seed, its last polynomial is exactly the expansion of that seed in the ciphertext's context; every operation that changes, removes or re-contextualises the last polynomial, or adds another, discards the seed. Serialization omits the last polynomial only when a seed is present and deserialization regenerates it from that seed.",
 ["histories"],"all sequences of public operations on a ciphertext followed by serialization",
 "The fault shows only when a particular operation is followed by a serialization round trip of a freshly encrypted ciphertext.",
 [BFV+"ciphertext.rs",BFV+"ops/mod.rs",BFV+"ops/mul.rs",BFV+"keys/galois_key.rs",BFV+"keys/relinearization_key.rs",BFV+"keys/evaluation_key.rs",BFV+"keys/secret_key.rs"],
 [("seed field",BFV+"ciphertext.rs"),("mutators",BFV+"ops/mod.rs")],state=["Ciphertext.seed","Ciphertext.c"])

p("P10","Homomorphic operations reject incompatible operands",
 "Every public operation combining ciphertexts, plaintexts or keys completes normally only if the operands belong to the same parameters and, where it matters, the same level and number of polynomials; otherwise it returns an error or panics rather than yield a wrong ciphertext. Operations defined only on two- or three-part ciphertexts refuse others.",
 ["inputs","histories"],"all public operations, all pairs of operands with differing parameters, levels or sizes",
 "Tests sample a few mismatching pairs per operation; the guarantee covers every operation and every mismatch.",
 [BFV+"ops/mod.rs",BFV+"ops/mul.rs",BFV+"ops/dot_product.rs",BFV+"ciphertext.rs",BFV+"plaintext.rs",BFV+"keys/secret_key.rs",BFV+"keys/public_key.rs",BFV+"keys/galois_key.rs",BFV+"keys/relinearization_key.rs",BFV+"keys/evaluation_key.rs",BFV+"rgsw_ciphertext.rs",MB+"secret_key_switch.rs",MB+"public_key_switch.rs"],
 [("validate_for and operator assertions",BFV+"ciphertext.rs, "+BFV+"ops/mod.rs")])

p("P11","Deserialization accepts only well-formed objects",
 "A decoder returns success only if everything the bytes declare is consistent with the supplied parameters: representation, degree, range of polynomial coefficients, number of polynomials, level, seed length, and the levels and presence of nested keys. The resulting object satisfies the same structural invariants as one built through the constructors.",
 ["inputs"],"all byte strings, all parameter sets",
 "The input space is all byte strings; tests try a handful of corrupted encodings.",
 [RQ+"serialize.rs",RQ+"convert.rs",BFV+"ciphertext.rs",BFV+"keys/key_switching_key.rs",BFV+"keys/galois_key.rs",BFV+"keys/evaluation_key.rs",BFV+"keys/relinearization_key.rs",BFV+"keys/public_key.rs",BFV+"keys/secret_key.rs",BFV+"rgsw_ciphertext.rs",BFV+"parameters.rs"],
 [("proto to type conversions",RQ+"convert.rs, "+BFV+"ciphertext.rs, "+BFV+"keys/*.rs")])

p("P12","Deserialization never panics on untrusted bytes",
 "No decoder panics, indexes out of bounds, overflows a shift or divides by zero, whatever bytes it is given: malformed input is reported as an error.",
 ["inputs"],"all byte strings given to any decoder, every possible panic site reachable from it",
 "Panics hide in rare malformed inputs that unit tests do not enumerate.",
 [RQ+"serialize.rs",RQ+"convert.rs",BFV+"ciphertext.rs",BFV+"keys/key_switching_key.rs",BFV+"keys/galois_key.rs",BFV+"keys/evaluation_key.rs",BFV+"rgsw_ciphertext.rs",BFV+"parameters.rs","crates/fhe-util/src/lib.rs"],
 [("decoders","every from_bytes / try_deserialize")])

p("P13","Encoders and decoders agree on every persisted field",
 "Every field of a serializable object that is not recomputable is written by its encoder into a wire field and restored by its decoder from that same wire field into that same object field; no wire field is written from one object field and read back into another.",
 ["programs","inputs"],"all serializable types, all their fields",
 "A swapped or forgotten field shows only for values where the two differ, such as unequal levels.",
 [RQ+"convert.rs",BFV+"ciphertext.rs",BFV+"keys/key_switching_key.rs",BFV+"keys/galois_key.rs",BFV+"keys/evaluation_key.rs",BFV+"rgsw_ciphertext.rs",BFV+"parameters.rs",BFV+"keys/public_key.rs",BFV+"keys/secret_key.rs"],
 [("From<&T> for Proto / TryConvertFrom<&Proto> for T","all listed files")])

p("P14","Unreduced lazy coefficients never reach ordinary arithmetic",
 "A polynomial holding lazily reduced coefficients can be produced by a single constructor and consumed only by multiplication with a precomputed operand, which yields reduced coefficients and clears the mark; every other operation, conversion or serialization of such a polynomial is refused.",
 ["programs","inputs","histories"],"all polynomial operations applied to lazily reduced operands",
 "Lazy coefficients are usually small enough to give right answers; the failure needs values in the unreduced range.",
 [RQ+"mod.rs",RQ+"ops.rs",RQ+"convert.rs",RQ+"scaler.rs",RQ+"switcher.rs"],
 [("has_lazy_coefficients",RQ+"mod.rs"),("assertions",RQ+"ops.rs")],state=["Poly.has_lazy_coefficients"])

p("P15","Precomputed companions always match their coefficients",
 "A polynomial in the precomputed-multiplication representation always carries companion values computed from its current coefficients; any operation that produces or changes such coefficients recomputes or permutes the companions accordingly, and no other representation carries companions.",
 ["programs","histories"],"all functions constructing or mutating polynomials in the precomputed representation",
 "A stale companion gives wrong products only for that operand after that particular sequence of operations.",
 [RQ+"mod.rs",RQ+"ops.rs",RQ+"convert.rs"],
 [("compute_coefficients_shoup",RQ+"mod.rs"),("from_parts",RQ+"mod.rs")],state=["Poly.coefficients_shoup"])

p("P16","Evaluation keys perform exactly the operations they support",
 "An evaluation key carries out a rotation, inner sum or expansion only after establishing that the ciphertext fits the key and that every automorphism key needed is present; the needed keys are the ones its capability queries look up and its builder generates. Otherwise the operation returns an error and yields no ciphertext.",
 ["inputs","configurations"],"all evaluation keys (any subset of capabilities, deserialized ones included), all requested operations",
 "Tests enable a few capability combinations; the keys present are an arbitrary subset for a deserialized key.",
 [BFV+"keys/evaluation_key.rs",BFV+"keys/galois_key.rs"],
 [("supports_* / computes_* / build",BFV+"keys/evaluation_key.rs")])

p("P17","Multiparty aggregation uses every share exactly once",
 "Aggregating shares fails on an empty set and otherwise adds the contribution of every share supplied, component by component, into the result; shares of one protocol round cannot be aggregated as another round's. The aggregate keeps the public ciphertext or common random value the shares were made for.",
 ["inputs","programs"],"all share lists, all aggregation protocols",
 "Tests aggregate a few fixed party counts; a share skipped or counted twice for other lists is not seen.",
 [MB+"aggregate.rs",MB+"public_key_gen.rs",MB+"relin_key_gen.rs",MB+"public_key_switch.rs",MB+"secret_key_switch.rs",MB+"round.rs"],
 [("Aggregate impls",MB+"*.rs"),("round typestate",MB+"round.rs")])

p("P18","Only valid parameter sets can be built",
 "Parameters are returned only if the degree is a power of two in range, the variance is in range, moduli are specified exactly one way, and the moduli are distinct, pairwise coprime, prime, transform-friendly and coprime to and larger in product than the plaintext modulus. The same checks apply to parameters restored from bytes.",
 ["configurations","inputs"],"all builder configurations and all serialized parameters",
 "The configuration space is unbounded; tests try single-fault configurations.",
 [BFV+"parameters.rs","crates/fhe-math/src/rq/context.rs","crates/fhe-math/src/rns/mod.rs",ZQ],
 [("validate_configuration, validate_moduli",BFV+"parameters.rs")])

p("P19","Modulus switching keeps level, context and polynomials in step",
 "A ciphertext's recorded level always designates the context of all its polynomials: every constructor derives or checks one from the other, and switching changes all polynomials and the level together, by the same number of steps, never past the last level and never upwards. A polynomial's coefficient matrix always has one row per modulus of its context.",
 ["histories","inputs"],"all constructors and all sequences of level changes",
 "The mismatch needs a specific operation at a specific level; results are silently wrong rather than failing.",
 [BFV+"ciphertext.rs",BFV+"ops/mul.rs",BFV+"keys/galois_key.rs",RQ+"mod.rs",RQ+"context.rs",BFV+"parameters.rs"],
 [("switch_down, switch_to_level",BFV+"ciphertext.rs"),("Poly::switch_down",RQ+"mod.rs")],state=["Ciphertext.level","Poly.ctx"])

p("P20","Misusing representations, tokens and protocol rounds does not compile",
 "Client code cannot mix polynomial representations in an operation that is only defined within one, cannot apply power-basis-only operations elsewhere, cannot forge the public-data token or the internal permission flag, and cannot feed a multiparty round's share to the wrong round. Such programs are rejected by the compiler.",
 ["programs"],"all client programs",
 "A program that does not compile cannot be written as a passing unit test.",
 [RQ+"mod.rs",RQ+"ops.rs","crates/fhe-traits/src/lib.rs",MB+"round.rs",MB+"relin_key_gen.rs"],
 [("representation typestate",RQ+"mod.rs"),("sealed rounds",MB+"round.rs"),("tokens","crates/fhe-traits/src/lib.rs")])

p("P21","Unchecked memory accesses are always preceded by length checks",
 "Every safe public function that reaches an unchecked slice access or raw-parts construction first establishes, on every path, that the slices involved have the lengths the unchecked code relies on, or panics; unchecked primitives are reachable from outside only through such functions or functions marked unsafe.",
 ["inputs","programs"],"all slice lengths passed to public functions, all paths to an unchecked access",
 "Out-of-bounds reads are silent; tests pass well-sized slices.",
 ["crates/fhe-math/src/ntt/native.rs","crates/fhe-math/src/rns/scaler.rs",ZQ,BFV+"ops/dot_product.rs"],
 [("get_unchecked / from_raw_parts users","listed files")])

p("P22","Equality compares every field that affects behaviour",
 "Two keys, ciphertexts, contexts, parameters, moduli or polynomials compare equal only if all fields that determine their behaviour are equal; hand-written comparisons omit only caches determined by the compared fields, permission flags, and an optional annotation (a plaintext's encoding) that one side lacks.",
 ["inputs"],"all pairs of objects of every comparable library type",
 "A test compares objects differing in the fields its author thought of.",
 [ZQ,RQ+"mod.rs",RQ+"context.rs",BFV+"parameters.rs",BFV+"ciphertext.rs"],
 [("PartialEq impls","listed files")])

p("P23","Residues leaving a modular operation are canonical",
 "Every non-lazy modular operation, vector operation and transform returns residues in [0, p) for inputs in their documented ranges, in both its constant-time and variable-time form: each intermediate stays within the bound its next step requires, and the last step of every path reduces to below the modulus.",
 ["inputs"],"all residues within the documented input ranges, all moduli of supported size",
 "Tests sample residues; a missing final correction affects only values near the bound.",
 [ZQ,"crates/fhe-math/src/ntt/native.rs"],
 [("reduce1 and lazy reductions",ZQ),("butterflies","crates/fhe-math/src/ntt/native.rs")])

p("P24","Errors are never swallowed",
 "Every fallible internal operation's failure reaches the caller: no library function discards an error result, replaces it by a default value, or reports success after a step it depends on failed. A search that filters candidates may skip one that fails, provided finding none is reported.",
 ["fault_sequences","programs"],"all fallible calls in library code",
 "Swallowed errors appear only when the inner step fails, which tests rarely provoke at each call.",
 [BFV+"",MB+"",RQ+""],
 [("Result-returning calls","all library code")])

# --- not claimed (numerical) ---
p("P30","Homomorphic evaluation decrypts to the plaintext result",
 "Decrypting the outcome of any supported sequence of homomorphic operations within the noise budget yields the corresponding plaintext-ring result.",
 ["inputs","histories"],"all plaintexts, keys, noise samples and operation sequences within budget",
 "Depends on numerical noise growth for every input; tests sample.",
 [BFV+"ops/mul.rs",BFV+"keys/secret_key.rs"],[("multiplication and decryption",BFV+"ops/mul.rs")])
p("P31","The number-theoretic transform is a ring isomorphism",
 "Backward transform inverts the forward transform, and pointwise products correspond to negacyclic convolution, for every supported degree and modulus and for every backend.",
 ["inputs","configurations"],"all coefficient vectors, degrees, moduli, backends",
 "The input space is astronomically large.",
 ["crates/fhe-math/src/ntt/native.rs","crates/fhe-math/src/ntt/tfhe.rs"],[("butterflies","crates/fhe-math/src/ntt/native.rs")])
p("P32","RNS scaling rounds exactly",
 "Scaling a residue-number-system integer by a rational returns the correctly rounded result for every input.",
 ["inputs"],"all integers below the modulus, all scaling factors",
 "Rounding errors occur on rare inputs.",
 ["crates/fhe-math/src/rns/scaler.rs"],[("RnsScaler::scale","crates/fhe-math/src/rns/scaler.rs")])
p("P33","Noise samples follow the centred binomial distribution",
 "Error coefficients are independent, centred and have the configured variance.",
 ["inputs"],"all seeds and variances","A distribution is a property of the whole sample space.",
 ["crates/fhe-util/src/lib.rs"],[("sample_vec_cbd","crates/fhe-util/src/lib.rs")])
p("P34","Serialization round-trips preserve values",
 "Decoding the encoding of any object yields an equal object.",
 ["inputs"],"all objects","All values of all types.",
 [RQ+"convert.rs",ZQ],[("serialize_vec/deserialize_vec",ZQ)])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
