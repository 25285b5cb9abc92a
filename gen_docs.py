import json
I=['inputs']; IP=['inputs','programs']; IH=['inputs','histories']; IC=['inputs','configurations']
def m(*xs): return [{'name':a,'where':b} for a,b in xs]
PR='src/r1cs/prover.rs'; VE='src/r1cs/verifier.rs'; IPP='src/ipp.rs'; TR='src/transcript.rs'; LCF='src/r1cs/linear_combination.rs'
GD='src/r1cs/gadgets/'; HCF='src/r1cs/gadgets/helper_constraints/'
GFILES=[GD+x for x in ('bound_check.rs','set_membership.rs','set_non_membership.rs','set_membership_alt.rs','non_zero.rs','hamming_distance.rs','mimc.rs','poseidon_hash.rs','sparse_merkle_tree_4_ary.rs','sparse_merkle_tree_8_ary.rs')]
P=[]
def p(id,title,statement,over,qt,why,files,mech,**kw):
    a={'files':files,'mechanism':mech}; a.update(kw)
    assert len(title)<=80,(id,len(title))
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':qt},'why_tests_cant':why,'anchors':a})
SH='every circuit a client can build through the public interface (any number of commitments, multiplications, single allocations, constraints, with and without a randomised second phase) and every assignment'
TST='the tests prove and verify a handful of fixed circuits and only check the honest outcome'

p('C01','Prover and verifier derive the same challenges',
 'For every circuit, the prover and a verifier given the resulting proof and commitments append the same messages, under the same labels, in the same order, to their transcripts. Hence every challenge they draw, including those handed to randomised constraints and those of the inner-product argument, is the same on both sides.',
 IP,SH,TST,[PR,VE,IPP,TR],m(('proving','Prover::prove'),('verifying','Verifier::verify'),('inner product','IPP::create_ipp, IPP::verification_scalars')))
p('C02','Every challenge is bound to all messages sent before it',
 'Every commitment and every component of a proof is absorbed, whole, into the transcript of prover and verifier before the first challenge that the protocol draws after sending it. Changing any committed value or any proof component except the two final inner-product scalars changes the challenges that follow, the length of the inner-product vectors is absorbed before its challenges, and one-phase and two-phase proofs are separated. Every challenge takes too many values to be guessed.',
 IP,'all proofs, commitments and circuits, honest or adversarial','a missing absorption is invisible to honest runs: both sides still agree and every test passes, yet proofs can be forged',[PR,VE,IPP,TR],m(('absorption','Prover::commit, Prover::prove, Verifier::commit, Verifier::verify'),('absorption','IPP::create_ipp, IPP::verification_scalars'),('encodings','TranscriptProtocol')))
p('C03','The verifier accepts exactly what satisfies the verification equations',
 'For every circuit, commitments, generators and challenges, the verifier accepts a proof if and only if the two Bulletproofs R1CS verification equations (the polynomial commitment equation and the inner-product equation) both hold for it. In particular altering any single proof component, any commitment used by a constraint, or any generator of an accepted proof makes it rejected, and the two equations are not combined in a way the prover can predict.',
 IP,'all circuits, all values of all proof components, commitments, generators and challenges','the tests hardly ever verify anything but honest proofs, so a dropped or misweighted term of the equation that vanishes for them goes unnoticed',[VE,IPP],m(('combined check','Verifier::verify'),('flattening','Verifier::flattened_constraints'),('folding scalars','IPP::verification_scalars')))
p('C04','Honest proofs of satisfied circuits are accepted',
 'For every circuit and every assignment that satisfies it, proving succeeds without panic and the verifier accepts the proof, whatever the numbers of multiplications (zero, one, not a power of two), phases, unpaired allocations and surplus generators.',
 IP,SH,'tests cover few shapes; sizes such as no or one multiplication, odd single allocations or phase-two-only circuits never occur',[PR,VE,IPP],m(('proving','Prover::prove'),('padding','Prover::prove, Verifier::verify'),('verifying','Verifier::verify')))
p('C05','Every constraint and multiplication of the statement is enforced',
 'A prover whose assignment violates even one linear constraint of the circuit does not obtain a proof that is accepted, and an accepted proof is not accepted for a statement that differs in one coefficient or one variable of one constraint or multiplication input, or against another commitment used by a constraint. This holds for constraints of both phases and whatever their position.',
 IP,SH,'tests contain at most a few failing circuits; a constraint skipped at one position or in one phase is not exercised',[PR,VE],m(('flattening','Prover::flattened_constraints, Verifier::flattened_constraints'),('recording','constrain, multiply of the four constraint systems')))
p('C06','Allocation returns the variables both sides agree on',
 'Committing, multiplying, allocating multipliers and allocating single variables return, on prover and verifier and in both phases, variables that denote exactly the wire just created, with single allocations paired two to a multiplier, and evaluating a linear combination on the prover yields its value under the assignment so far (none on the verifier). The prover refuses allocations without an assignment and then carries on as if it had not been asked, and the reported numbers of constraints and multipliers are those of the circuit.',
 IP,'all interleavings of the allocation calls, both phases, both sides','tests use a few fixed call sequences; the pairing of single allocations depends on the history of calls',[PR,VE,'src/r1cs/constraint_system.rs'],m(('prover','ConstraintSystem for Prover, RandomizingProver'),('verifier','ConstraintSystem for Verifier, RandomizingVerifier')))
p('C07','Arithmetic on linear combinations preserves their value',
 'Every operator and conversion on variables and linear combinations (sum, difference, negation, scaling, conversion from scalars, variables and lists of terms) yields a combination whose value under every assignment is that of the operation on its operands. Simplification keeps the value and leaves at most one term per variable.',
 I,'all operands of any number of terms, with repeated variables, and all assignments','tests add short combinations without repeated variables and never compare values',[LCF],m(('operators','impl Add/Sub/Mul/Neg/From/FromIterator'),('simplification','LinearCombination::simplify')))
p('C08','Every commitment in a proof has its own fresh blinding',
 'Every group element of a proof is blinded by randomness the prover draws afresh, the masks of all wires are fresh, and all these blinding values are linearly independent: none is missing, reused or shared between two commitments. Zero second-phase commitments are allowed when the second phase has no multiplications.',
 IP,SH,'missing or reused blinding leaks the witness but changes no verdict, so no test can fail',[PR],m(('blinding','Prover::prove')))
p('C09','Gadgets hide every secret behind the randomness asked for',
 'A gadget prover blinds each secret value it commits to with the randomness the caller gave for it or, failing that, with a scalar freshly drawn, and never uses one blinding for two values; only public constants that the verifier recomputes are committed without blinding. Given neither randomness nor a generator where one is required, it returns an error.',
 I,'all statements, with caller-given randomness and with a random number generator','leaking or reused blindings do not change any verdict',GFILES,m(('commitments','prove_* functions of the gadgets'),('constants','allocate_statics_for_prover, allocate_statics_for_verifier')))
p('C10','Malformed proofs are rejected with an error, never a panic',
 'Verifying an R1CS proof or an inner-product proof with any numbers of left and right round points, of whatever size, returns an error when the proof is not valid and does not panic, overflow or index out of bounds. The same holds for inner-product verification with generator or factor vectors whose lengths do not fit.',
 I,'all lengths of the variable-length parts of a proof, all sizes of circuits','tests only ever decode and verify proofs made by the honest prover',[VE,IPP],m(('length checks','IPP::verification_scalars, IPP::verify_ipp')))
p('C11','Too few generators give an error on both sides',
 'Proving or verifying with fewer generators in either of the two generator vectors than the padded number of multiplications needs returns the invalid-generators-length error, without panic, and never a proof or an acceptance.',
 IC,'all circuits, all lengths of either vector','no test passes too few generators',[PR,VE],m(('check','Prover::prove, Verifier::verify')))
p('C12','The inner-product argument is complete and binding',
 'For vectors of any power-of-two size, one included, the argument an honest prover makes is accepted and has logarithmically many round messages. The verifier accepts if and only if the inner-product verification equation holds: altering the claimed commitment, any generator, any factor, any round message or either final scalar is rejected.',
 I,'all power-of-two sizes, all values of vectors, factors, generators and messages','two honest runs at fixed sizes are tested; no altered proof is',[IPP],m(('argument','IPP::create_ipp'),('verification','IPP::verify_ipp, IPP::verification_scalars')))
p('C13','Polynomial helpers evaluate and multiply correctly',
 'Evaluating a vector polynomial or a polynomial at a point gives its value there, and the inner product of two vector polynomials is the polynomial whose value at every point is the inner product of their values (the special product, under its documented assumption on vanishing coefficients). The zero polynomial of a length is zero.',
 I,'all lengths, coefficients and points','exercised only indirectly, through honest proofs',['src/utils/vector_poly.rs'],m(('evaluation','eval'),('products','inner_product, special_inner_product')))
p('C14','The bound check proves exactly the bounds',
 'The constraints of the bound check are satisfiable for a committed value if and only if the value lies between the public bounds, both included, and its distances to them fit in the given number of bits. Values outside, including ones that wrap around in the field, are excluded, and an honest prover of a value inside succeeds.',
 I,'all values, bounds and numbers of bits up to 64','tests prove a few values inside the bounds; a weakened constraint makes no honest proof fail',[GD+'bound_check.rs',HCF+'positive_no.rs',HCF+'mod.rs'],m(('constraints','bound_check_gadget'),('bits','positive_no_gadget')))
p('C15','Set membership, non-membership and non-zero proofs prove what they say',
 'The constraints of set membership (both variants), set non-membership and non-zero are satisfiable for a committed value if and only if the value is in the set, is not in the set, or is not zero, respectively. This holds for sets of any size, the empty one included, and for values that are sums, products or differences of members; an honest prover of a true statement succeeds.',
 I,'all sets and values','tests prove single true statements',[GD+'set_membership.rs',GD+'set_membership_alt.rs',GD+'set_non_membership.rs',GD+'non_zero.rs',HCF+'bit.rs',HCF+'non_zero.rs',HCF+'vector_sum.rs'],m(('constraints','set_membership_gadget and its siblings'),('bits','bit_gadget'),('inverse','is_nonzero_gadget')))
p('C16','Preimage proofs are bound to the MiMC and Poseidon functions',
 'The constraints of the MiMC and the 2-, 4- and 8-input Poseidon preimage proofs are satisfiable for committed inputs and a public output if and only if the output is the hash of the inputs in their order, for every S-box and every number of rounds. An honest prover of a true statement succeeds.',
 IC,'all inputs, outputs, round constants, matrices, numbers of rounds and S-boxes','tests prove the true image of one input per function; unconstrained intermediate wires are invisible to them',[GD+'mimc.rs',GD+'poseidon_hash.rs',HCF+'mimc.rs',HCF+'poseidon.rs'],m(('constraints','mimc_gadget, Poseidon_hash_2/4/8_gadget'),('S-boxes','SboxType::synthesize_sbox')))
p('C17','Merkle membership proofs are bound to leaf, index and root',
 'For the 4-ary and the 8-ary tree of any depth, the membership constraints are satisfiable for a committed leaf, index and siblings if and only if hashing the leaf with the siblings along the path of exactly that index gives the public root, and the index lies inside the tree. An honest prover of a leaf at any index succeeds.',
 I,'all depths, indices, leaves, siblings and roots','tests prove one leaf at one index and depth',[GD+'sparse_merkle_tree_4_ary.rs',GD+'sparse_merkle_tree_8_ary.rs',HCF+'sparse_merkle_tree_4_ary.rs',HCF+'sparse_merkle_tree_8_ary.rs'],m(('constraints','vanilla_merkle_merkle_tree_4_verif_gadget, vanilla_merkle_merkle_tree_8_verif_gadget')))
p('C18','The Hamming distance proof counts the differing positions',
 'The constraints of the Hamming distance proof are satisfiable for committed original values and public new values if and only if exactly the claimed number of positions differ. An honest prover of the right number succeeds, zero differences and empty vectors included.',
 I,'all vectors and counts','tests prove one pair of vectors and its true distance',[GD+'hamming_distance.rs',HCF+'non_zero.rs',HCF+'vector_sum.rs'],m(('constraints','hamming_distance_gadget')))
p('C19','The randomizer proof ties the old tree to the new one',
 'The randomizer constraints are satisfiable if and only if the committed original values lie at the public indices of the tree with the committed original root (with the committed siblings) and writing them back into the public new tree gives that same root, so that no other leaf differs. Both sides build the same constraints, each committed secret is freshly blinded, and a failing prover, verifier or node database gives an error rather than a panic or an acceptance.',
 IH,'all trees, depths, index sets and values','one run with honest data is tested',[GD+'randomizer.rs'],m(('constraints','randomizer_gadget'),('entry points','gen_proof_for_randomizer, verify_proof_for_randomizer')))
p('C20','Gadget prover and verifier build the same statement',
 'For every gadget and every true statement, the verifier given the honest commitments builds the same commitments, multiplications and constraints, coefficient for coefficient and in the same order, from the same transcript start and with the same generators as the prover, without panicking.',
 I,'all statements and sizes of every gadget','one size per gadget is tested',GFILES,m(('pairs of entry points','gen_proof_* / verify_proof_*')))
p('C21','Gadget entry points pass on the verdict unchanged',
 'Every gadget verifier accepts exactly when the underlying verifier accepts the given proof with the given generators, after committing to each given commitment once and in order. Every gadget prover returns the proof and commitments the underlying prover made, and reports its errors as errors, not as panics.',
 I,'all outcomes of the underlying prover and verifier','tests only see acceptance; a swallowed rejection passes all of them',GFILES,m(('verdicts','gen_proof_* / verify_proof_*')))
p('C22','Wrong numbers of commitments or inputs give errors',
 'A gadget verifier given fewer commitments than its statement has returns an error and does not panic, and where the statement fixes the number (Merkle membership, Hamming distance) so does one given more. A gadget prover given vectors of inconsistent sizes (inputs, randomness, sibling lists, compared vectors) returns an error rather than panicking or proving something else.',
 I,'all numbers of commitments and sizes of inputs','tests only pass well-formed input',GFILES+['src/errors.rs'],m(('length checks','check_for_* macros, verify_* functions')))
p('C23','Gadgets compose: their statement does not depend on what came before',
 'Used as a sub-protocol on a constraint system that already holds other commitments and multipliers, even an unpaired single allocation, a gadget adds the same constraints on its own new wires as on a fresh system, without touching earlier wires and without panicking, on prover and verifier alike.',
 ['inputs','histories'],'all statements, all prior histories of the shared constraint system','composition is tested for two combinations of two gadgets on even boundaries',GFILES+['tests/multiple_constraint_systems.rs'],m(('sub-protocols','prove_* / verify_* functions taking a prover or verifier')))
p('C24','Reusable constraint helpers enforce exactly their relation',
 'The bit, non-zero, range, vector-sum, MiMC and Poseidon-permutation constraint helpers, applied to variables of any circuit, are satisfiable if and only if the variables satisfy the relation: value zero or one, inverse of a non-zero value, value in the range of the given number of bits, given sum, given image. Prover and verifier build the same constraints.',
 I,'all values and sizes','helpers are never tested on their own',[HCF+x for x in ('bit.rs','non_zero.rs','positive_no.rs','vector_sum.rs','mimc.rs','poseidon.rs')],m(('helpers','bit_gadget, is_nonzero_gadget, positive_no_gadget, vector_sum_constraints, mimc_gadget, Poseidon_permutation_gadget')))
p('C25','The sparse Merkle tree behaves like an authenticated array',
 'After any sequence of updates the root is that of the tree holding the last value written at each index and zero elsewhere, reading an index returns that value together with exactly the siblings on its path, and older versions stay readable through the shared node store. A membership proof is accepted for exactly the right leaf, index and root, proofs of the wrong length are rejected, and reading a tree whose nodes the store does not hold gives an error.',
 IH,'all depths, histories of updates, indices inside the tree, values and queries','the tests write ten consecutive leaves once and read them back',[HCF+'sparse_merkle_tree_4_ary.rs',HCF+'sparse_merkle_tree_8_ary.rs','src/utils/hash_db.rs'],m(('trees','VanillaSparseMerkleTree_4, VanillaSparseMerkleTree_8'),('store','InMemoryHashDb')))
p('C26','The native hash functions compute MiMC and Poseidon',
 'For all inputs, constants, matrices, numbers of rounds and S-boxes, the native MiMC function, the Poseidon permutation and the 2-, 4- and 8-input Poseidon hashes compute the documented functions, and so agree with what the preimage and Merkle proofs enforce.',
 IC,'all inputs and parameters of the supported widths','no test compares with known values or unequal round numbers',[HCF+'mimc.rs',HCF+'poseidon.rs'],m(('functions','mimc, Poseidon_permutation, Poseidon_hash_2/4/8')))
p('C27','Poseidon parameters are the specified constants',
 'For each supported width the parameters hold the requested width and numbers of rounds, one round key per state element and round taken in order from the constants that the Poseidon specification\'s generator yields for the default curve, and the specified Cauchy (hence MDS) matrix. Unsupported widths and more rounds than there are constants are refused.',
 ['configurations'],'all supported widths and numbers of rounds','a wrong digit in a constant is consistent between prover and verifier and fails no test',[GD+'poseidon_constants.rs',HCF+'poseidon.rs'],m(('parameters','PoseidonParams::new'),('constants','MDS_ENTRIES_W_*, ROUND_CONSTS_W_*')))
p('C28','Encoding a proof and decoding it gives the same proof',
 'The serialised form of every R1CS proof and inner-product proof contains every component exactly once under a name of its own, and decoding, from keyed as well as from positional formats, puts each back in its place.',
 I,'all proofs, all serialisation formats','no test encodes a proof',['src/r1cs/proof.rs',IPP],m(('encoding','Serialize/Deserialize of R1CSProof, InnerProductArgumentProof')))
p('C29','Generators are distinct, reproducible and stable',
 'Asking for n generators under a prefix yields n distinct points, the first of which do not depend on n, so that prover and verifier may ask for different numbers; generators of the usual distinct prefixes do not coincide.',
 I,'all prefixes and numbers','tests derive generators once per run and use the same vector on both sides',['src/utils/mod.rs'],m(('derivation','get_generators')))
p('C30','A nonce selects the positions to distort, and only those change',
 'For every nonce, data size and count, the positions selected lie inside the data, are determined by the whole nonce, are at most as many as asked for (exactly as many where the data are large), and every position can be selected. Distorting data changes exactly the selected positions, each to the randomised value, and reports the original value of each; randomising maps different values to different ones.',
 I,'all nonces, data sizes, counts, data and index sets','one nonce and size is tested, and only that the later proof verifies',[GD+'randomizer.rs'],m(('selection','get_indices_to_modify'),('distortion','get_randomized_data, randomize')))
p('C31','Randomised constraints run once each, and their failures are reported',
 'Every randomised constraint the caller specifies, nested ones included, is run exactly once by prove and exactly once by verify. When one of them returns an error, proving returns an error and makes no proof, and verifying returns an error and does not accept, whichever of them failed and whatever the others and the rest of the circuit are.',
 I,'all circuits, numbers of randomised constraints and failing ones','no test has a randomised constraint that fails',[PR,VE],m(('callbacks','create_randomized_constraints'),('nesting','specify_randomized_constraints')))
# not applicable
p('C90','Accepted proofs imply knowledge of a witness',
 'No efficient adversary can make the verifier accept a proof without knowing an assignment that satisfies the circuit.',
 ['inputs'],'all efficient adversaries','a computational property of the protocol',[VE,IPP],m(('protocol','Verifier::verify')))
p('C91','Proving time does not depend on secrets',
 'The sequence of operations and memory accesses of the prover does not depend on committed values or blindings.',
 ['inputs'],'all secrets','timing is not observed by tests',[PR],m(('prover','Prover::prove')))
p('C92','Curve and field arithmetic is correct',
 'Group and field operations, multi-scalar multiplication, hashing to the curve and point encodings compute their mathematical functions for all operands.',
 ['inputs'],'all operands','exercised only through proofs',['Cargo.toml'],m(('dependency','amcl_wrapper')))
p('C93','Proving and verifying take time linear in the circuit',
 'The running time of proving and verifying grows linearly with the number of multiplications and constraints.',
 ['inputs'],'all circuit sizes','timing is not asserted',[PR,VE],m(('prover and verifier','Prover::prove, Verifier::verify')))
with open(__file__.rsplit('/',1)[0]+'/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
TECH={
 'r':'abstract interpretation of THIR into value graphs; graph equality by random interpretation (value numbering)',
}
VG='value graphs from abstract interpretation of the type-checked THIR'
T={
'C01':VG+'; equality of the two transcript event sequences','C02':'dataflow/ordering analysis of transcript events in '+VG,
'C03':VG+' of the verifier compared with the reference equations by random interpretation','C04':VG+' of prover composed with verifier',
'C05':VG+'; sensitivity of the verdict to every constraint coefficient','C06':VG+' of the allocation typestate against a reference allocator',
'C07':VG+' of every operator impl, compared by random interpretation','C08':'dependency (taint) and rank analysis of random sources in '+VG,
'C09':'dependency analysis of blinding scalars in '+VG,'C10':'panic-path analysis over '+VG,'C11':'panic-path and error-path analysis over '+VG,
'C12':VG+' compared with the reference equation by random interpretation','C13':VG+' compared with reference polynomials by random interpretation',
'C14':'constraint-graph extraction from THIR and determinacy propagation','C15':'constraint-graph extraction from THIR and determinacy propagation',
'C16':'constraint-graph extraction from THIR and determinacy propagation','C17':'constraint-graph extraction from THIR and determinacy propagation',
'C18':'constraint-graph extraction from THIR and determinacy propagation','C19':'constraint-graph extraction from THIR and determinacy propagation',
'C20':'constraint-graph extraction from THIR on both sides and comparison','C21':'dataflow of verdicts, proofs and commitments through '+VG,
'C22':'panic-path and error-path analysis over '+VG,'C23':'constraint-graph extraction from THIR under symbolic prior states (typestate)',
'C24':'constraint-graph extraction from THIR and determinacy propagation','C25':VG+' of update/read histories against a reference tree',
'C26':VG+' compared with reference functions by random interpretation','C27':'constant propagation through THIR, constants regenerated from the specification',
'C28':'query over the derived encoder and decoder bodies in THIR','C29':VG+'; distinctness by random interpretation',
'C30':VG+' of selection and distortion against a reference','C31':'error-path analysis over '+VG+' of callbacks'}
NOTE='decides from the compiler-checked source of the current tree, no code of the crate is run; value graphs are exact up to the models of std/amcl_wrapper/merlin listed in DESIGN.md; graphs are compared at a finite set of sizes (loop trip counts) and random field points; undecided obligations are reported in the evidence and raise no alarm'
checks=[]
for q in P:
    i=q['id']
    if i in T:
        checks.append({'property':i,'quick_cmd':'python3 check.py '+i,'thorough_cmd':'python3 check.py %s --tier thorough'%i,'technique':'static analysis: '+T[i],'level':'other','level_note':NOTE})
na=[{'property':'C90','reason':'computational soundness rests on the discrete-logarithm assumption and a rewinding extractor; no static analysis of the source decides it. Its code-level conditions (binding of challenges, the exact verification equations, enforcement of every constraint) are C02, C03, C05 and C12.'},
 {'property':'C91','reason':'timing depends on the big-number dependency and on machine code; the prover openly branches on secrets (multi-scalar multiplication, bit decomposition), so a source-level constant-time rule neither holds nor is promised by the crate.'},
 {'property':'C92','reason':'the arithmetic lives in the dependency amcl_wrapper/amcl, outside this repository; its operations are modelled as the field and group operations they are documented to be.'},
 {'property':'C93','reason':'running time is a runtime quantity; the repository makes no stated bound and several gadgets are documented as slow.'}]
json.dump({'version':1,'setup_cmd':'python3 -m sa.dump','checks':checks,'not_applicable':na},open(__file__.rsplit('/',1)[0]+'/MANIFEST.json','w'),indent=1)
