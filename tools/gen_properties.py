#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the statements stay readable).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Honest GKR proofs are always accepted",
"For every well-formed layered circuit (each layer reading exactly the width the previous one produces), every batch of inputs, every power-of-two chunking of the batch (including a single chunk and one instance per chunk) and every positive number of cores, the proof produced from the circuit's own assignment is accepted by the verifier for the corresponding inputs and outputs.",
["inputs","configurations","programs"],"all circuits (depth, fan-in, gate mix, layer widths, repeated gates), batch sizes, chunk counts, core counts, field values",
"Tests run three fixed circuits, each at one batch size, one chunking and one core; the quantifier over circuits, widths, chunkings and cores is not sampled at all (a repeated gate, a right input above index 0 with more than one instance per chunk, or an unchunked batch were never exercised).",
["gkr/prover.go","gkr/verifier.go","circuit/circuit.go","circuit/layers.go","sumcheck/par.go","sumcheck/evals.go","polynomial/chunked.go","polynomial/eq.go"],
[("prover main loop over layers","gkr/prover.go Prove"),("verifier main loop over layers","gkr/verifier.go Verify"),("layer description and static tables","circuit/layers.go")],
observe=["gkr.Prover.Prove / gkr.Verifier.Verify"])

p("C02","The verifier enforces every check of the protocol: no altered proof passes",
"The verifier accepts a proof for a statement exactly when every relation of the protocol holds: each round polynomial sums to the running claim, each layer's last claim matches the gates, wiring and equality term evaluated on the claimed values, each layer's claims are carried to the next with the challenge derived from them, and the last claims match the inputs. In particular an honest proof with any single value altered, or a proof dishonestly built so as to break only one of those relations, at any layer and any round, is rejected.",
["inputs","fault_sequences","configurations"],"every value of every proof and every alteration of it; every single relation a dishonest prover may break at every layer and round; every circuit and batch size",
"No test ever presents an invalid proof: a verifier answering true unconditionally passes the whole suite.",
["gkr/verifier.go","sumcheck/verifier.go","circuit/gates.go","polynomial/eq.go","polynomial/chunked.go"],
[("per-round sum check","sumcheck/verifier.go Verify"),("per-layer combinator check","gkr/verifier.go Verify"),("final input check","gkr/verifier.go Verify"),("challenge derivation","common/challenge.go")],
observe=["gkr.Verifier.Verify"])

p("C03","An accepted proof binds every input and every output of the batch",
"The verifier accepts only if the outputs are those the circuit computes on the inputs: given a valid proof, the same proof presented with different inputs or different outputs, anywhere in the batch and for any chunking, is rejected.",
["inputs","configurations","fault_sequences"],"every position of every input and output, every substituted value, every batch size and chunking; also combinations of several substitutions",
"Tests only verify true statements.",
["gkr/verifier.go","gkr/prover.go","polynomial/chunked.go","polynomial/book_keeping.go"],
[("initial claim computed from the outputs","gkr/verifier.go Verify"),("initial evaluation point","gkr/prover.go GetInitialQPrimeAndQ"),("final evaluation of the inputs","gkr/verifier.go Verify")],
observe=["gkr.Verifier.Verify"])

p("C04","Malformed proofs and statements are rejected, never accepted, never fatal",
"Presented with a proof object of any shape (missing, surplus or empty rounds, polynomials, layers or claims), the native verifiers terminate with a verdict and do not crash; the GKR verifier answers false whenever the number of layers, rounds or claims is not the one the circuit imposes, and whenever the inputs or the outputs are not a power of two (at most the number of instances) of equal chunks making up exactly the size the circuit and the batch impose.",
["inputs","fault_sequences"],"all shapes reachable from an honest proof, from its inputs and from its outputs by removing, duplicating, emptying or inserting components, alone and in pairs",
"Tests only present well-formed honest proofs.",
["gkr/verifier.go","sumcheck/verifier.go"],
[("shape checks","gkr/verifier.go Verify"),("shape checks","sumcheck/verifier.go Verify")],
observe=["gkr.Verifier.Verify","sumcheck.Verifier.Verify"])

p("C05","Parallel proving gives the sequential proof under every schedule",
"For every interleaving of its workers, every chunking and every positive number of cores, the parallel sumcheck prover terminates without deadlock, crash, data race or stuck worker and returns the same claim, proof, challenges and final values as the sequential prover on the same data; the same holds for the whole GKR prover.",
["schedules","configurations","inputs"],"all interleavings of the prover's goroutines (bounded as stated), chunk counts from 1 to the batch size, core counts below, equal to and above the chunk count",
"Tests run one chunking and whatever single interleaving the Go scheduler happens to produce; they cannot enumerate orders of worker completion, semaphore hand-over and teardown.",
["sumcheck/par.go","sumcheck/prover.go","common/semaphore.go","gkr/prover.go","polynomial/eq.go"],
[("per-chunk workers with channels","sumcheck/par.go RunForChunk"),("accumulation and merge of the chunks","sumcheck/par.go ConsumeAccumulate, ConsumeMergeProvers"),("challenge broadcast","sumcheck/par.go Broadcast"),("core limiter","common/semaphore.go")],
state=[("evalsChan/rChans/finChan","messages between the coordinator and the workers","sumcheck/par.go")],
observe=["sumcheck.MultiThreadedProver.Prove/GetClaim","gkr.Prover.Prove"])

p("C06","Circuit assignment equals gate-by-gate evaluation under every schedule",
"For every circuit, batch, chunking, number of cores and interleaving, the assignment contains the inputs followed, for each layer, by the sum over the wires into each output of the gate applied to the wire's left and right inputs, instance by instance; table views of a layer hold exactly these values, and the copying view shares no memory with the assignment.",
["schedules","inputs","configurations","programs"],"all wirings, widths, batch sizes, chunkings, cores, interleavings",
"Tests use two-instance circuits with one instance per chunk, or wires whose right input is always index 0.",
["circuit/circuit.go","circuit/layers.go","common/semaphore.go"],
[("per-chunk parallel evaluation","circuit/layers.go Evaluate"),("layer by layer assignment","circuit/circuit.go Assign"),("parallel deep copy","circuit/circuit.go LayerAsBKTWithCopy")],
observe=["circuit.Circuit.Assign","circuit.Assignment.LayerAsBKTWithCopy/NoCopy"])

p("C07","Operations leave caller data intact; repeated and concurrent use agree",
"Assigning, proving and verifying never modify the inputs, outputs, assignment, circuit or proof they are given, so that any sequence of these operations on shared objects, or several of them running concurrently, gives the same results as each one alone on fresh copies.",
["histories","schedules"],"all operation sequences up to a stated depth over shared objects, and all interleavings (bounded as stated) of two concurrent operations",
"Every test proves once and verifies once, then discards everything.",
["gkr/prover.go","gkr/verifier.go","circuit/circuit.go","polynomial/book_keeping.go","polynomial/chunked.go","sumcheck/verifier.go"],
[("deep copies before folding","circuit/circuit.go LayerAsBKTWithCopy; polynomial/book_keeping.go Evaluate"),("per-worker static table copies","sumcheck/par.go RunForChunk")],
observe=["gkr.Prover.Prove","gkr.Verifier.Verify","circuit.Circuit.Assign"])

p("C08","Sumcheck prover output is exact, round by round",
"For every instance (left and right tables, equality table, gates and static tables of any compatible size), the announced claim is the sum over the whole hypercube, each round polynomial is the partial sum over the remaining variables in the order left, right, instance, each challenge is the hash of that round's polynomial, and the final values are the tables' multilinear extensions at the challenges.",
["inputs","configurations"],"all table sizes, gate mixes and field values (including zero entries and zero differences, which take shortcuts)",
"Tests check one hand-computed two-variable instance and one generated family with a single right-hand variable and constant static tables.",
["sumcheck/evals.go","sumcheck/prover.go","sumcheck/par.go","polynomial/lagrange.go","polynomial/book_keeping.go"],
[("evaluations on hL, hR, h'","sumcheck/evals.go"),("folding","sumcheck/prover.go FoldHL/FoldHR/FoldHPrime")],
observe=["sumcheck.SingleThreadedProver","sumcheck.MultiThreadedProver"])

p("C09","The sumcheck verifier decides exactly the sumcheck relation",
"For every claim and every list of round polynomials, the sumcheck verifier answers true exactly when each polynomial's values at 0 and 1 sum to the running claim (the previous polynomial at its own hash); it then returns the hashes split into left, right and instance challenges and the last polynomial at the last hash.",
["inputs","configurations"],"all claims, polynomials (any degree), numbers of rounds and splits of the variables",
"Tests only pass honest proofs and one split.",
["sumcheck/verifier.go","common/challenge.go","polynomial/lagrange.go"],
[("round loop","sumcheck/verifier.go Verify")],
observe=["sumcheck.Verifier.Verify"])

p("C10","Tables behave as multilinear polynomials under any operation sequence",
"A table behaves as the multilinear polynomial it tabulates: fixing the first variable, full evaluation, the two-point evaluation sharing the instance variables, differences, interleaved chunks, copies and linear combinations give the mathematically defined result for every size and point, after any sequence of such operations, and evaluation and copying never disturb the original.",
["inputs","histories"],"all table contents, sizes and points, all operation sequences up to a stated depth",
"Tests fold one four-entry table at one point; interleaving, copies, and sequences of operations on shared storage are not covered.",
["polynomial/book_keeping.go"],
[("fold in place","polynomial/book_keeping.go Fold"),("copy then fold","polynomial/book_keeping.go Evaluate, EvaluateLeftAndRight")],
observe=["polynomial.BookKeepingTable"])

p("C11","Equality tables and chunked evaluation agree with their definition",
"For every point, the equality table holds the product formula at every index and the closed-form equality of two points equals the table's extension there; splitting a table into any power-of-two number of interleaved chunks (including one) and using any number of cores changes neither the equality table nor any evaluation.",
["inputs","configurations"],"all points, dimensions, chunk counts and core counts",
"Tests compare a few entries for three chunkings of a ten-variable table with one core, never an unchunked one; the closed form is never compared with the table.",
["polynomial/eq.go","polynomial/chunked.go"],
[("closed form","polynomial/eq.go EvalEq"),("table construction","polynomial/eq.go GetFoldedEqTable, GetChunkedEqTable"),("recombination of chunks","polynomial/chunked.go")],
observe=["polynomial.EvalEq/GetFoldedEqTable/GetChunkedEqTable/EvaluateChunked/EvaluateMixedChunked"])

p("C12","Parallel table arithmetic is element-wise exact under every schedule",
"Adding, subtracting and scaling tables gives the element-wise result for every size (including sizes spanning several work units and not divisible by them), every number of cores, every interleaving, and when the destination is one of the operands or has stale content or spare capacity; operands that are not the destination are unchanged, and share no memory with the result.",
["schedules","inputs","configurations"],"all sizes around the work-unit boundaries, core counts, aliasing patterns, interleavings",
"Tables in tests never exceed 1024 entries, so the multi-unit parallel path is never executed.",
["polynomial/book_keeping.go","common/chunks.go","common/semaphore.go"],
[("parallel loops","polynomial/book_keeping.go Sub, Mul"),("work units","common/chunks.go")],
observe=["polynomial.BookKeepingTable.Add/Sub/Mul"])

p("C13","Work splitting partitions the range exactly",
"For every number of items and every positive number of cores, the work units are consecutive, non-empty and disjoint, cover every item exactly once, and no unit except the last is smaller than the minimum unit size; sizes and logarithms used for splitting are exact for every integer in range.",
["inputs","configurations"],"all item counts and core counts up to a stated bound, all integers up to a bound and around every power of two",
"No test covers the splitting; logarithms are checked for 1..9 only.",
["common/chunks.go","common/math.go"],
[("range computation","common/chunks.go IntoChunkRanges"),("integer logarithms, min, max","common/math.go")],
observe=["common.IntoChunkRanges","common.Log2Floor/Log2Ceil/Min/Max"])

p("C14","Interpolation recovers the polynomial for every supported size",
"For every supported number of points, interpolating values given at 0, 1, 2, ... returns the coefficients of the unique polynomial of smaller degree through them, evaluation of a coefficient list is exact at every point for every degree, the basis polynomials are the Lagrange basis, and none of these modifies its arguments or the precomputed data.",
["inputs","configurations","histories"],"all sizes from 1 to the supported maximum, all value vectors, all evaluation points, repeated use",
"One basis polynomial of one size is tested.",
["polynomial/lagrange.go"],
[("precomputed basis","polynomial/lagrange.go initLagrangePolynomials"),("interpolation","polynomial/lagrange.go InterpolateOnRange"),("Horner evaluation","polynomial/lagrange.go EvaluatePolynomial")],
observe=["polynomial.InterpolateOnRange/EvaluatePolynomial/GetLagrangePolynomial/LagrangeCoefficient"])

p("C15","MiMC hashing follows its specification and drives every challenge",
"For every message of any length, the MiMC digest is the Miyaguchi-Preneel iteration, from a zero state, of the 91-round x^7 keyed permutation with the published constants, so absorbing block by block equals hashing at once, the empty message gives zero, and the interaction challenge of a message is exactly its digest; hashing never modifies the message.",
["inputs","histories"],"all message lengths and contents up to a stated bound, all ways to split the absorption",
"The hash test only checks that hashing does not panic.",
["hash/mimc.go","hash/ark.go","hash/poseidon.go","common/challenge.go"],
[("permutation and chaining","hash/mimc.go"),("constants","hash/ark.go"),("challenge","common/challenge.go")],
observe=["hash.MimcHash/MimcUpdateInplace/MimcPermutationInPlace","common.GetChallenge"])

p("C16","Poseidon and GMiMC digests follow their definition on whole messages",
"For every state width offered and every message, the Poseidon and GMiMC digests are those of their documented round functions iterated in Miyaguchi-Preneel mode over zero-padded blocks; changing any single element of the message changes the digest, and hashing leaves the message and the hasher unchanged.",
["inputs","histories"],"all widths, message lengths around the block boundaries, contents and single-element changes",
"The hash test only checks that hashing does not panic, on the all-zero message.",
["hash/poseidon.go","hash/gmimc.go","hash/ark.go"],
[("Poseidon update","hash/poseidon.go Update"),("GMiMC update","hash/gmimc.go UpdateInplace"),("padding","hash/poseidon.go Hash, hash/gmimc.go Hash")],
observe=["hash.PoseidonT2/T4/T8.Hash","hash.GMimcT2/T4/T8.Hash"])

p("C17","All evaluation forms of a gate agree and its declared degrees are true",
"For every gate and every pair of inputs, the single evaluation, the two batched evaluations of any length and the in-circuit evaluation give the gate's defined value; the declared degrees bound the gate's degree in the left input, the right input and jointly; gates with different behaviour have different identifiers; and the combinator is the equality term times the weighted sum of the gates.",
["inputs","configurations"],"all gates, constants, input pairs and batch lengths",
"Gates are only exercised through one or two circuits; the in-circuit form of the gates is never run.",
["circuit/gates.go","snark/gkr/gate.go"],
[("gate implementations","circuit/gates.go"),("gadget gates","snark/gkr/gate.go")],
observe=["circuit.Gate implementations","circuit.EvaluateCombinator"])

p("C18","A layer's derived description encodes exactly its wiring",
"For every wiring, the layer's widths are the smallest powers of two holding all indices, its gate list contains each distinct gate once, and the static table of each gate, for any output point, is the multilinear extension in the output variables of the indicator (with multiplicity) of that gate's wires, in the order output, left, right.",
["programs","inputs","configurations"],"all wirings up to a stated number of wires, widths and gates, all output points of an alphabet",
"Only the wirings of three circuits occur in tests, with at most two wires per layer and distinct gates.",
["circuit/layers.go","circuit/circuit.go"],
[("static tables","circuit/layers.go GetStaticTable"),("derived widths and gates","circuit/layers.go NewLayer")],
observe=["circuit.NewLayer","circuit.Layer.GetStaticTable"])

p("C19","The MiMC circuits compute MiMC and the proof system accepts them",
"For every batch of (state, block) pairs, chunking and number of cores, the provided MiMC circuit outputs exactly the keyed permutation of the native hash for every instance, its proofs are accepted by the native verifier, and a batch with any wrong output is rejected.",
["inputs","configurations"],"all batch sizes, chunkings, cores and values up to a stated bound",
"One random batch of eight instances in two chunks is tested and only its first output is compared.",
["examples/mimc.go","hash/mimc.go","circuit/gates.go","gkr/prover.go","gkr/verifier.go"],
[("wiring of the 91 rounds","examples/mimc.go CreateMimcCircuit")],
observe=["examples.CreateMimcCircuit","circuit.Circuit.Assign","gkr.Verifier.Verify"])

p("C20","The in-circuit MiMC hash equals the native hash",
"For every number of inputs (including none) and every values, constant or variable, the constraints of the in-circuit MiMC hash are satisfied with the native digest and with no other value.",
["inputs","configurations"],"all stream lengths up to a bound, all values of an alphabet, all wrong digests of an alphabet",
"One random stream length is tested and only the satisfied case.",
["snark/hash/mimc.go","hash/mimc.go"],
[("gadget","snark/hash/mimc.go MimcHash")],
observe=["R1CS satisfaction"])

p("C21","In-circuit polynomial evaluations equal the native ones",
"For every size and every point, the in-circuit evaluations of multilinear tables (plain and with two left/right points), of the equality polynomial and of univariate polynomials (including the sum of the values at 0 and 1) are satisfied by the native result and by no other value; tables assigned from chunks are ordered as natively.",
["inputs","configurations"],"all sizes up to a bound, all values and points of an alphabet, all wrong results of an alphabet",
"One size of each gadget is tested, on satisfied cases only; the two-point evaluation and the chunked assignment with more than one chunk are not.",
["snark/polynomial/multilinear.go","snark/polynomial/eq.go","snark/polynomial/univariate.go"],
[("gadgets","snark/polynomial")],
observe=["R1CS satisfaction"])

p("C22","The in-circuit sumcheck verifier agrees with the native one",
"For every shape and every assignment of claim and round polynomials, the in-circuit sumcheck verifier is satisfied exactly when the native verifier accepts, and it yields the same left, right and instance challenges and the same last claim.",
["inputs","configurations","fault_sequences"],"all numbers of variables up to a bound, honest proofs and every single alteration of them, wrong challenges and claims",
"One honest proof of one shape is tested, and its last claim is not looked at.",
["snark/sumcheck/sumcheck.go","sumcheck/verifier.go"],
[("gadget","snark/sumcheck/sumcheck.go AssertValid")],
observe=["R1CS satisfaction"])

p("C23","The in-circuit GKR verifier accepts exactly what the native one accepts",
"For the MiMC circuit, every batch size and chunking, the in-circuit GKR verifier is satisfied by the native prover's proof with the true inputs and outputs, and is not satisfied when any value of the proof, of the inputs or of the outputs is altered or when the proof was dishonestly built to break only one relation, just as the native verifier.",
["inputs","configurations","fault_sequences"],"all batch sizes and chunkings up to a bound, every position of proof, input and output, every single relation broken at every layer and round",
"One honest unchunked proof is tested; no dishonest assignment is ever tried, so a gadget without constraints would pass.",
["snark/gkr/proof.go","snark/gkr/circuit.go","snark/gkr/mimc.go","snark/gkr/gate.go"],
[("gadget","snark/gkr/proof.go AssertValid"),("layer combination","snark/gkr/circuit.go Combine, CombineWithLinearComb"),("MiMC description","snark/gkr/mimc.go")],
observe=["R1CS satisfaction"])

p("C24","The concurrency limit is respected and never loses a permit",
"Under every interleaving, at most N holders are inside a limiter of capacity N, a waiting acquirer proceeds as soon as a permit is free, and no permit is lost or created; in circuit assignment, table copies, claim computation and proving, no more workers than the requested number of cores evaluate gates or copy at the same time, and all permits are returned at the end.",
["schedules","configurations"],"all interleavings (bounded as stated) of acquirers and releasers, capacities and numbers of cores",
"No test observes the number of simultaneous workers.",
["common/semaphore.go","circuit/layers.go","circuit/circuit.go","sumcheck/par.go","polynomial/book_keeping.go"],
[("permit channel","common/semaphore.go"),("acquire/release around the work","circuit/layers.go Evaluate; sumcheck/par.go RunForChunk, GetClaimForChunk")],
observe=["common.Semaphore","custom gate observing its own concurrency"])

p("C25","Renderings, conversions and settings are faithful",
"The text form of a field element denotes that very element (its decimal form, or minus the decimal form of its opposite when that has fewer digits), also when texts are made concurrently; lists and tables render all their values in order; conversions from integers and to untyped lists keep every value in its place and share no memory with the original; random tables have the requested shape, with reduced, independent values; each setting is read from its own environment variable, a missing or malformed number being fatal rather than silently replaced; turning profiling or tracing on changes nothing to how often the profiled function runs.",
["inputs","configurations","schedules"],"all field elements, lists and sizes, alone and concurrently; all values of every environment setting; all combinations of profiling and tracing",
"No test looks at any of these helpers' results.",
["common/common.go","common/env.go","common/profiling.go","polynomial/book_keeping.go"],
[("renderings and conversions","common/common.go"),("settings","common/env.go"),("profiling","common/profiling.go ProfileTrace")],
observe=["common.PrettyStringFr, FrSliceToString, FrToGenericArray, Uint64ToFr, RandomFrArray, GetBN ..."])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
