import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
U='stoqcompiler/unitary/unitary.py';UD='stoqcompiler/unitary/unitary_definitions.py';SE='stoqcompiler/unitary/unitary_sequence_entry.py'
SQ='stoqcompiler/unitary/unitary_sequence.py';PR='stoqcompiler/unitary/unitary_primitive.py';PU='stoqcompiler/unitary/parameterized_unitary.py'
PD='stoqcompiler/unitary/parameterized_unitary_definitions.py';PP='stoqcompiler/unitary/parameterized_unitary_parameter.py'
C='stoqcompiler/compiler/compiler.py';CA='stoqcompiler/compiler/compiler_action.py';CR='stoqcompiler/compiler/compiler_result.py'
H='stoqcompiler/hamiltonian/hamiltonian.py';HT='stoqcompiler/hamiltonian/hamiltonian_term.py';V='stoqcompiler/verification/verification.py'

p('P01','Only unitary matrices of the stated size become operations',
 "Creating an operation succeeds only if the supplied matrix has exactly the stated dimension in both directions and is unitary within NumPy's default tolerance; anything else is rejected. The operation then holds exactly that matrix (entries below 1e-12 may be zeroed) multiplied by the global phase that makes its determinant one.",
 ['inputs'],'every matrix, dimension and combination of optional arguments given when an operation is created, and every library call that creates one',
 'Tests reject one non-square, one non-unitary and one wrong-size matrix of size 2-4; a check that is skipped for some dimension, flag or call path, or that is applied to something other than the stored matrix, goes unseen.',
 [U],[('shape and unitarity assertions before the matrix is stored','Unitary.__init__'),('determinant phase balancing','Unitary.__init__')],
 [('matrix','the stored unitary matrix','Unitary')],['Unitary(...)','Unitary.get_matrix'])
p('P02','Products, tensor products and inverses are the ordered mathematical ones',
 "Multiplying an operation by a factor from the left gives factor times operation and from the right gives operation times factor, and mismatched dimensions are refused. The tensor product puts the receiver first and the argument second; the inverse is the conjugate transpose, flips the inverse mark and keeps name, parameters and qubits. All results are equal up to a global phase.",
 ['inputs'],'all pairs of operations of any dimension, commuting or not',
 'Tests multiply Pauli rotations, which commute up to a phase, and tensor an operation with itself or the identity, so swapped operands pass.',
 [U],[('left_multiply / right_multiply / tensor / inverse','Unitary')],[],['Unitary.left_multiply','Unitary.right_multiply','Unitary.tensor','Unitary.inverse'])
p('P03','Distance is the phase-blind overlap distance; closeness follows the threshold',
 "The distance between two operations of dimension d is one minus the absolute value of the trace of (first-dagger times second) divided by d, whether the second is given as an operation or as a matrix, and a different dimension is refused. With a threshold t, two operations are close exactly when their distance is at most 1 - t, up to rounding; without one, exactly when the distance is zero within NumPy's default tolerance.",
 ['inputs'],'all pairs of operations/matrices, all thresholds in [0,1] and no threshold',
 'Tests compare a handful of operations with themselves or the T gate at three thresholds; symmetry, phase blindness, normalisation and threshold 1.0 are not exercised for all operations.',
 [U],[('distance_from','Unitary.distance_from'),('close_to','Unitary.close_to')],[],['Unitary.distance_from','Unitary.close_to'])
p('P04','Every predefined gate is the textbook gate for every angle',
 "For every value of its parameters each predefined fixed gate (Rx, Ry, Rz, R, H, T, X, Y, Z, CNOT, CCNOT, phase-flip syndrome, XX, GMS, Hamiltonian evolution exp(iHt)) is unitary and equals its textbook matrix up to a global phase, carries its own name, and records the parameter values it was built from with the right angle/non-angle marking.",
 ['inputs'],'all real angles and times, all qubit counts for GMS, all Hermitian matrices for evolution',
 'Tests sample a few angles and mostly check that gates square to the identity or agree with each other at the sampled angles.',
 [UD,SE],[('gate matrix definitions','UnitaryDefinitions')],[],['UnitaryDefinitions.*'])
p('P05','Parameterized gates accept only in-range values and instantiate faithfully',
 "Instantiating a parameterized gate succeeds only if every given value lies in its parameter's closed interval and there is one value per parameter; the result has the matrix of exactly those values and records each value, in order, under its parameter's name and angle marking. Each predefined parameterized gate agrees with the corresponding fixed gate at every value, and randomly drawn values lie in the interval and can reach all of it.",
 ['inputs'],'all parameter values, all interval bounds, all parameterized gates',
 'Tests instantiate each gate at zero and one or two other values, with one out-of-range value.',
 [PU,PP,PD],[('as_unitary validation and recording','ParameterizedUnitary.as_unitary'),('is_valid / random_value','ParameterizedUnitaryParameter'),('definitions delegate to the fixed gates','ParameterizedUnitaryDefinitions')],[],['ParameterizedUnitary.as_unitary','ParameterizedUnitaryParameter.random_value'])
p('P06','A gate applied to chosen qubits acts on exactly those qubits in that order',
 "The full-system operation of a sequence entry is the gate on the listed qubits, first listed qubit = first tensor factor, and identity on all other qubits, for any order and spacing of the listed qubits and any system size that contains them. It keeps the gate's name, parameters and qubit list, and asking again, for the same or another system size, gives the operation for the size asked for. Qubit lists with repeats, negative indices or the wrong length are refused.",
 ['inputs','histories'],'all gates, qubit lists and system sizes, and any order of requests to the same entry',
 'Tests embed the CNOT on [0,1] and [1,0] only (both are involutions, so a permutation and its inverse look alike) and one identity.',
 [SE],[('permutation conjugation and per-size cache','UnitarySequenceEntry.get_full_unitary'),('get_permute_matrix','UnitarySequenceEntry')],
 [('full_unitary_by_dimension','cache of the full operation per system size','UnitarySequenceEntry')],['UnitarySequenceEntry.get_full_unitary','UnitarySequenceEntry.get_permute_matrix'])
p('P07','A sequence reports the product of the entries it actually holds',
 "After any history of creating a sequence, appending or removing at either end, undoing, and asking for the product, the reported product equals the product of the entries currently held, first entry acting first (rightmost), up to a global phase. Asking for the product changes nothing observable.",
 ['histories','inputs'],'all finite histories of sequence operations over arbitrary entries, with the product requested at any points in between',
 'Tests run three fixed histories on one qubit with X, Y, Z gates that commute up to a phase, so a product cached on the wrong side, or left stale after some interleaving of append/remove/undo/product, passes.',
 [SQ],[('incremental update of the cached product','append_first/append_last/remove_first/remove_last/product')],
 [('sequence_product','cached product, None when unknown','UnitarySequence')],['UnitarySequence.product'])
p('P08','Undo restores exactly the last saved state, once',
 "Undo brings back the entries and product the sequence had just before the most recent change that was made with undo-saving on, however many changes were made since without saving. It can be used once per saved change: without a saved state it fails, and it leaves the sequence unchanged when it fails.",
 ['histories'],'all finite histories mixing saving and non-saving appends/removes at both ends, product requests and undos, including removes on an empty sequence',
 'One test undoes two single changes; no test undoes several unsaved changes, undoes with or without the product having been requested, or changes an entry after the save.',
 [SQ],[('save and restore of the undo state','UnitarySequence._save_undo_state / undo')],
 [('previous_entries / previous_sequence_product','saved state','UnitarySequence')],['UnitarySequence.undo'])
p('P09','A sequence never holds an entry that does not fit, and refusals change nothing',
 "Every way of putting entries into a sequence (creation, appending at either end) refuses anything that is not a sequence entry, is larger than the system, or addresses a qubit outside the system. A refused append leaves entries, product and undo state as they were; removing from an empty sequence is a harmless no-op.",
 ['inputs','histories'],'all candidate entries and system dimensions, for every entry route, in every sequence state',
 'No test offers an invalid entry to a sequence or removes from an empty one.',
 [SQ],[('entry validation before mutation','UnitarySequence.__init__/append_first/append_last')],[],['UnitarySequence(...)','append_first','append_last'])
p('P10','Sequence inverse and concatenation are exact and leave the sources alone',
 "The inverse of a sequence holds the inverses of the entries, on the same qubits, in reverse order, and reports the inverse product. Combining sequences gives the entries of all of them in the order given and the matching product; combining sequences of different dimensions or non-sequences is refused. Neither operation changes its source sequences.",
 ['inputs','histories'],'all sequences (whether or not their products or entry matrices were already computed), any number of sequences combined',
 'Tests invert one 2-entry sequence and combine one pair on a single qubit; multi-entry order, qubit lists and untouched sources are not checked.',
 [SQ],[('combine','UnitarySequence.combine'),('inverse','UnitarySequence.inverse')],[],['UnitarySequence.combine','UnitarySequence.inverse'])
p('P11','Library calls never modify or capture what the caller passed in or got back',
 "Apart from the documented mutators (sequence append/remove/undo) and invisible caching, no public call changes an argument, its receiver, or any object reachable from them, nor a default argument or global. Entry lists handed to or obtained from a sequence, primitive lists handed to a compiler and term lists handed to a Hamiltonian are independent copies: changing one side never shows on the other.",
 ['inputs','histories'],'all public operations and all arguments, including aliasing between arguments',
 'Tests never look at an argument again after passing it.',
 [U,SQ,SE,C,H,HT,V,PU,PP,PR],[('copies at the API boundary','UnitarySequence.__init__/get_sequence_entries/_save_undo_state, Compiler.__init__, Hamiltonian.__init__, Unitary.__init__ (astype)')],[],['all public methods'])
p('P12','Text exports describe every operation completely, in order',
 "QASM, JAQAL and display output of a sequence contain a header and then exactly one line per entry in sequence order. Each line gives the operation's name, all its parameters in order (QASM: angles as multiples of pi, 7 decimals; JAQAL: plain values, 7 decimals; display: named, angles in units of pi) and the qubits it acts on in the order it was applied, written as plain integers; an operation without an explicit qubit list is shown on all its qubits in QASM and JAQAL.",
 ['inputs'],'all sequences, operations, parameter sets and qubit lists, including randomly generated ones',
 'Tests only check that the strings are non-empty, plus one parameterless single-qubit line each.',
 [U,SQ,SE],[('get_qasm/get_jaqal/get_display_name','Unitary'),('line per entry','UnitarySequence.get_qasm/get_jaqal/get_display_output')],[],['get_qasm','get_jaqal','get_display_output','get_display_name'])
p('P13','An inverted operation is never shown as the original one',
 "Wherever an operation appears in text output, directly or as an entry of a sequence, an inverted operation is told apart from the operation itself, and inverting twice shows the original again.",
 ['inputs','histories'],'all operations and sequences, inverted any number of times, embedded in any system size',
 'Tests check the display name of one bare operation; entries of inverted sequences are never rendered.',
 [U,SE,SQ],[('is_inverse mark','Unitary.inverse/get_display_name'),('mark carried into the full-system operation','UnitarySequenceEntry.get_full_unitary')],[('is_inverse','inverse mark','Unitary')],['get_display_output','get_qasm','get_jaqal'])
p('P14','Compilation stops exactly when close enough or out of steps',
 "Plain and layered compilation return only when the sequence built so far is close to the target at the requested threshold or the given number of steps has been used, and they take a further step only when neither holds; so the step count never exceeds the limit, and a target that is already reached takes no step.",
 ['inputs','schedules'],'all targets, thresholds (including none), step limits (including zero) and all outcomes of the random choices',
 'Tests run a few seeds to convergence and never hit the step limit; the random choices quantify over all runs.',
 [C],[('loop condition','Compiler._compile/_compile_layered')],[],['Compiler.compile','Compiler.compile_layered','CompilerResult'])
p('P15','The cost history is truthful and rejected proposals leave no trace',
 "The result's cost history has exactly one value per step: the distance between the target and the sequence as it stood after that step, so the last value is the distance of the returned sequence. In a step whose proposal is rejected the sequence (all entries, including every entry of a proposed or removed layer) is exactly what it was before the step; in an accepted step it is exactly the proposed sequence.",
 ['schedules','histories'],'all outcomes of the random choices at every step, for plain and layered compilation',
 'Tests only check that the history is a list; rollback of multi-entry layer proposals is never observed.',
 [C,SQ],[('accept/undo branches','Compiler._compile/_compile_layered'),('undo saved only with the first modification of a layer','Compiler._make_random_change_layered')],[('cost_by_step','cost after each step','CompilerResult')],['CompilerResult.cost_by_step','CompilerResult.compiled_sequence'])
p('P16','Acceptance follows the annealed Metropolis rule',
 "A proposed change is accepted with probability min(1, exp(-beta * (new cost - old cost))): always when it does not increase the distance to the target. Beta starts at zero, grows by the annealing rate once per step, and is capped.",
 ['schedules','inputs'],'all cost pairs, annealing rates and steps',
 'The rule is only exercised through convergence of a few seeded runs, which many wrong rules also pass.',
 [C],[('acceptance rule','Compiler._accept_proposed_change'),('annealing','Compiler._compile/_compile_layered')],[('beta','inverse temperature','Compiler')],['Compiler.compile'])
p('P17','Every generated gate is one the configuration allows',
 "A randomly generated entry is one of the offered primitives with its parameters drawn from their allowed intervals, placed on one of that primitive's allowed qubit lists or, without such a restriction, on distinct qubits of the system. Primitives with no allowed placement are never chosen; choice follows the configured probabilities (uniform when none are given), whichever primitives are excluded.",
 ['inputs','schedules'],'all primitive lists, probability lists, placement restrictions, system sizes and random outcomes',
 'Tests never use placement restrictions or probabilities.',
 [C],[('create_random_sequence_entry','Compiler')],[],['Compiler.create_random_sequence_entry'])
p('P18','Each compilation move does what it says with the configured probability',
 "Each step picks one of exactly four moves: append at the front, append at the back, remove at the front, remove at the back; the two appends share the configured append probability equally and the two removals share the rest. An append adds one newly generated gate drawn with the compiler's own primitives and probabilities (or one whole new layer) at that end, a removal drops one gate (or one whole layer) at that end, and nothing else changes.",
 ['schedules','inputs'],'all random outcomes, append probabilities, sequences and layers',
 'Convergence of a few seeded runs does not reveal a mis-wired, missing or mis-weighted move.',
 [C,CA],[('move selection and dispatch','Compiler._make_random_change/_make_random_change_layered'),('classification of moves','CompilerAction.is_append/is_remove')],[],['Compiler.compile','CompilerAction'])
p('P19','Layered sequences consist of whole layers with the requested gate counts',
 "A random layer contains, for every requested primitive, exactly the requested number of generated gates of that primitive, in random order. Layered compilation, layered verification and benchmarking sequences only ever consist of whole layers; negative or non-integer counts are refused by verification.",
 ['inputs','schedules'],'all count tables, layer numbers and random outcomes',
 'Tests check total length modulo the layer length for one table.',
 [C,V],[('create_random_layer','Compiler'),('whole-layer moves','Compiler._make_random_change_layered')],[],['Compiler.create_random_layer','Compiler.compile_layered','Verification.generate_layered_rav_sequence'])
p('P20','Compilations on one compiler are independent of each other',
 "What a compilation returns depends only on the compiler's configuration, the call's arguments and the random numbers drawn, not on earlier compilations with the same compiler object or on later changes to the lists the compiler was configured with; results of different compilations share no mutable state.",
 ['histories'],'all histories of compilations on one compiler object',
 'Every test creates a fresh compiler for a single compilation.',
 [C],[('annealing state reset per compilation','Compiler.compile*'),('configuration copied','Compiler.__init__')],[('beta','annealing state','Compiler')],['Compiler.compile','Compiler.compile_layered'])
p('P21','Fixing the NumPy seed reproduces every result',
 "All random choices in the library come from NumPy's global random generator and nothing else that varies between runs (other generators, clocks, hash or set order, object identity, environment) influences any result other than the reported elapsed time; the library never reseeds the generator.",
 ['inputs','schedules','configurations'],'all library calls and all seeds',
 'The test harness seeds both generators before each test and no test compares two seeded runs.',
 ['stoqcompiler'],[('np.random.* draws','Compiler, Hamiltonian, Unitary.random, ParameterizedUnitaryParameter')],[],['all public randomised operations'])
p('P22','Hamiltonian terms are validated and split exactly into strength times shape',
 "A Hamiltonian term is accepted only if its matrix is square and Hermitian; its strength is the largest singular value, positive, and strength times normalized matrix is the given matrix. A Hamiltonian accepts only a non-empty list of terms of one common dimension, evolves under the sum of all its terms, and its evolution over time t is exp(iHt).",
 ['inputs'],'all matrices and term lists',
 'Tests use 2x2 and Pauli-product terms.',
 [HT,H],[('validation and normalisation','HamiltonianTerm.__init__'),('validation','Hamiltonian.__init__'),('get_time_evolution_operator','Hamiltonian')],[],['HamiltonianTerm','Hamiltonian.get_time_evolution_operator'])
p('P23','Evolution sequences contain the prescribed steps on the whole system',
 "The ideal sequence is the requested number of equal evolutions over time/steps; each Trotter step contains every term exactly once, evolved over time/steps with its full matrix, in order or (on request) shuffled; QDRIFT draws each of the requested repetitions independently with probability strength/total strength and evolves the normalized term for total strength * time/repetitions. All act on all qubits of the system in order.",
 ['inputs','schedules'],'all Hamiltonians, times, step counts and random outcomes',
 'Tests compare products for two or three small Hamiltonians at tolerance 0.05, which hides wrong weights or missing/duplicate terms.',
 [H],[('get_ideal_sequence / get_trotter_sequence / get_qdrift_sequence','Hamiltonian')],[],['Hamiltonian.get_ideal_sequence','Hamiltonian.get_trotter_sequence','Hamiltonian.get_qdrift_sequence'])
p('P24','Hamiltonian compilation aims at the right target with the right building blocks',
 "STOQ compilation of an evolution targets exp(iHt) for the given time with the given threshold, using as building blocks the evolution of each single term (or, when simultaneous terms are allowed, of every non-empty subset of terms summed) over times between minus and plus the maximum step, on the whole system. The Hamiltonian verification sequence starts with random steps of those blocks of at most the maximum duration until their durations reach the given time, and continues with a compilation whose target is the inverse of that random part.",
 ['inputs','schedules'],'all Hamiltonians, times, step bounds, thresholds and random outcomes',
 'Two tests on one two-term Hamiltonian check the final distance at threshold 0.9.',
 [H],[('compile_stoq_sequence / compile_rav_sequence','Hamiltonian')],[],['Hamiltonian.compile_stoq_sequence','Hamiltonian.compile_rav_sequence'])
p('P25','Verification sequences are a random part followed by its compiled inverse',
 "A verification (RAV) sequence consists of exactly the requested number of randomly generated gates or layers followed by the result of compiling, with the caller's primitives or layer counts, primitive probabilities, append probability, threshold and step limit, the inverse of the product of that random part. With threshold 0 or step limit 0 it is the random part alone with an empty cost history, and a cross-entropy (XEB) sequence is exactly the requested number of random layers. A threshold of none means the exact threshold everywhere.",
 ['inputs','schedules'],'all primitives, counts, lengths, thresholds, step limits, probabilities and random outcomes',
 'Tests check only the final distance at threshold 0.5 for one primitive set and never vary probabilities or limits.',
 [V],[('generate_rav_sequence / generate_layered_rav_sequence / generate_xeb_sequence','Verification')],[],['Verification.*','CompilerResult'])
p('P26','Ill-formed requests are refused before anything is built',
 "Placement restrictions with repeated or negative qubits or of the wrong size, primitives of the wrong type or larger than the system, compile targets that are not operations or compilation without primitives, negative sequence lengths or layer counts, thresholds outside [0,1] in verification, parameters without a name or with maximum below minimum, reversed time ranges and non-Hermitian evolution generators are all refused, on every path.",
 ['inputs'],'all arguments of the public constructors and entry points',
 'Tests cover a handful of rejections; a guard that is skipped for some argument combination goes unseen.',
 [C,V,PR,PU,PP,PD,UD],[('assertions at entry','constructors and entry points')],[],['UnitaryPrimitive(...)','Compiler(...)','Compiler.compile','Verification.*','ParameterizedUnitary*'])
# not applicable
p('N01','Long incremental products stay numerically accurate',
 "The cached product of a sequence stays within numerical tolerance of the product recomputed from its entries after arbitrarily many appends, removals and undos.",
 ['histories'],'histories of any length','Tests perform fewer than ten operations.',[SQ],[('incremental product','UnitarySequence')],[],['UnitarySequence.product'])
p('N02','Compilation converges to the threshold',
 "For a universal primitive set the stochastic compilation reaches any threshold below one within a practical number of steps with high probability.",
 ['schedules','inputs'],'all targets and random outcomes','Tests try a few seeds on one and two qubits.',[C],[('MCMC search','Compiler')],[],['Compiler.compile'])
p('N03','Decomposition error shrinks as promised',
 "Trotter and QDRIFT sequences approximate the ideal evolution with errors vanishing at the published rates as the number of steps grows.",
 ['inputs','schedules'],'all Hamiltonians and step counts','Tests check one tolerance for three Hamiltonians.',[H],[('Trotter, QDRIFT','Hamiltonian')],[],['UnitarySequence.product'])
p('N04','Random operations are Haar distributed',
 "Random operations are distributed uniformly over the unitary group of the given dimension.",
 ['schedules'],'the distribution over random outcomes','Tests draw a few operations.',[U],[('scipy.stats.unitary_group','Unitary.random')],[],['Unitary.random'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
