"""Writes /verif/properties.jsonl (kept so the list is easy to edit in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw)))

p("P01", "Running a circuit gives the exact textbook state",
  "For every circuit built from the supported gates and compositions, every parameter assignment, initial state and bit ordering, running the circuit returns the state obtained by applying the textbook matrix of each gate to the qubits it names, in order. A batch of parameter values or of initial states returns one state per batch element, equal to running that element alone. Backend configuration options that only change how the simulation is carried out never change the result.",
  ["programs", "inputs", "configurations"],
  "all nestings of gates, sequences, tensor products, sums and scalings on any qubit indices; all real parameter values incl. batches; all initial states; both endiannesses; all execution options of the state-vector backend",
  "unit tests sample a few gates on a few supports; the guarantee is over every composition, support order, parameter batch and option",
  ["qadence/backends/pyqtorch/convert_ops.py", "qadence/backends/pyqtorch/backend.py", "qadence/execution.py", "qadence/model.py", "qadence/operations/*.py", "qadence/blocks/*.py", "qadence/circuit.py"],
  [("conversion to native operations", "qadence/backends/pyqtorch/convert_ops.py"), ("batching, initial state, endianness", "qadence/backends/pyqtorch/backend.py:_batched_expectation,run")],
  observe_at=["run", "QuantumModel.run"])

p("P02", "The matrix of a block is the operator it denotes",
  "For every block, requesting its matrix returns the linear operator the block denotes, for any parameter values, for the block's own support, the full register or any larger requested list of qubits, and in either bit ordering. The diagonal form of a diagonal operator equals the diagonal of that matrix.",
  ["programs", "inputs"],
  "all block trees incl. non-unitary ones, all supports (unsorted, gapped, padded), all values, both orderings and all tensor forms",
  "the matrix builder has separate code per block kind and per padding situation; tests only compare a few small fixed blocks",
  ["qadence/blocks/block_to_tensor.py", "qadence/blocks/matrix.py", "qadence/utils.py"],
  [("matrix construction", "qadence/blocks/block_to_tensor.py:block_to_tensor"), ("padding", "qadence/blocks/block_to_tensor.py:_fill_identities")],
  observe_at=["block_to_tensor", "block.tensor()"])

p("P03", "Expectation values are exact, per batch entry and per observable",
  "For every circuit, every list of observables (with constant or parametric coefficients), every batch of parameter values and every initial state, the returned array has one row per batch entry and one column per observable in the order given, and each entry equals the inner product of the exact final state with the observable applied to it. Execution options, the bit ordering and the choice of differentiation mode never change these values.",
  ["programs", "inputs", "configurations"],
  "all circuits x observables x batches x initial states x backend options x differentiation modes",
  "errors appear only for particular combinations (batched observable parameters, several observables, gate-level vs expression-level parameters, commuting-observable shortcuts)",
  ["qadence/backends/pyqtorch/backend.py", "qadence/backends/pyqtorch/convert_ops.py", "qadence/engines/torch/differentiable_expectation.py", "qadence/execution.py", "qadence/model.py"],
  [("batched / looped expectation", "qadence/backends/pyqtorch/backend.py"), ("differentiable expectation", "qadence/engines/torch/differentiable_backend.py")],
  observe_at=["expectation", "QuantumModel.expectation"])

p("P04", "Every differentiation mode returns the true derivative",
  "For every differentiable circuit and observable, the derivative of an expectation value with respect to any variational or feature parameter equals the true mathematical derivative, in automatic, adjoint and parameter-shift modes alike, including when one parameter occurs several times, inside expressions, in controlled gates, in Hamiltonian evolutions or (in the modes that accept it) in the observable. Derivatives of order two agree between the modes that support them.",
  ["programs", "inputs", "configurations"],
  "all parametric circuits, all parameter values and batches, all modes, first and second derivatives",
  "tests check selected gates; wrong spectral gaps or mis-accumulated chain-rule terms show only for particular gates, repeated parameters or batches",
  ["qadence/engines/torch/differentiable_expectation.py", "qadence/backends/parameter_shift_rules.py", "qadence/backends/gpsr.py", "qadence/backends/agpsr_utils.py", "qadence/backends/pyqtorch/backend.py", "qadence/blocks/utils.py"],
  [("PSR rule", "qadence/backends/parameter_shift_rules.py"), ("custom autograd function", "qadence/engines/torch/differentiable_expectation.py:PSRExpectation"), ("spectral gaps", "qadence/blocks/utils.py:uuid_to_eigen")],
  observe_at=["torch.autograd.grad of QuantumModel.expectation"])

p("P05", "Parameters take exactly the values their names and expressions say",
  "Every gate receives the value of its own symbolic expression: parameters with the same name share one value everywhere, differently named parameters and different constants are independent, and values supplied by the user override nothing else. Batched values are paired element by element with single values repeated, and missing feature values are reported rather than silently replaced.",
  ["programs", "inputs"],
  "all sets of named parameters, constants, and nested expressions over them, all value assignments and batch sizes, circuits and observables together",
  "name or identifier collisions and broadcasting mistakes need specific co-occurring expressions",
  ["qadence/parameters.py", "qadence/blocks/embedding.py", "qadence/blocks/utils.py", "qadence/model.py"],
  [("expression naming and evaluation", "qadence/parameters.py:stringify,torchify,evaluate"), ("embedding", "qadence/blocks/embedding.py:embedding")],
  observe_at=["run", "QuantumModel.run", "evaluate"])

p("P06", "The adjoint of a block is its Hermitian conjugate",
  "For every block, circuit and parameter assignment, the matrix of the adjoint equals the conjugate transpose of the original matrix, the adjoint of the adjoint is the original operator, and running a unitary circuit followed by its adjoint restores the initial state.",
  ["programs", "inputs"],
  "all block trees incl. multi-parameter gates, controlled gates, scalings, evolutions, projectors and matrix blocks",
  "each block kind has its own adjoint code; a wrong sign or order shows only at generic parameter values",
  ["qadence/blocks/*.py", "qadence/operations/*.py", "qadence/circuit.py"],
  [("adjoint", "qadence/blocks/abstract.py:dagger and overrides")], observe_at=["block.dagger()", "QuantumCircuit.dagger()"])

p("P07", "Circuit transformations preserve the operator",
  "Every transpilation (flattening, pushing scale factors to the leaves, grouping single-qubit gates, filling idle qubits with identities, inverting bit order twice, relabelling qubits, turning evolutions into gates, converting to and from openfermion operators) returns a block or circuit denoting the same operator as its input for every parameter assignment, up to exactly the relabelling, bit reversal or approximation order it advertises. It keeps the same parameters and does not alter its input.",
  ["programs", "inputs"],
  "all block trees, all passes and pass sequences, all parameter values",
  "rewrites go wrong on specific nesting patterns (scales inside sums inside scales, nested tensor products, controlled parametric gates)",
  ["qadence/transpile/*.py", "qadence/decompose.py", "qadence/blocks/manipulate.py"],
  [("passes", "qadence/transpile/block.py, flatten.py, invert.py, digitalize.py, transpile.py")], observe_at=["transpile", "flatten", "reassign", "invert_endianness"])

p("P08", "Block arithmetic is operator arithmetic",
  "Building blocks with sums, differences, scalar factors, products, tensor products, powers, divisions and in-place forms denotes exactly the corresponding expression on operators, for any nesting and any mixture of numeric and symbolic factors. Tensor products of blocks sharing qubits are rejected, a block's reported qubit support is the set of qubits it acts on, and two blocks that compare equal denote the same operator.",
  ["programs", "inputs"],
  "all expressions over the arithmetic operators, constants and parameters, all supports",
  "operator overloads flatten and merge their operands, and only particular nestings expose a lost factor, sign or order",
  ["qadence/blocks/abstract.py", "qadence/blocks/composite.py", "qadence/blocks/primitive.py", "qadence/blocks/utils.py", "qadence/operations/primitive.py", "qadence/qubit_support.py"],
  [("operators", "qadence/blocks/abstract.py"), ("composition helpers", "qadence/blocks/utils.py:chain,kron,add")], observe_at=["+, -, *, @, **, /, ==, qubit_support"])

p("P09", "Backends agree with each other",
  "For every circuit, observable, parameter batch and bit ordering supported by two backends, both return the same states and expectation values, and the same gradients where both are differentiable. Analog programs give the same physics on the pulse-level emulator and on the state-vector backend within the emulator's time resolution.",
  ["programs", "inputs", "configurations"],
  "all circuits in the common gate set, all parameter batches",
  "each backend has its own gate conversion table; disagreements are specific to a gate, an index order or a batch shape",
  ["qadence/backends/horqrux/*.py", "qadence/backends/jax_utils.py", "qadence/backends/pulser/*.py", "qadence/engines/jax/*.py", "qadence/backends/pyqtorch/*.py"],
  [("conversion to JAX operations", "qadence/backends/horqrux/convert_ops.py"), ("pulse construction", "qadence/backends/pulser/pulses.py")], observe_at=["run/expectation on each backend"])

p("P10", "Samples follow the Born rule in the requested bit order",
  "For every circuit, parameter batch, initial state and positive shot count, sampling returns one counter per batch entry whose counts sum to the number of shots, whose keys are bit strings with one character per qubit, and which only contains outcomes of non-zero probability; frequencies converge to the exact probabilities. Changing the bit ordering reverses every key and nothing else, and non-positive shot counts are rejected.",
  ["programs", "inputs", "configurations"],
  "all circuits, batches, initial states, shot counts, endiannesses",
  "a statistical guarantee over all states; ordering or batch mix-ups need asymmetric states to show",
  ["qadence/backends/pyqtorch/backend.py", "qadence/backends/horqrux/backend.py", "qadence/execution.py", "qadence/transpile/invert.py", "qadence/utils.py"],
  [("sampling", "qadence/backends/pyqtorch/backend.py:sample"), ("key ordering", "qadence/utils.py:int_to_basis, qadence/transpile/invert.py")], observe_at=["sample"])

p("P11", "Serialization round trips preserve meaning",
  "For every serializable block, circuit, register and noise description, converting to a dictionary, to JSON text or to a file and back yields an object that denotes the same operator with the same parameters, qubit support, register geometry and device settings. The round trip does not modify the original and a second round trip gives the same text as the first.",
  ["programs", "inputs"],
  "all block trees, parameter expressions, registers, circuits and noise handlers accepted by serialization",
  "each class has its own dictionary code, and loss shows only for particular classes, nestings or numeric literals",
  ["qadence/serialization.py", "qadence/blocks/*.py", "qadence/operations/*.py", "qadence/register.py", "qadence/parameters.py", "qadence/circuit.py", "qadence/noise/protocols.py"],
  [("dictionary conversion", "_to_dict/_from_dict in blocks, circuit, register"), ("entry points", "qadence/serialization.py:serialize,deserialize,save,load")], observe_at=["serialize/deserialize/save/load"])

p("P12", "Models survive any history of save, load, reset and freeze",
  "After any sequence of parameter updates, resets, fixing or freeing of parameters, saving, loading and copying, a model's outputs equal those of a freshly built model holding the same parameter values, and a loaded model reproduces the saved model's states, expectations, measurement and differentiation settings. Resetting or loading parameters changes exactly the named parameters, and the trainable parameter list contains exactly the parameters that are not fixed.",
  ["histories", "inputs"],
  "all sequences of model operations on all circuits and observables",
  "state accumulates over operations; tests exercise single steps",
  ["qadence/model.py", "qadence/ml_tools/models.py", "qadence/serialization.py", "qadence/measurements/protocols.py"],
  [("parameter store", "qadence/model.py:QuantumModel.reset_vparams,load_params_from_dict,set_as_fixed,set_as_variational"), ("persistence", "qadence/model.py:_to_dict,_from_dict,save,load")], observe_at=["QuantumModel", "QNN"])

p("P13", "Registers are faithful geometric graphs",
  "For every register constructed from a lattice, coordinates or a graph, the number of nodes, coordinates, edges, supports and pairwise distances agree with the requested geometry: distances are Euclidean and symmetric, the requested spacing is the smallest distance between two qubits, rescaling multiplies every distance by the factor, and neither building nor rescaling a register alters the graph or register it started from. Two registers compare equal exactly when their nodes, edges, coordinates and device agree.",
  ["inputs", "configurations"],
  "all lattice kinds and sizes, spacings, coordinates, graphs, rescalings",
  "geometry errors appear for particular sizes or spacings; tests check a couple of small lattices",
  ["qadence/register.py", "qadence/analog/device.py", "qadence/analog/addressing.py"],
  [("lattice factories", "qadence/register.py:Register.line,square,circle,..."), ("distances", "qadence/register.py:edge_distances,distances,rescale_coords")], observe_at=["Register"])

p("P14", "Analog blocks evolve under the documented Rydberg Hamiltonian",
  "For every register geometry, device specification, addressing pattern and sequence of analog rotations, waits and parallel local operations, execution equals exact evolution for the given duration under the documented Hamiltonian: driving and detuning on the addressed qubits, distance-dependent interaction between all pairs, and the addressing pattern where enabled.",
  ["programs", "inputs", "configurations"],
  "all registers, spacings, device settings, angles, drive, phase and detuning values, local and global supports, and nestings",
  "unit tests compare a few named rotations; unit conversions and interaction terms depend on geometry and device level",
  ["qadence/analog/*.py", "qadence/operations/analog.py", "qadence/blocks/analog.py"],
  [("conversion to Hamiltonian evolution", "qadence/analog/parse_analog.py"), ("Hamiltonian terms", "qadence/analog/hamiltonian_terms.py")], observe_at=["run with analog blocks"])

p("P15", "Hamiltonian evolution is the matrix exponential",
  "For every Hermitian generator given as a block, a matrix or a parametric block and every evolution time, the evolution acts as the exponential of minus i times time times generator on the named qubits, commuting generators being evolved exactly by the gate decomposition and other generators within the error bound of the chosen product formula. Time-dependent generators follow the Schrodinger equation within the solver tolerance.",
  ["programs", "inputs"],
  "all generators (sums of weighted Pauli and number-operator strings, dense matrices, parametric coefficients), times and supports",
  "sign, ordering and qubit-gap mistakes only appear for generators with several non-adjacent or identity factors",
  ["qadence/operations/ham_evo.py", "qadence/decompose.py", "qadence/transpile/digitalize.py", "qadence/backends/pyqtorch/convert_ops.py", "qadence/blocks/utils.py"],
  [("evolution block", "qadence/operations/ham_evo.py:HamEvo"), ("product formulas", "qadence/decompose.py:lie_trotter_suzuki")], observe_at=["run", "HamEvo.digital_decomposition", "digitalize"])

p("P16", "Circuit constructors build what they advertise",
  "For every argument combination: the quantum Fourier transform is the Fourier matrix (and its inverse undoes it) in the documented ordering, the digital-analog transform reproduces the target evolution, identity-initialised ansatzes start as the identity, feature maps encode exactly the documented rescaled and transformed feature, Hamiltonian factories sum exactly the requested terms, and hardware-efficient and alternating-layer ansatzes contain exactly the documented rotations and entanglers with distinct parameters.",
  ["inputs", "configurations"],
  "all sizes, depths, supports, strategies, strengths, ranges and gate choices",
  "the arguments interact (inverse with reversal, periodic with odd sizes, tower scaling with ranges) and tests sample few combinations",
  ["qadence/constructors/*.py", "qadence/constructors/daqc/*.py", "qadence/ml_tools/constructors.py"],
  [("constructors", "qadence/constructors/{qft,hea,ala,iia,feature_maps,hamiltonians}.py"), ("DAQC", "qadence/constructors/daqc/daqc.py")], observe_at=["qft, daqc_transform, iia, feature_map, hamiltonian_factory, hea, ala"])

p("P17", "Noisy simulation applies exactly the declared channels",
  "For every circuit and every noise description attached to gates or to the whole circuit, the result is the density matrix produced by applying each gate followed by its declared channels with the declared probabilities: it is Hermitian, positive, of trace one, and reduces to the noiseless result at zero probability. Readout errors transform the outcome distribution by the declared confusion model, noise descriptions combine in order and reject invalid combinations, and noise supplied for one call does not affect later calls.",
  ["programs", "inputs", "configurations", "histories"],
  "all circuits, channels, probabilities, filters and combinations, all call orders",
  "channel placement, filtering and leakage between calls depend on the combination of circuit, targets and history",
  ["qadence/noise/protocols.py", "qadence/transpile/noise.py", "qadence/backends/pyqtorch/convert_ops.py", "qadence/backends/pyqtorch/backend.py"],
  [("noise attachment", "qadence/transpile/noise.py:set_noise"), ("channel conversion", "qadence/backends/pyqtorch/convert_ops.py")], observe_at=["run/expectation/sample with noise", "NoiseHandler"])

p("P18", "Measurement protocols estimate the exact expectation",
  "For every circuit and Pauli observable, tomography and classical-shadow estimates converge to the exact expectation, and tomography is exact on states that are eigenstates of every term. Observables computed from samples equal the exact sample average, the number of shots used is the number requested, and readout mitigation inverts the declared confusion model up to sampling error while keeping a valid distribution.",
  ["programs", "inputs"],
  "all circuits, sums of weighted Pauli strings, batches, shot counts and noise levels",
  "basis-rotation and index mistakes depend on the Pauli string and the state; estimators are random",
  ["qadence/measurements/*.py", "qadence/mitigations/readout.py"],
  [("tomography", "qadence/measurements/tomography.py, utils.py"), ("shadows", "qadence/measurements/shadow.py"), ("mitigation", "qadence/mitigations/readout.py")], observe_at=["expectation(measurement=...)"])

p("P19", "State utilities return valid states and correct quantities",
  "For every size, batch, bit string and random seed: product, basis, uniform, GHZ and random state constructors return normalised states of the documented form and shape, circuits preparing them produce the same states, density matrices, partial traces, fidelities, purities and norms equal their definitions, and conversions between integers, bit strings, orderings and tensors are mutually inverse.",
  ["inputs"],
  "all sizes, batches, bit strings, orderings, generation methods and seeds",
  "identities over all inputs; tests use a few fixed strings",
  ["qadence/states.py", "qadence/utils.py", "qadence/transpile/invert.py", "qadence/divergences.py"],
  [("state constructors", "qadence/states.py"), ("basis conversions", "qadence/utils.py")], observe_at=["qadence.states", "qadence.utils"])

p("P20", "All overlap methods agree with the exact overlap",
  "For every pair of circuits and parameter batches, exact, swap-test, Hadamard-test and compute-uncompute overlaps all equal the squared modulus of the inner product of the two states, entry (i, j) belonging to the i-th first and j-th second parameter value; the divergence-based overlap and distances between outcome counts equal their definitions on the outcome distributions. Shot-based estimates converge to the exact values.",
  ["programs", "inputs", "configurations"],
  "all circuit pairs, parameter batches, methods, shot counts",
  "batch pairing and sign mistakes show only for asymmetric batches",
  ["qadence/overlap.py", "qadence/divergences.py"],
  [("methods", "qadence/overlap.py:overlap_exact,overlap_swap_test,overlap_hadamard_test,overlap_compute_uncompute")], observe_at=["Overlap.forward"])

p("P21", "Quantum neural networks map inputs, outputs and derivatives faithfully",
  "For every network, column k of the input tensor feeds the k-th declared input, each output column is the expectation of the corresponding observable including its scale and shift, rows are independent of each other, and the derivative helper returns the true mixed partial derivative for any index list. Networks built from configurations contain exactly the configured feature map, repetitions, ansatz and observable. Convolutional networks consist of exactly the documented cells on alternating neighbouring pairs of successively halved sets of qubits.",
  ["programs", "inputs", "configurations"],
  "all numbers and orders of inputs, batches, observables, derivative index lists and configurations",
  "input permutation and repetition mistakes need asymmetric circuits with several features",
  ["qadence/ml_tools/models.py", "qadence/ml_tools/constructors.py", "qadence/ml_tools/config.py", "qadence/ml_tools/qcnn_model.py", "qadence/backends/utils.py"],
  [("input formatting and derivative", "qadence/ml_tools/models.py"), ("from configs", "qadence/ml_tools/constructors.py")], observe_at=["QNN", "derivative", "QNN.from_configs"])

p("P22", "Training follows the configured schedule and the optimiser's mathematics",
  "For every configuration, dataset and callback list, training runs the epochs from the starting iteration to max_iter later with all batches of each, each parameter update equals a hand-written loop with the same optimiser (gradient-based or gradient-free), data and loss, and callbacks fire exactly at the stages and iterations their settings say, seeing the averaged loss and metrics of that stage. Learning-rate schedules and early stopping follow their documented formulas, an interruption ends training gracefully, validation and testing use the supplied data without changing parameters, and a further fit resumes from the latest checkpoint of its folder or else from the current parameters.",
  ["histories", "configurations", "inputs"],
  "all configurations, datasets, batch sizes, callback schedules and sequences of fit/test calls",
  "off-by-one and ordering errors depend on the combination of intervals, batches and previous calls",
  ["qadence/ml_tools/trainer.py", "qadence/ml_tools/train_utils/*.py", "qadence/ml_tools/callbacks/*.py", "qadence/ml_tools/optimize_step.py", "qadence/ml_tools/data.py", "qadence/ml_tools/parameters.py"],
  [("training loop", "qadence/ml_tools/trainer.py"), ("callbacks", "qadence/ml_tools/callbacks/callback.py,callbackmanager.py")], observe_at=["Trainer.fit", "Trainer.test", "callbacks"])

p("P23", "Checkpoints restore exactly what was saved",
  "After any sequence of training, checkpoint writing and loading, the latest checkpoint is the one with the highest iteration, loading it restores the model parameters, optimiser state and iteration number exactly as they were when written, and continuing from it gives the same trajectory as never having stopped. Best-only checkpoints hold the parameters of the best validation result after iteration 0 (an improvement counts when it exceeds the configured epsilon), and a damaged or missing file stops nothing: it leaves what it was to restore (the model's parameters, or the optimiser's state) unchanged.",
  ["histories", "crash_points", "inputs"],
  "all sequences of writes and loads, iteration numbers, models, optimisers, and truncation points of a file",
  "ordering of file names, partial files and interleavings of saves are not reachable by single-step tests",
  ["qadence/ml_tools/callbacks/saveload.py", "qadence/ml_tools/callbacks/callback.py", "qadence/ml_tools/callbacks/callbackmanager.py"],
  [("checkpoint files", "qadence/ml_tools/callbacks/saveload.py")], observe_at=["write_checkpoint", "load_checkpoint", "Trainer.fit"])

p("P24", "Evaluation has no side effects",
  "Running, sampling, differentiating, converting, transforming, drawing the matrix of, serialising or comparing blocks, circuits, registers, parameter values and states never changes them, and the result of an evaluation does not depend on which other evaluations happened before it. Evaluating twice gives the same answer.",
  ["histories", "programs"],
  "all sequences of public operations on shared objects",
  "leaks through shared blocks, default arguments or cached configuration need a particular order of calls",
  ["qadence/model.py", "qadence/execution.py", "qadence/backends/*.py", "qadence/transpile/*.py", "qadence/blocks/*.py"],
  [("shared objects", "whole library")], observe_at=["public functions on shared objects"])

p("P25", "Loading serialised text never executes it",
  "Whatever text appears in the expression, name or type fields of a serialised object, loading it either rebuilds the described object or raises an error; it never evaluates the text as program code, and well-formed parameter expressions are rebuilt to the same mathematical function.",
  ["inputs"],
  "all strings in expression, name and type fields, including near-grammatical malicious ones, and all well-formed expressions",
  "an adversarial input space; tests only hold a few strings",
  ["qadence/serialization.py", "qadence/serial_expr_grammar.peg", "qadence/parameters.py"],
  [("expression grammar", "qadence/serialization.py:SerializationModel"), ("type lookup", "qadence/serialization.py:deserialize")], observe_at=["deserialize", "parse_expr_fn"])

p("P26", "Structural queries agree with the operator",
  "For every block and circuit, the reported spectrum of the operator and of its generator, qubit count, support, length, list of gates, parameter lists and their identifiers, containment of blocks, operation types and parameters, blocks found by tag or expression, and the trainability, duplicate-parameter, identity, diagonality, commutation, Hamiltonian, hermiticity and unitarity predicates agree with the operator and the expression tree the block denotes.",
  ["programs", "inputs"],
  "all block trees and parameter values",
  "each query walks the tree with its own special cases, and mistakes show only on particular nestings or gates",
  ["qadence/blocks/utils.py", "qadence/blocks/abstract.py", "qadence/blocks/composite.py", "qadence/operations/*.py", "qadence/circuit.py"],
  [("queries", "qadence/blocks/utils.py"), ("spectra", "qadence/operations/*.py:eigenvalues,eigenvalues_generator")], observe_at=["block queries"])

p("P27", "Information content bounds follow from the loss landscape",
  "For every model, loss function, data and threshold grid, the landscape analysis varies exactly the trainable parameters, with the requested number of points per parameter; its losses are those of the model at these points and its finite differences, symbols, transition probabilities, information content, thresholds and gradient bounds are those of their definitions. The trainer reports these bounds for its own model and loss on one batch of the data given, and neither analysis changes the model.",
  ["inputs", "configurations"],
  "all models, parameter shapes, losses, data and thresholds",
  "the bounds are statistics over random points: a wrong column, sign or parameter count still gives plausible numbers",
  ["qadence/ml_tools/information/information_content.py", "qadence/ml_tools/trainer.py"],
  [("analysis", "qadence/ml_tools/information/information_content.py"), ("trainer entry", "qadence/ml_tools/trainer.py:get_ic_grad_bounds")], observe_at=["information content analysis", "gradient bounds"])

p("P28", "Cloud submissions carry the whole workload and polling reports its true outcome",
  "For every workload specification, what is sent to the platform rebuilds to the same circuit, register, observable, parameter values and requested result types, so that executing it there gives the local results; specifications with parameter values of more than one dimension or unequal lengths, or expectations without an observable, are refused. For every history of remote statuses, refresh times and timeouts, asking for a result polls that workload at the refresh interval, returns its result object at the first poll that finds it done, raises the documented error as soon as it has stopped, and times out only when the timeout has passed.",
  ["inputs", "histories", "schedules"],
  "all workload specifications, remote status histories, timeouts and refresh times",
  "payloads are only interpreted remotely and outcomes depend on when the remote status changes relative to the polls",
  ["qadence/pasqal_cloud_connection.py", "qadence/serialization.py"],
  [("submission", "qadence/pasqal_cloud_connection.py:submit_workload"), ("polling", "qadence/pasqal_cloud_connection.py:get_result")], observe_at=["payload given to the SDK", "get_result", "check_status"])

p("P29", "Drawings and printed expressions show the given program",
  "For every block, circuit and model, the drawn diagram has one wire per qubit, and along each wire exactly the operations acting on that qubit in their order, with gate names, parameters to three decimals, connections to controls and swap partners, and the enclosing tags and scale factors; theme, layout and output file are the requested ones and drawing changes nothing. The printed mathematical expression of an operator denotes that operator, up to three decimals of its coefficients.",
  ["programs", "configurations"],
  "all nested blocks, parameters, tags, themes, layouts and numbers of qubits",
  "a diagram can only be judged by reading it back, and mistakes depend on the order and nesting of the gates",
  ["qadence/draw/*.py", "qadence/transpile/block.py", "qadence/utils.py"],
  [("diagram", "qadence/draw/utils.py:make_diagram,qadence/draw/vizbackend.py"), ("expression", "qadence/utils.py:block_to_mathematical_expression")], observe_at=["display", "savefig", "html_string", "block_to_mathematical_expression"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
