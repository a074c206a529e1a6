"""The properties, and what decides each.  mk.py writes properties.jsonl and MANIFEST.json from here."""
L = 'secure-computation-library/'
I = L + 'include/scl/'
S = L + 'src/scl/'
PROPS = {}


def P(pid, title, statement, over, qtext, why, files, mech, harness, tp=False, groups=(), level='other', note='', bound=None, assume=(), trusted=(), contracts=True):
    PROPS[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, harness=harness, tp=tp,
                      groups=list(groups), level=level, note=note, assume=list(assume), trusted=list(trusted), contracts=contracts and bool(groups))
    if bound:
        PROPS[pid]['bound'] = bound


P('P25', 'The full protocol computes the circuit, for every circuit and party count',
  'For every layered arithmetic circuit, every batch size, every threshold and matching number of parties, and all client inputs, running the function-dependent preprocessing followed by the online phase makes every receiving client learn exactly the value obtained by evaluating the circuit in the clear. This holds whether the correlations come from the function-independent protocol or are dummies, and for layers whose width is not a multiple of the batch size.',
  ['programs', 'inputs', 'configurations', 'schedules'], 'all circuits, inputs, clients as input and output owners, batch sizes k, thresholds t with n = t+2(k-1)+1, correlation sources',
  'The tests run a handful of hand-built circuits with one or two batch sizes; wiring, batching, dummy padding and degree book-keeping must agree for every circuit shape and every k.',
  ['src/tp/circuits/offline.cc', 'src/tp/circuits/online.cc', 'src/tp/mult_gate.h', 'src/tp/mult_gate.cc', 'src/tp/input_gate.h', 'src/tp/output_gate.h', 'src/tp/correlator.h', 'src/tp/correlator.cc'],
  [('function-dependent preparation of masks and packed shares', 'src/tp/circuits/offline.cc; MultBatch::FDMultOffline*'), ('online rounds', 'src/tp/circuits/online.cc; MultBatch::Run*'), ('correlations', 'src/tp/correlator.cc')],
  'c25_fdprep', tp=True, groups=['gates', 'batches', 'layers', 'circuit', 'phases', 'corr', 'fdprep', 'packed', 'evpoly', 'compose'])

P('P23', 'Online phase: opened value plus mask equals the clear value on every wire',
  'After the online phase every party that opens a wire holds the clear value of that wire minus its mask, for every gate of every circuit, every assignment of masks including zero and constant masks, and every distribution of inputs over clients. The value a receiving client outputs is the clear value of the output wire.',
  ['programs', 'inputs', 'configurations', 'schedules'], 'all circuits, masks, inputs and client assignments',
  'The existing tests use all-zero or fixed dummy masks on a few circuits, so a term of the multiplication equation that vanishes there is never observed.',
  ['src/tp/mult_gate.h', 'src/tp/mult_gate.cc', 'src/tp/circuits/online.cc', 'src/tp/input_gate.h', 'src/tp/output_gate.h', 'src/tp/gate.h'],
  [('mu = value - lambda', 'MultBatch::P1ReceivesMusAndComputesMus / RunOnline*'), ('input and output batches', 'InputBatch, OutputBatch')],
  'c23_online', tp=True, groups=['gates:GetMu|SetInput|GetValue|IsLearned|overriders', 'batches:Send|Receive|SetNetwork', 'layers:SetNetwork', 'circuit:SetNetwork|SetInputs|GetOutputs', 'phases', 'packed', 'evpoly', 'compose'])

P('P24', 'Function-independent correlations satisfy their linear relations',
  'After the function-independent preprocessing, the individual random sharings all lie on polynomials of the prescribed degree and the unpacked sharings hide the same random values as the packed ones at the matching position; zero sharings reconstruct to zero in every slot; multiplication triples, input and output batches carry sharings of consistent values. This holds for every number of parties, threshold and batch size, and for every requested amount including zero and non-multiples of the extraction width.',
  ['configurations', 'inputs', 'schedules'], 'all n, t, k with n = t+2(k-1)+1 and all numbers of individual sharings, multiplication, input and output batches',
  'The tests fix one or two sizes; amounts that are not a multiple of the number of extracted sharings per round, or that leave one kind empty, are never reached.',
  ['src/tp/fi_prep.cc', 'src/tp/correlator.h', 'src/tp/correlator.cc'],
  [('randomness extraction with a Vandermonde matrix', 'Correlator::PrecomputeVandermonde, GenInd*, GenUnpacked*'), ('mapping onto batches', 'Correlator::FIPrepFromDummies / GenCorrelations*')],
  'c24_fiprep', tp=True, groups=['corr', 'fiprep', 'packed', 'evpoly'])

P('P26', 'No correlation is used twice',
  'Within one execution every multiplication, input and output batch uses correlated randomness that no other batch uses: each unit of prepared randomness is handed out at most once. When the prepared amount suffices for the circuit the execution succeeds.',
  ['programs', 'histories'], 'all circuits and all orders of multiplication, input and output batches over prepared correlations',
  'Correctness tests still pass when two batches share a mask: the outputs are right and only secrecy is lost.',
  ['src/tp/correlator.cc', 'src/tp/correlator.h', 'src/tp/fi_prep.cc'],
  [('per-batch hand-out of shares', 'Correlator::PopulateIndvShrs, PopulateMultBatches, PopulateInputBatches, PopulateOutputBatches')],
  'c26_fresh', tp=True, groups=['handout', 'fiprep:Receive', 'corr:PrecomputeVandermonde', 'once'])

P('P27', 'The DN07 baseline computes the circuit',
  'With n = 2t+1 parties, the baseline protocol makes every receiving client learn the value of the circuit in the clear, for all inputs and for every circuit, and the intermediate sharings have degree at most t after every multiplication.',
  ['programs', 'inputs', 'configurations', 'schedules'], 'all circuits, all inputs, all t with n = 2t+1',
  'The tests run one small circuit; multi-client inputs, deep chains, repeated operands and many outputs are not sampled.',
  ['src/tp/dn07.h', 'src/tp/dn07.cc'], [('double sharings', 'dn07.cc GenerateShares / PrepareDoubleSharings'), ('multiplication protocol', 'dn07.cc PartiesSendToP1, P1Reconstructs')],
  'c27_dn07', tp=True, groups=['dn07', 'threshold:DN07', 'evpoly', 'gates:GetClear|SetClear|Dn07'])

P('P22', 'Clear evaluation is the mathematical meaning of the circuit',
  'Evaluating a circuit in the clear returns, for every output of every client, in the order they were declared, the value of the polynomial the circuit describes on the given inputs. Supplying the wrong number of inputs is rejected and evaluating a gate whose inputs were never provided is rejected.',
  ['programs', 'inputs'], 'all circuits and inputs', 'Tests evaluate a few fixed circuits; shared sub-expressions, deep addition chains, outputs of inputs and unused gates are not covered.',
  ['src/tp/circuits/cleartext.cc', 'src/tp/gate.h', 'src/tp/mult_gate.h', 'src/tp/input_gate.h', 'src/tp/output_gate.h', 'src/tp/circuits.h'], [('recursive evaluation', 'Gate::GetClear'), ('input assignment', 'Circuit::SetClearInputs*')],
  'c22_clear', tp=True, groups=['gates:Clear|overriders|IsEvaluated', 'batches:Clear', 'layers:Clear', 'circuit:Clear', 'meaning'])

P('P21', 'Circuit building batches every gate exactly once, in order',
  'Building a circuit puts every gate of a layer into exactly one batch of the layer\'s list, in the order of declaration, pads the last batch up to the batch size, keeps client and layer boundaries, and reports numbers of inputs, outputs, gates, batches, depth and width that match what was declared. A circuit derived from a size and depth has exactly the requested number of multiplication gates and depth.',
  ['programs', 'configurations', 'histories'], 'all sequences of building calls and all batch sizes', 'The tests check counts for a few circuits; widths around multiples of the batch size and clients with no inputs or outputs are not enumerated.',
  ['src/tp/circuits.h', 'src/tp/circuits/building.cc', 'src/tp/circuits/generic.cc', 'src/tp/mult_gate.h', 'src/tp/input_gate.h', 'src/tp/output_gate.h'],
  [('batch closing', 'InputLayer/MultLayer/OutputLayer Append and Close'), ('metrics', 'Circuit::GetWidth, GetDepth, GetSize...')], 'c21_circuit', tp=True, groups=['batches:HasRoom|Append|GetOwner', 'layers:Append|Close|GetSize', 'circuit:Input\\(|Output\\(|Mult\\(|Add\\(|Layer|Depth|GetN|Width|Size|Compute|Close'])

P('P28', 'Thresholds are accepted exactly when the protocol supports them',
  'Setting a threshold on a circuit run, a correlator or the baseline is accepted exactly when the number of parties is consistent with it and with the batch size (honest majority and, for the packed protocol, n = t + 2(k-1) + 1) and rejected with an error otherwise.',
  ['configurations'], 'all triples (n, t, k)', 'Tests try a few triples; off-by-one errors at the boundary are only visible for specific combinations.',
  ['src/tp/circuits.h', 'src/tp/correlator.h', 'src/tp/dn07.h', 'src/tp/mult_gate.h'], [('threshold validation', 'SetThreshold, SetNetwork')], 'c28_threshold', tp=True, groups=['threshold'])

P('P13', 'Shamir sharing: exact reconstruction, error detection and correction',
  'For every threshold and every number of shares allowed, sharing a secret and reconstructing from the shares (any sufficient prefix for the passive variant) returns the secret; the detecting variant accepts the first 2t+1 shares exactly when they lie on one polynomial of degree t; the correcting variant returns the secret whenever at most t of the first 3t+1 shares are wrong. Too few shares are rejected.',
  ['inputs', 'configurations', 'fault_sequences'], 'all secrets, thresholds, numbers of shares, and error patterns', 'Tests corrupt one fixed position for one threshold; other positions, error values and thresholds are untested.',
  [I + 'ss/shamir.h', I + 'ss/poly.h', I + 'ss/evpoly.h'], [('share creation', 'details::ShamirSS / ShamirSSFactory'), ('reconstruction', 'ReconstructShamirPassive, ReconstructShamirDetect, ReconstructShamirRobust')], 'c13_shamir', groups=['shamir', 'shgen'])

P('P14', 'Packed sharing: every packed secret is recovered at its own position',
  'Sharing a vector of secrets with any admissible degree gives shares from which interpolation at the agreed positions returns every secret in its own slot, at the default positions and at explicitly chosen ones, and shares of sums are sums of shares. Requests that the degree or the number of shares cannot support are rejected.',
  ['inputs', 'configurations'], 'all vectors of secrets, degrees and numbers of shares', 'Tests use a few sizes; full-degree, single-secret and non-default position combinations are missing.',
  [I + 'ss/packed.h', I + 'ss/evpoly.h'], [('packed share creation and reconstruction', 'packed.h PackedShamir*, EvPolyFromSecretsAndDegree, SecretsFromSharesAndLength')], 'c14_packed', groups=['packed'])

P('P12', 'Additive sharing: the shares sum to the secret',
  'Additive shares of a secret sum to it for every number of parties, all but one of them are the generator\'s output, reconstruction is their sum, and sharing is linear. Asking for zero shares is rejected.',
  ['inputs', 'configurations'], 'all secrets, party counts, generator states, both rings', 'Tests try one count and one secret.', [I + 'ss/additive.h', I + 'math/vec.h'], [('share creation', 'additive.h CreateAdditiveShares'), ('reconstruction', 'additive.h ReconstructAdditive')], 'c12_additive', groups=['additive'])

P('P11', 'Interpolation reproduces the unique polynomial through the points',
  'A polynomial given by evaluations at distinct points evaluates, at every point including the defining ones, to the value of the unique polynomial of that degree; adding and subtracting two such polynomials over the same points is pointwise. Ill-formed or repeated points are rejected when constructed with checks.',
  ['inputs'], 'all sets of distinct points, values and evaluation points', 'Tests interpolate a few polynomials at a few points.', [I + 'ss/evpoly.h'], [('Lagrange evaluation', 'EvPolynomial::Evaluate'), ('construction', 'EvPolynomial constructors')], 'c11_evpoly', groups=['evpoly'])

P('P10', 'Polynomial arithmetic is exact and canonical',
  'Polynomials have no leading zero coefficient, evaluate to the value of their coefficient expression, and addition, subtraction, multiplication agree with evaluation at every point. Division returns quotient and remainder with a = q*b + r and the remainder\'s degree below the divisor\'s, and division by zero is rejected.',
  ['inputs'], 'all coefficient vectors', 'Tests fix a few coefficient vectors; cancellation of leading terms, zero polynomials and degree-0 divisors are corner cases.', [I + 'ss/poly.h'], [('arithmetic', 'Polynomial::Add, Subtract, Multiply, Divide'), ('canonical form', 'Polynomial::Create')], 'c10_poly', groups=['poly', 'polydiv'])

P('P09', 'Linear systems are solved correctly and classified by rank',
  'Row reduction returns the reduced row echelon form of the matrix; a system is reported to have a unique solution, or a solution, exactly when it mathematically does, and a returned solution of a uniquely solvable system satisfies every equation. Matrix inversion returns the inverse for invertible matrices and rejects the others, and size mismatches are rejected.',
  ['inputs'], 'all matrices of all shapes over the field', 'Tests solve a few square systems; rank-deficient, wide and tall systems with leading zeros are not enumerated.', [I + 'math/la.h', I + 'math/mat.h'], [('elimination', 'la.h RowReduceInPlace'), ('classification', 'la.h HasSolution, SolveLinearSystem')], 'c09_la', groups=['la'])

P('P01', 'Finite field operations are exact modular arithmetic',
  'For all operands, addition, subtraction, negation, multiplication, inversion, division and equality in both prime fields equal arithmetic modulo the prime on the represented values, and results are always in canonical range. Inverting or dividing by zero is rejected.',
  ['inputs'], 'all pairs of field elements of both fields', 'Tests sample a few values; carries and boundary values near the modulus or half words are not hit.', [I + 'math/ff.h', I + 'math/fields/details.h', S + 'math/fields/mersenne61.cc', S + 'math/fields/mersenne127.cc', I + 'math/ring.h'], [('Mersenne reduction', 'mersenne61.cc, mersenne127.cc FieldAdd, FieldMultiply, FieldInvert')], 'c01_field', groups=['field'])

P('P02', 'Field encodings are canonical and round-trip',
  'Writing a field element and reading it back gives the same element, and reading any string of bytes, integer or hexadecimal string gives the represented value reduced modulo the prime. The encoded size equals the advertised size, nothing outside it is touched, printing and parsing round-trip, and malformed strings are rejected.',
  ['inputs'], 'all byte strings, integers and strings', 'Tests round-trip single values.', [I + 'math/ff.h', S + 'math/fields/mersenne61.cc', S + 'math/fields/mersenne127.cc', I + 'math/str.h', S + 'math/str.cc'], [('reading with reduction', 'FieldFromBytes, FieldFromString'), ('writing', 'FieldToBytes, ToString')], 'c02_encode', groups=['fieldenc'])

P('P03', 'Z2k is exact arithmetic modulo 2^k for every width',
  'For every width from 1 to 128 bits, addition, subtraction, negation, multiplication, inversion of odd elements, equality and encoding agree with integers modulo 2^k, and elements never show bits above k. Even elements have no inverse and inverting one is rejected; encodings use the smallest whole number of bytes.',
  ['inputs', 'configurations'], 'all widths and operands', 'Tests instantiate a few widths; widths 64 and 128 and non-byte widths are boundary cases for masks and shifts.', [I + 'math/z2k.h', I + 'math/z2k/details.h'], [('masking and encoding', 'z2k.h; z2k/details.h')], 'c03_z2k', groups=['z2k'])

P('P04', 'The hash is SHA3 of the concatenated input for every chunking',
  'The digest is the standard SHA3 of the right output size over the concatenation of everything absorbed, for every message length and however the message is split over calls.',
  ['inputs', 'histories'], 'all messages, all chunkings and digest sizes 256, 384, 512', 'Tests use a few fixed vectors whose lengths do not exercise every alignment and block boundary.', [I + 'hash.h', S + 'hash.cc'], [('sponge', 'hash.h Update, Finalize; hash.cc Keccakf')], 'c04_hash', groups=['hash'])

P('P05', 'The generator outputs the AES-CTR stream of its seed, however consumed',
  'The pseudo-random generator outputs AES-128 in counter mode under its (zero-padded) seed: equal seeds and equal consumption histories yield equal output, output consists of whole fresh blocks per request which never repeat, and resetting restarts the stream. The seed is reported unchanged.',
  ['inputs', 'histories'], 'all seeds, all sequences of request sizes', 'Tests compare two instances; lengths that are not multiples of the block size and long histories are rarely used.', [I + 'prg.h', S + 'prg.cc'], [('key schedule and counter', 'prg.cc')], 'c05_prg', groups=['prg'])

P('P06', 'Vector operations are the component-wise operations',
  'Addition, subtraction, entry-wise and scalar multiplication, sums, dot products, equality, sub-vectors and matrix views of vectors are exactly the component-wise mathematical ones for every length including zero. In-place variants change only the receiver, and mismatched lengths are rejected.',
  ['inputs'], 'all lengths and entries', 'Tests use length-3 vectors.', [I + 'math/vec.h'], [('vector operations', 'vec.h')], 'c06_vec', groups=['vec'])

P('P07', 'Matrix operations are the mathematical ones for every shape',
  'Matrix sums, differences, entry-wise, scalar and matrix products, transposes, identities, equality and element access are the mathematical ones for every shape; in-place variants agree with the value-returning ones. Incompatible shapes are rejected.',
  ['inputs'], 'all shapes and entries', 'Tests use 2x2 and 3x2 matrices; row-major index errors vanish on square shapes.', [I + 'math/mat.h'], [('matrix operations', 'mat.h')], 'c07_mat', groups=['mat'])

P('P08', 'Vector and matrix serialization round-trips byte-exactly',
  'Writing a vector or matrix produces exactly the advertised number of bytes and reading them back yields the same object; all elements are laid out consecutively in order; random vectors and matrices read their entries from the generator in order.',
  ['inputs'], 'all sizes and entries', 'Tests round-trip one size.', [I + 'math/vec.h', I + 'math/mat.h'], [('serialization', 'Vec::Write/Read, Mat::Write/Read')], 'c08_serial', groups=['serial', 'fieldenc'])

P('P15', 'Typed messages arrive intact or are rejected for size',
  'A value, vector, byte vector or matrix sent over a channel is received equal in type, shape and content, consuming exactly the bytes that were sent. Received vectors or matrices larger than the configured limit are rejected before anything of their claimed size is allocated, for every claimed size including those that overflow products.',
  ['inputs', 'histories'], 'all messages and all claimed sizes on the wire', 'Tests send a few small messages; hostile lengths and boundary sizes are not tried.', [I + 'net/channel.h'], [('length-prefixed messages and limits', 'channel.h Send/Recv overloads')], 'c15_message', groups=['message'])

P('P16', 'In-memory channels deliver each direction as a lossless FIFO byte stream',
  'Between paired in-memory channels, bytes are received in the order sent in each direction, with nothing lost, duplicated or crossing over, however sends and receives are split, and a receive waits for the missing bytes. A loop-back channel delivers to itself.',
  ['histories', 'schedules'], 'all interleavings and splittings of sends and receives', 'Tests send one message and read it back; partial reads across chunk boundaries are not covered.', [I + 'net/mem_channel.h', S + 'net/mem_channel.cc', I + 'net/shared_deque.h'], [('left-over buffer', 'mem_channel.cc'), ('blocking deque', 'shared_deque.h')], 'c16_memchannel', groups=['memchan'])

P('P17', 'TCP channels deliver the exact byte stream under partial transfers',
  'However the operating system splits reads and writes, a send transfers exactly the given bytes in order and a receive returns exactly the requested bytes in order; failing system calls are reported as errors. Queued sends are transmitted in the order issued.',
  ['fault_sequences', 'schedules', 'histories'], 'all sequences of partial transfers and errors', 'Loopback tests transfer small messages in one system call.', [S + 'net/tcp_channel.cc', S + 'net/tcp_utils.cc', S + 'net/threaded_sender.cc', I + 'net/threaded_sender.h'], [('offset loops', 'tcp_channel.cc Send, Recv')], 'c17_tcpchannel', groups=['tcp'])

P('P18', 'Network set-up connects every pair of parties to each other',
  'After network creation, the i-th channel of a party leads to party i for every number of parties: what i sends on its channel to j arrives at j on its channel for i and nowhere else, and a party\'s own channel loops back. Mock and in-memory networks have the same shape.',
  ['configurations', 'schedules'], 'all party counts, all pairs', 'Tests use three parties.', [S + 'net/network.cc', I + 'net/network.h'], [('connection set-up', 'network.cc')], 'c18_network', groups=['network'])

P('P19', 'Network configurations are parsed as written or rejected',
  'Loading a configuration yields exactly the parties of the file with their ids, hostnames and ports, and the own id given; malformed files, ids outside the range, and missing entries are rejected. Looking up a party returns the one with that id.',
  ['inputs', 'configurations'], 'all configuration files', 'Tests load a few files listing parties in order.', [S + 'net/config.cc', I + 'net/config.h'], [('parsing and validation', 'config.cc')], 'c19_config', groups=['config'])

P('P20', 'Discovery gives all parties the same consistent configuration',
  'After discovery, all parties hold configurations with the same parties, every id from 0 to n-1 exactly once, each with the port that party announced, in whatever order they connect. Inconsistent or out-of-range announcements are rejected by server and clients.',
  ['schedules', 'configurations', 'fault_sequences'], 'all connection orders and announcements', 'Tests connect parties in id order.', [S + 'net/discovery/server.cc', S + 'net/discovery/client.cc', I + 'net/discovery/server.h', I + 'net/discovery/client.h'], [('collection and redistribution', 'server.cc, client.cc')], 'c20_discovery')

ASSUME = ['operator new does not fail; std::vector/shared_ptr/string/iostream behave as the C++ standard says',
          'the functions are compiled for x86-64 with -DNDEBUG semantics; SCL_DEBUG-only checks are out of scope',
          'functions the verifier does not reach are covered by the labelled bounded stand-in only']

COMMON = ' Trusted: clang front end, vcg, z3, the assumed library contracts listed in the evidence. Sizes up to 2^30. The harness is a bounded stand-in and replays failures; it is never counted as proved.'
NOTES = {
    'P01': ('proof', 'Every operation of both prime fields at bit level, for all operands.'),
    'P02': ('other', 'Byte encodings proved at bit level for all byte strings; hex strings and printing (iostream) are covered by the bounded stand-in only.'),
    'P03': ('proof', 'Every operation at bit level, for every width 1..128 and all operands.'),
    'P04': ('proof', 'Keccak-f, absorb, pad and squeeze against FIPS 202 for every input length, alignment and digest size.'),
    'P05': ('proof', 'Key schedule, counter blocks, requests and reset for every seed and history; the AES round function itself is uninterpreted (shared by code and specification).'),
    'P06': ('proof', 'Every vector operation for every length, as a ring statement over the field operations of P01.'),
    'P07': ('proof', 'Every matrix operation for every shape, as a ring statement over the field operations of P01.'),
    'P08': ('proof', 'Element layout and round trips for every size, over the element encodings.'),
    'P09': ('other', 'Row operations, augmentation, pivot search and the solvability test on a reduced matrix are proved for every shape; the elimination loop itself and back substitution are covered by the bounded stand-in (labelled), so the property as a whole is not proved.'),
    'P10': ('proof', 'Evaluation, canonical form and arithmetic for every coefficient vector; long division by a loop invariant and a variant (quotient, remainder, degree, termination) over the evaluation at an arbitrary point.'),
    'P11': ('proof', 'Lagrange form for every number of points; that this is the value of the unique interpolating polynomial is a Lean lemma over the formula of the contract.'),
    'P12': ('proof', 'For every number of parties; that the shares add up to the secret is a Lean lemma over the formulas of the contracts.'),
    'P13': ('other', 'Sharing, passive reconstruction and error detection proved for all n, t, with the round trip and the detection equivalence as Lean lemmas over the formulas of the contracts; error correction is covered by the bounded stand-in.'),
    'P14': ('proof', 'For every number of secrets, degree and number of shares; the round trip is a Lean lemma over the formulas of the contracts.'),
    'P15': ('proof', 'Every message kind and every claimed size, over an abstract byte channel.'),
    'P16': ('proof', 'Every chunking and state of the two queues; blocking is the assumed contract of the condition variable.'),
    'P17': ('proof', 'Every sequence of partial transfers and errors; the queue of the threaded sender is covered by the bounded stand-in.'),
    'P18': ('other', 'Mock and in-memory networks proved for every number of parties (which queues every channel end uses); set-up over sockets and threads is covered by the bounded stand-in.'),
    'P19': ('other', 'Validation, look-up, construction and the local configuration proved for every list of parties; parsing a file rests on iostream/stoi, whose contracts would be assumed wholesale, and is covered by the bounded stand-in (enumerated files and corruptions).'),
    'P20': ('other', 'Processes over sockets: bounded stand-in, enumerated orders and corrupted announcements.'),
    'P21': ('proof', 'Every building step and metric under the class invariants, for all widths and batch sizes; circuits generated from a size and depth are covered by the bounded stand-in.'),
    'P22': ('proof', 'Every gate kind, layer and the circuit level functions; that the clear value of every gate of every circuit is the value of its polynomial is a Lean lemma (induction over the order of construction) over the formulas of the contracts.'),
    'P23': ('proof', 'Every online step for every batch and circuit; one batch and the induction over the wires are Lean lemmas over the formulas of the contracts; the order of messages across batches is on paper and exercised by the stand-in.'),
    'P24': ('proof', 'Every generation step for all amounts, n, t and k: messages, extraction and mapping.'),
    'P25': ('proof', 'Every function-dependent and online step; preparation and online phase of a batch and the induction over the wires are Lean lemmas over the formulas of the contracts; the order of messages across batches is on paper and exercised by the stand-in.'),
    'P26': ('proof', 'Every hand-out and every placement of extracted randomness; over their contracts, for every history of hand-outs, that no two batches hold sharings extracted at the same place (Lean).'),
    'P27': ('proof', 'Every protocol step of the baseline except FDMultPartiesSendP1 (DESIGN.md 3.1), which is covered by the bounded stand-in; Lean: every wire is a degree-t sharing of its clear value and owners learn theirs.'),
    'P28': ('proof', 'The two validating functions for all n, t, k.'),
}
for _k, (_l, _n) in NOTES.items():
    PROPS[_k]['level'] = _l
    PROPS[_k]['note'] = _n + COMMON
    PROPS[_k]['technique'] = ('contract-based deductive verification: function contracts on the code extracted from /repo, discharged by vcg + z3; bounded stand-in where labelled'
                              if PROPS[_k]['contracts'] else 'bounded stand-in for functions no contract within reach decides (see DESIGN.md 3.1)')
PROPS['P23']['assume'] = PROPS['P25']['assume'] = ['distinct gates, batches and channels do not alias; gate observables are stable between virtual calls',
                                                   "a circuit's objects share network, id, party count and batch size (class invariant)",
                                                   'evaluation points 1..n and 0, -1, .. are distinct modulo p']
PROPS['P21']['assume'] = PROPS['P22']['assume'] = PROPS['P27']['assume'] = PROPS['P23']['assume'][:2]
PROPS['P27']['assume'] = PROPS['P27']['assume'] + ['the gates in the input, product and output lists of a circuit are distinct objects (ghost functions give the place of each)']
PROPS['P24']['assume'] = PROPS['P14']['assume'] = PROPS['P13']['assume'] = PROPS['P23']['assume'][2:]
PROPS['P05']['trusted'] = ["Intel's definition of the AES-NI instructions"]
