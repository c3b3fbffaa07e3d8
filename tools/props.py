#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json.

Run:  python3 tools/props.py     (rewrites both files; output is deterministic)
"""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None,
         na=None, note=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, state=state, hook=hook, na=na, note=note,
                  technique=technique))


CON = 'src/CTL/tensor/contract/'

prop('C01', 'Concurrent non-in-place contractions of shared tensors equal serial ones',
     'Threads that contract, copy, or plan contraction orders for overlapping sets of the same linked tensors '
     'with the non-in-place interface each obtain the result they would obtain alone, whatever the interleaving. '
     'When they have finished, the shared tensors hold the same data, labels and links as before.',
     ['schedules', 'inputs'],
     'every interleaving (thread switch before any executed line or backend call) of up to four client threads, each '
     'issuing several non-in-place calls on overlapping subsets of one linked network',
     'The tests never start a thread; shared tensors, their legs and their bonds are read and, when a shared bond is '
     'looked up, written by every contraction, so only a scheduler that owns thread switches can reach the bad windows.',
     [CON + 'optimalContract.py', CON + 'contract.py', CON + 'tensorGraph.py', 'src/CTL/tensor/tensor.py'],
     [dict(name='private linked copy made before any mutation', where=CON + 'optimalContract.py:copyTensorList'),
      dict(name='per-call planner state', where=CON + 'tensorGraph.py:optimalContractSequence')],
     ['return values of contractTensorList/contractWithSequence/generate*Sequence', 'data, labels and links of the shared tensors'])

prop('C02', 'A finite tensor network shared by threads answers every caller correctly',
     'When several threads call contract on one finite tensor network with their own tensors or with tensors that other callers pass as well, of the same or different '
     'dimensions and mixes of dense and diagonal tensors, every call returns the value and labels of its own inputs, whatever '
     'the interleaving. No call raises, and later calls on the network remain correct.',
     ['schedules', 'histories', 'inputs'],
     'every interleaving of up to four threads issuing contract calls on one network object (dims, diagonality and '
     'real-cost/typical-dimension mode chosen per run), followed by serial calls',
     'The network caches the plan and the dimensions it was made for between calls; no test shares a network between threads.',
     ['src/CTL/tensornetwork/tensornetwork.py', CON + 'contractExp.py'],
     [dict(name='inputs copied per call', where='src/CTL/tensornetwork/tensornetwork.py:contract')],
     ['value and labels returned to each caller'],
     state=[dict(name='plan cache', meaning='sequence and bond dimensions kept between calls', where='src/CTL/tensornetwork/tensornetwork.py')])

prop('C03', 'Independent objects do not influence each other',
     'Clients that each build and use their own tensors, finite tensor networks, MPSs and renormalisation drivers obtain '
     'the results they would obtain alone in a fresh process, whatever the interleaving of the clients\' steps, including steps '
     'that fail. Lists, dictionaries and arrays a client passes in are not changed behind its back.',
     ['schedules', 'histories', 'fault_sequences'],
     'every interleaving (between calls, and pre-emptively inside calls) of up to three clients running random scripts over '
     'the public objects, with backend failures injected into some of the calls',
     'Tests use one object at a time in one order; module-level or default-argument state only shows when the histories of '
     'unrelated objects interleave.',
     ['src/CTL/tensornetwork/tensornetwork.py', 'src/CTL/tensornetwork/tensordict.py', 'src/CTL/tensor/tensor.py',
      'src/CTL/examples/HOTRG.py', 'src/CTL/examples/CTMRG.py', 'src/CTL/examples/MPS.py', CON + 'contractExp.py'],
     [dict(name='state kept in instances', where='all constructors')],
     ['results per client versus a solo run', 'caller-supplied lists and arrays'])

prop('C04', 'Non-in-place operations leave inputs intact when they fail at any instant',
     'A non-in-place contraction, network contraction, copy, decomposition, matrix view, trace, norm or order search that is '
     'stopped at any instant by a failing backend call, an interrupt, or a warning turned into an error leaves its input '
     'tensors, their links, the network description and the caller\'s containers as they were. Calling it again without the '
     'fault returns the correct result.',
     ['crash_points', 'fault_sequences', 'inputs'],
     'every backend call and every executed line of the operation as the instant of failure, repeated failures, on random '
     'networks of dense and diagonal tensors',
     'No test makes a backend call fail or interrupts an operation.',
     [CON + 'optimalContract.py', 'src/CTL/tensornetwork/tensornetwork.py', 'src/CTL/tensor/tensor.py',
      'src/CTL/tensor/tensorFunc.py', CON + 'contractExp.py'],
     [dict(name='work on linked copies', where=CON + 'optimalContract.py:copyTensorList'),
      dict(name='inputs copied per call', where='src/CTL/tensornetwork/tensornetwork.py:contract')],
     ['data, labels, links of inputs before and after', 'result of the retried call'])

prop('C05', 'A failed or rejected in-place tensor operation changes nothing observable',
     'If reordering, combining, renaming, tagging, summing out legs, merging links or contracting a pair of tensors is '
     'rejected for bad arguments or stopped by a failing backend call, the tensors still represent the same network value with '
     'the same free labels, leg dimensions agree with the data, and both ends of every link agree. The same operation retried '
     'with good arguments and no fault has its normal effect.',
     ['crash_points', 'fault_sequences', 'histories', 'inputs'],
     'random histories of in-place operations on a linked network, each with valid or invalid arguments and a possible '
     'failure at any of its backend calls',
     'Tests check at most that a bad call raises, never the state of the tensors after it, and inject no backend failure.',
     ['src/CTL/tensor/tensor.py', 'src/CTL/tensor/diagonalTensor.py', CON + 'link.py', CON + 'contract.py'],
     [dict(name='legs exchanged after data is computed', where='src/CTL/tensor/tensor.py')],
     ['network value by free labels', 'shape/leg/bond consistency'])

prop('C06', 'The value of a network does not depend on the order or schedule of contraction',
     'Contracting a network pairwise in any order, by one worker or by several workers contracting disjoint pairs '
     'concurrently, with leg reordering, renaming of links and merging of links interleaved and failed steps retried, yields '
     'the Einstein-summation value of the original tensors with the same free legs. After every step, leg dimensions agree with '
     'the data and both ends of every link agree.',
     ['schedules', 'inputs', 'fault_sequences'],
     'every order of pairwise contraction (including outer products) and every interleaving of concurrent workers over random '
     'connected and disconnected networks of dense and diagonal, real and complex tensors',
     'Tests contract a few fixed networks in one order each.',
     [CON + 'contract.py', CON + 'link.py', 'src/CTL/tensor/tensor.py', 'src/CTL/tensor/diagonalTensor.py',
      CON + 'optimalContract.py'],
     [dict(name='bonds identify contracted axes', where=CON + 'contract.py:shareBonds/contractTwoTensors')],
     ['final and intermediate tensors'])

prop('C07', 'A reused finite tensor network behaves like a freshly built one',
     'Whatever calls were made on a finite tensor network before (contractions with other dimensions or other dense/diagonal '
     'mixes, failed or rejected calls, unlocking and editing tensors, links, renames and outer products), contracting it '
     'returns the value and labels that a freshly built network with the same description returns. With real costs, it does '
     'not perform more contraction work than the fresh one.',
     ['histories', 'fault_sequences', 'inputs'],
     'random histories of contract, edit and failing calls on one network object, compared after every call with the '
     'Einstein-summation value and with a fresh object',
     'Tests contract each network once or twice with the same shapes; plans cached across edits, dimension changes and '
     'failures are never exercised.',
     ['src/CTL/tensornetwork/tensornetwork.py', 'src/CTL/tensornetwork/tensordict.py', CON + 'contractExp.py'],
     [dict(name='plan recomputed when dimensions change', where='src/CTL/tensornetwork/tensornetwork.py:contract')],
     ['returned value and labels', 'floating-point work requested from the backend'],
     state=[dict(name='plan cache', meaning='sequence kept between calls', where='src/CTL/tensornetwork/tensornetwork.py')])

prop('C08', 'HOTRG trajectories survive failed and interrupted iterations',
     'If an HOTRG iteration or query fails, the recorded norms, errors, directions and archived tensors are those of the '
     'completed iterations only, and iterating again continues the trajectory an undisturbed run produces. While no truncation '
     'occurs the reported partition function equals the exact one of the periodic lattice, and the tensor passed in is not '
     'modified.',
     ['crash_points', 'fault_sequences', 'histories'],
     'every backend call of an iteration as the instant of failure, repeated failures, queries interleaved with iterations, '
     'random positive and Ising tensors, random bond dimensions',
     'Tests run fixed undisturbed trajectories.',
     ['src/CTL/examples/HOTRG.py', CON + 'contractExp.py', 'src/CTL/funcs/linalg.py'],
     [dict(name='state appended at the end of an iteration', where='src/CTL/examples/HOTRG.py:iterate')],
     ['logZDensity, getNorm, pureTensorTrace, recorded directions'])

prop('C09', 'Impurity moments survive failed iterations and match the lattice average',
     'An impurity tensor network driven by HOTRG keeps, after any failed step, the archive of completed steps only, and '
     'repeating the step continues the undisturbed trajectory. While no truncation occurs the measured observables equal the '
     'exact position-averaged moments on the periodic lattice, and the impurity tensors passed in are not modified.',
     ['crash_points', 'fault_sequences', 'histories'],
     'every backend call of an impurity iteration as the instant of failure, any number of repeated failures, random order '
     'of renormalisation iterations, impurity iterations and measurements',
     'Tests run one undisturbed magnetisation calculation.',
     ['src/CTL/examples/impurity.py', 'src/CTL/examples/HOTRG.py'],
     [dict(name='new tensors built before the old are replaced', where='src/CTL/examples/impurity.py:iterate')],
     ['measureObservables'])

prop('C10', 'TRG trajectories survive failed iterations',
     'If an iteration of the square or triangular tensor renormalisation group fails, the recorded state is that of the '
     'completed iterations only, and iterating again continues the trajectory an undisturbed run produces. While no truncation '
     'occurs the reported partition function of the square lattice equals the exact one, and the tensor passed in is not '
     'modified.',
     ['crash_points', 'fault_sequences', 'histories'],
     'every backend call of an iteration as the instant of failure, repeated failures, queries interleaved with iterations',
     'Tests run fixed undisturbed trajectories.',
     ['src/CTL/examples/TRG.py', 'src/CTL/funcs/decompose.py', CON + 'contractExp.py'],
     [dict(name='state appended at the end of an iteration', where='src/CTL/examples/TRG.py:iterate')],
     ['logZDensity, recorded errors'])

prop('C11', 'CTMRG partition functions do not depend on the history of queries and failures',
     'The partition function CTMRG reports for a lattice size is the same whatever sizes were queried before, in which order, '
     'how many extra iterations were made, and which of those calls failed part-way. While no truncation occurs it equals the '
     'exact value of the open lattice.',
     ['histories', 'crash_points', 'fault_sequences'],
     'random histories of queries and iterations, with failures at any backend call, on tensors that are symmetric under '
     'reflection, random bond dimensions',
     'Tests query sizes once each in one order without failures.',
     ['src/CTL/examples/CTMRG.py', 'src/CTL/tensor/tensorFunc.py', CON + 'contractExp.py'],
     [dict(name='records of earlier steps', where='src/CTL/examples/CTMRG.py:getZ')],
     ['getZ'])

prop('C12', 'MPS operations preserve the represented state and canonical form',
     'Without truncation, canonicalising, swapping and moving tensors, making tensors adjacent, merging and contracting MPSs '
     'preserve the represented state as a function of the physical legs, and with truncation no bond exceeds the bound. After '
     'canonicalisation all tensors but the chosen one are isometries. A call that is rejected or fails in the backend leaves the '
     'MPS usable and representing the same state.',
     ['histories', 'crash_points', 'fault_sequences', 'inputs'],
     'random histories of operations on one or two linked MPSs with failures at any backend call and rejected arguments',
     'Tests apply single operations or short fixed sequences without failures.',
     ['src/CTL/examples/MPS.py', 'src/CTL/examples/Schimdt.py', CON + 'contract.py'],
     [dict(name='Schmidt decomposition followed by relinking', where='src/CTL/examples/Schimdt.py'),
      dict(name='legs kept on the tensors they move with', where='src/CTL/examples/MPS.py')],
     ['state vector by physical leg', 'isometry of tensors', 'bond dimensions'])

prop('C13', 'Contracting a network through MPSs is repeatable and exact without truncation',
     'Contracting a linked network through MPSs returns, when the bond bound truncates nothing, the Einstein-summation value for '
     'any order that contracts linked tensors. The input tensors keep their data, labels and links, so the same list can be contracted again, '
     'also after a failed call.',
     ['histories', 'crash_points', 'inputs'],
     'random connected networks, any valid order, repeated calls mixed with ordinary contractions of the same list, failures at '
     'any backend call',
     'Tests call it once, last, on fixed networks.',
     ['src/CTL/examples/MPS.py', 'src/CTL/examples/Schimdt.py'],
     [dict(name='bonds merged after each contraction', where='src/CTL/examples/MPS.py:contractWithMPS')],
     ['returned value', 'input tensors'])

prop('C14', 'Results are reproducible across hash seeds, object addresses and allocation',
     'Running the same program on the same inputs gives the same contraction orders, label orders, truncations and values '
     'whatever the interpreter\'s string-hash seed and wherever objects happen to be allocated.',
     ['schedules', 'configurations', 'inputs'],
     'random programs over the public interface, each run under several string-hash seeds in fresh interpreters and several '
     'perturbations of object hashes',
     'Tests run under one hash layout and check values with tolerances, never orders.',
     [CON + 'tensorGraph.py', CON + 'contract.py', CON + 'optimalContract.py', 'src/CTL/funcs/funcs.py', 'src/CTL/funcs/graph.py',
      'src/CTL/examples/MPS.py'],
     [dict(name='ordered containers on every path to a result', where=CON + 'tensorGraph.py, src/CTL/funcs/funcs.py')],
     ['sequences, label orders, shapes, values'])

prop('C15', 'All numerical work goes to the selected backend, which may be a device',
     'After a numeric backend is selected, every array is created and every operation is performed by it, through any history of '
     'backend switches and of backend failures; none is sent to a previously selected backend, and none relies on device data being '
     'implicitly readable by the host. Results agree with those of the default backend.',
     ['histories', 'configurations', 'fault_sequences'],
     'random histories of switches between simulated host and device backends with random workloads and failures under each',
     'The only test for a second backend needs real hardware and is skipped otherwise.',
     ['src/CTL/__init__.py', 'src/CTL/funcs/xplib.py', 'src/CTL/tensor/tensor.py', 'src/CTL/funcs/funcs.py',
      'src/CTL/funcs/linalg.py', 'src/CTL/funcs/decompose.py'],
     [dict(name='late-bound backend module', where='src/CTL/funcs/xplib.py')],
     ['calls received by each backend', 'type of the arrays in results', 'values'])

prop('C16', 'Copies, views and archives are isolated snapshots',
     'A copy of a tensor, a linked copy of a list of tensors, a matrix or vector made from a tensor, the result of a contraction and '
     'the tensors kept in a driver\'s archive do not change when the original or any other object is later modified in place, and '
     'modifying them does not change the original. Taken again after a modification, they show the tensors as they are then. The array, lists and dictionaries an object was built from are never shared with it.',
     ['histories', 'schedules'],
     'random interleavings of clients taking snapshots of shared tensors and clients modifying tensors in place, with failed '
     'modifications in between',
     'Tests look at copies right after making them.',
     ['src/CTL/tensor/tensor.py', 'src/CTL/tensor/diagonalTensor.py', CON + 'optimalContract.py', 'src/CTL/examples/HOTRG.py',
      'src/CTL/examples/TRG.py', 'src/CTL/examples/CTMRG.py'],
     [dict(name='data copied at construction', where='src/CTL/tensor/tensor.py:generateData')],
     ['data, labels and links of every live object'])

prop('C17', 'Generated names stay unique and generation terminates under any random source',
     'A set of names never hands out, or accepts, a name that is currently in it, whatever the random source returns, names have '
     'the configured length, and generation returns once the source produces an unused name. Membership always equals names handed out or added minus '
     'names removed, also after rejected calls.',
     ['histories', 'fault_sequences'],
     'random histories of new, add, remove and membership calls with an adversarial random source that repeats earlier draws',
     'Nothing in the tests uses the name sets with collisions or removals.',
     ['src/CTL/funcs/stringSet.py', 'src/CTL/funcs/funcs.py'],
     [dict(name='redraw until unused', where='src/CTL/funcs/stringSet.py:newString')],
     ['returned names', 'membership'])

prop('C18', 'Loading a data file returns exactly its contents or raises',
     'Loading a text matrix returns an array with exactly the numbers of the file in their rows and columns, or raises; under read errors, '
     'interrupted or short reads and malformed content it never returns partial or altered data, and the file is closed afterwards '
     'in either case. Loading again after a transient error succeeds.',
     ['fault_sequences', 'crash_points', 'inputs'],
     'random matrices, chunkings of the reads, and read errors at any offset of the file',
     'No test loads a file.',
     ['src/CTL/funcs/funcs.py'],
     [dict(name='whole-file parse', where='src/CTL/funcs/funcs.py:loadData')],
     ['returned array', 'open file handles'])

prop('C19', 'Graphs answer for their current edges and plan optimal orders',
     'Whatever edges were added and queries made, rejected or stopped by failures before, a graph lists each of its edges exactly once, and a tensor graph '
     'plans contraction orders and costs, and an Ising network or partition function is built, as for a graph freshly made with the same edges. '
     'Without diagonal tensors the exhaustive and the pruned search give orders of minimal total cost, the greedy search a valid order whose reported cost is its own, '
     'and lattices have exactly the edges of their geometry.',
     ['histories', 'fault_sequences', 'inputs'],
     'random histories of adding edges between vertices, open edges, rejected edges and queries of all kinds on the same graph, with failures inside queries',
     'Tests build a graph, ask one question and drop it; orders are compared on a few fixed networks.',
     ['src/CTL/funcs/graph.py', CON + 'tensorGraph.py', 'src/CTL/funcs/graphFuncs.py', 'src/CTL/models/Ising.py'],
     [dict(name='edge list rebuilt after a change', where='src/CTL/funcs/graph.py:UndirectedGraph.getEdges'),
      dict(name='search restarted for the current edges', where=CON + 'tensorGraph.py:optimalContractSequence')],
     ['getEdges', 'degrees', 'orders and costs', 'Ising tensors and partition functions of the graph'])

prop('C20', 'Creating tensors is all or nothing',
     'A dense, diagonal or shape-only tensor is created exactly when the given shape, labels, legs and data are consistent, and then it has them: its data agree with its legs, '
     'all its legs belong to it, and the data are its own copy. A rejected creation, or one stopped by a failing backend call, leaves the legs it was given with their former '
     'tensors, names, dimensions and links, and the given arrays and lists unchanged, and the same call repeated without the failure succeeds, through any history of creations '
     'that pass legs on from tensor to tensor.',
     ['histories', 'fault_sequences', 'inputs'],
     'random histories of creations in a linked network that take legs over from live tensors, with contradictory arguments and backend failures',
     'The tests create tensors from a few consistent argument combinations, and never look at the legs after a rejected one.',
     ['src/CTL/tensor/tensor.py', 'src/CTL/tensor/diagonalTensor.py', 'src/CTL/tensor/tensorFactory.py', 'src/CTL/tensor/leg.py'],
     [dict(name='everything deduced and checked before legs are taken over', where='src/CTL/tensor/tensor.py:deduction')],
     ['owner, name, dimension and links of every leg given', 'shape, labels and data of the created tensor'])

prop('C21', 'Shape-only tensors follow real computations through any history',
     'A network of shape-only tensors put through any history of contractions, reordering, renaming, grouping and summing of legs, linking, copying and rejected calls has the '
     'same labels, dimensions, links and diagonal flags as the real network put through the same history with failures and repetitions, holds no data, makes no numerical call, and accepts '
     'exactly the calls the real one accepts (data access excepted).',
     ['histories', 'fault_sequences', 'inputs'],
     'random histories applied to a real network (with injected failures, retried) and to its shape-only twin in lockstep',
     'The few tests of shape-only tensors contract one fixed network.',
     ['src/CTL/tensor/tensor.py', 'src/CTL/tensor/diagonalTensor.py', CON + 'contract.py', CON + 'link.py', CON + 'optimalContract.py', 'src/CTL/examples/Schimdt.py'],
     [dict(name='shape bookkeeping on legs', where='src/CTL/tensor/leg.py'), dict(name='shape-only branches', where=CON + 'contract.py:contractTwoTensors')],
     ['labels, dimensions and links of both networks after every step', 'numerical calls made for the shape-only one'])

prop('C23', 'Decompositions truncate optimally and report their error, also after failures',
     'At every step of a history of decompositions, truncations and recombinations, and when repeated after one stopped by a failing backend call: the factors of a matrix or tensor '
     'are isometries with the largest singular values (or share them evenly), at most the requested number of them, and nothing discarded that fits; their product is a best approximation of that rank; '
     'the reported error is the discarded weight; the projector of a positive environment has orthonormal columns that span its leading eigenvectors above the threshold; isometries are recognised as such; '
     'and what was decomposed is unchanged.',
     ['histories', 'fault_sequences', 'inputs'],
     'random histories on matrices of given spectra (degenerate, rank-deficient, zero, steep, of any scale), tensors of linked networks, environments and the bonds of a chain',
     'The tests decompose a few random matrices without truncation.',
     ['src/CTL/funcs/decompose.py', 'src/CTL/funcs/linalg.py', 'src/CTL/tensor/tensorFunc.py', 'src/CTL/tensor/tensor.py'],
     [dict(name='truncation and its error', where='src/CTL/funcs/decompose.py:SVDDecomposition'), dict(name='projector', where='src/CTL/funcs/linalg.py:solveEnv')],
     ['factors and errors against singular values of the same matrix', 'value of the whole chain after each truncation', 'inputs before and after'])

prop('C28', 'The modules can be imported in any order and after failed imports',
     'Every module of the package can be imported first, or after any others, also after imports that failed because a file could not be read '
     '(or were interrupted then) and were repeated; afterwards the modules work together: tensors, diagonal tensors and networks made through them '
     'contract with each other, and every class exists once.',
     ['schedules', 'fault_sequences'],
     'random orders of importing the modules into a process without them, with read errors, exhausted memory and interrupts while a file is read',
     'One test process has one import order, in which the modules that import each other happen to come right.',
     [CON + 'contract.py', 'src/CTL/tensor/tensor.py', 'src/CTL/tensor/diagonalTensor.py'],
     [dict(name='modules that import each other at their ends', where=CON + 'contract.py')],
     ['outcome of imports', 'classes in the loaded modules', 'values contracted through them'])

NA = [
 ('C22', 'Lattice models produce the exact Boltzmann weights',
  'The Ising tensors contracted on a lattice give the partition function of the stated Hamiltonian for every coupling, weight and field, and exact formulas agree with it.',
  ['src/CTL/models/Ising.py'], 'inputs',
  'Pure function of the couplings; the drivers that iterate on these tensors are covered by C08 to C11.'),
 ('C24', 'Renormalised free energies converge to the thermodynamic limit',
  'The free energy density from the renormalisation drivers approaches the exact infinite-lattice value as bond dimension and iterations grow.',
  ['src/CTL/examples/HOTRG.py', 'src/CTL/examples/TRG.py', 'src/CTL/examples/CTMRG.py'], 'configurations',
  'Accuracy of a deterministic numerical method in a limit, not behaviour under schedules or faults; the untruncated regime is checked exactly in C08 to C11.'),
 ('C25', 'The text notation for networks is parsed faithfully',
  'A network written in the compact text notation becomes the graph with the stated tensors, legs, sizes and links, and malformed text is rejected.',
  ['src/CTL/tensor/contract/tensorGraph.py'], 'inputs',
  'Pure function of a string.'),
 ('C26', 'Helper functions on lists, graphs and arrays compute what they document',
  'List differences, digit expansions, compositions and their multiplicities, graph edges, priority of data types and array predicates equal their mathematical definitions for all inputs.',
  ['src/CTL/funcs/funcs.py', 'src/CTL/funcs/graph.py', 'src/CTL/funcs/graphFuncs.py'], 'inputs',
  'Pure functions of their arguments with no state between calls.'),
 ('C27', 'TNR optimisation preserves the partition function up to the reported errors',
  'One step of tensor network renormalisation returns a coarse tensor whose contraction matches the original up to the reported truncation errors.',
  ['src/CTL/examples/TNR.py'], 'inputs',
  'A single pure numerical routine that calls numpy directly (not through the backend seam) and keeps no state across calls; no schedule or fault is observable between its inputs and outputs.'),
]


def main():
    out = []
    for p in P:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], state=list(p['state']), mechanism=p['mechanism'],
                              observe_at=p['observe'], hook_needed=p['hook']))
        out.append(d)
    for id, title, st, files, over, why in NA:
        out.append(dict(id=id, title=title, statement=st, quantifier=dict(over=[over], text='all ' + over),
                        why_tests_cant='A test samples a few inputs; see MANIFEST not_applicable for why this family does not decide it.',
                        anchors=dict(files=files, state=[], mechanism=[], observe_at=['return values'], hook_needed=None)))
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d in out:
            assert len(d['title']) <= 80, d['title']
            f.write(json.dumps(d) + '\n')
    # manifest
    import importlib.util
    claimed = json.load(open(os.path.join(HERE, 'tools', 'claims.json')))
    man = dict(version=1,
               setup_cmd='bash tools/setup.sh',
               hooks=dict(guard='none', enable='No hook was added to /repo: the backend module seam (setXP), sys.settrace and builtins.open are enough.', source_commits=[]),
               checks=[], not_applicable=[],
               notes='All checks: /opt/venv/bin/python -m ctlsim check <id>; replay: /opt/venv/bin/python -m ctlsim replay <file>. See DESIGN.md.')
    for p in P:
        c = claimed.get(p['id'])
        if c:
            man['checks'].append(dict(property=p['id'],
                                      quick_cmd='bash tools/check.sh %s' % p['id'],
                                      thorough_cmd='VERIF_TIER=thorough bash tools/check.sh %s' % p['id'],
                                      evidence_file='evidence/%s.json' % p['id'],
                                      technique=c['technique'], level='exploration', level_note=c['note']))
        else:
            man['not_applicable'].append(dict(property=p['id'], reason='check not built yet'))
    for id, title, st, files, over, why in NA:
        man['not_applicable'].append(dict(property=id, reason=why))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
