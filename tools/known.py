#!/usr/bin/env python3
"""Writes known-findings.json: repaired defects (with the commit that repaired each) and open findings."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ('contracting over given bonds', 'C06', 'contracting over given bonds raised when the first tensor was dense and the second diagonal, or the bonds were made in the other direction'),
 ('outer product of unlinked', 'C06', 'outer product of two diagonal tensors without common legs was stored as one diagonal tensor (also C01)'),
 ('contraction planning terminates', 'C06', 'order search looped forever on disconnected networks (also C01, C07)'),
 ('do not share their list', 'C03', 'all networks built without names shared one default list; the caller\'s list was edited by addTensor'),
 ('plan from the current tensors only', 'C02', 'two threads mixed order, dimensions and costs of different inputs; plans of earlier tensors were reused after edits and dense/diagonal changes (also C07)'),
 ('moving legs to the front', 'C05', 'moveLegsToFront removed legs before it was rejected or failed'),
 ('a rejected tensor tag', 'C05', 'addTensorTag left some legs tagged when a label was rejected'),
 ('summing out legs is all', 'C05', 'sumOutLegByLabel of a list stopped half way and applied weights to the first leg only'),
 ('failed merging of links', 'C05', 'a failed mergeLink left legs merged on one side, or both sides unlinked'),
 ('scalar diagonal tensors', 'C16', 'a diagonal scalar shared the caller\'s array and could not be copied (also C04)'),
 ('copying with outgoing bonds', 'C16', 'copyTensorList(linkOutgoingBonds) deleted the bond attribute of the original legs (also C04)'),
 ('adding and removing names', 'C17', 'add and remove changed the length of generated names'),
 ("does not share the caller's dict", 'C03', 'setTensor/deleteTensor changed the dict the caller passed in'),
 ('renaming the only link', 'C05', 'mergeLink with a pair of names gave both legs of a single link the pair itself as name'),
 ('symmetric difference of two lists', 'C14', 'listSymmetricDifference returned its elements in an order that depends on the string-hash seed'),
 ('answers for its current edges', 'C19', 'TensorGraph kept edge lists, edge indices and costs of earlier edges: planning after adding an edge raised or used the old ones'),
 ('loading a data file works', 'C18', 'loadData always raised (np.float) and left the file open'),
 ('shape-only tensors: order of legs', 'C21', 'contracting a diagonal with a dense tensor gave another order of legs when shape-only; summing out a leg of a shape-only tensor raised'),
 ('truncate by the scale', 'C05', 'merge/mergeLink with chi dropped every singular value below 1e-10 whatever the scale of the tensors, and left a bond of dimension 0 on which the next planning divided by zero (also C06, C13)'),
 ('diagonalTensor can be imported', 'C28', 'importing CTL.tensor.diagonalTensor before any other tensor module raised ImportError (modules that import each other)'),
 ('renameLabels finds all legs', 'C05', 'renameLabels renamed one leg after the other, so swapping two labels left both as they were'),
 ('keep data that agree with their legs', 'C20', 'diagonal tensors given data of another shape with as many elements held data disagreeing with their legs; shape-only scalars kept data; a shape was ignored next to scalar data'),
 ('only rows or only columns', 'C23', 'tensorSVDDecomposition with rows or cols None (documented) raised'),
 ('truncation error of a zero matrix', 'C23', 'the truncation error of a zero matrix was not a number'),
 ('without eigenvalues above', 'C23', 'the projector of an environment without eigenvalues above the threshold had all columns instead of at most chi'),
 ('keep own copies of the lists', 'C16', 'a tensor kept the list of legs it was given and a network the list of labels of an outer product: a later change of that list by the caller changed the object'),
 ('own copy of the list of diagonal flags', 'C19', 'a tensor graph kept the list of diagonal flags it was given: a later change of that list by the caller changed its plans and costs'),
]
# (property, kind, regular expression for the whole detail, description)
OPEN = [
 ('C03', 'caller-list', r'FreeBoundaryMPS made with inplace = True: operations on the MPS replace the elements of the list of tensors the caller passed in',
  'FreeBoundaryMPS.__init__(inplace = True, the default) keeps the list object of the caller: canonicalize, swap and merges replace its elements (src/CTL/examples/MPS.py:__init__)'),
 ('C08', 'partial-update', r'HOTRG: a failed iterate left the tensor of the next iteration, not normalised',
  'HOTRG.iterate replaces self.a before the norm of the new tensor is known: when computing the norm or dividing by it fails, the unnormalised tensor stays and a repeated iteration starts from it (src/CTL/examples/HOTRG.py:iterate, appendToArchive)'),
 ('C08', 'partial-update', r'HOTRG: a failed iterate left aNorms\+1, the tensor of the next iteration, normalised',
  'HOTRG.iterate records the norm before the archive copy is made: when the copy fails, aNorms is one longer than the archive and the errors, and logZDensity raises or uses the wrong norms (src/CTL/examples/HOTRG.py:appendToArchive)'),
 ('C09', 'partial-update', r'ImpurityTensorNetwork: a failed (initialize|iterate) left impurities divided by the norm(, norms\+1)?',
  'ImpurityTensorNetwork.appendToArchive divides the impurities in place before the archive copies exist: after a failed first step some impurities stay divided (and the norm recorded), and the repeated step divides them again (src/CTL/examples/impurity.py:appendToArchive)'),
 ('C09', 'partial-update', r'ImpurityTensorNetwork: a failed iterate left iterateIdx\+1, (norms\+1, )?the impurities of the next step',
  'ImpurityTensorNetwork.iterate counts the step and replaces the impurities before they are normalised and archived: after a failure there the repeated call skips one step (src/CTL/examples/impurity.py:iterate)'),
 ('C10', 'constructor', r"SquareTRG\(a, b\) raises AttributeError\('SquareTRG' object has no attribute 'aNorms'\) in examples/TRG.py:normalizeTensors",
  'SquareTRG(a, b) with two tensors always raises: it iterates before its records exist (src/CTL/examples/TRG.py:SquareTRG.__init__)'),
 ('C10', 'partial-update', r'SquareTRG: a failed iterate left a: next, b: next',
  'SquareTRG.iterate replaces its tensors before the new norm is known: after a failure there the unnormalised tensor stays and a repeated iteration starts from it (src/CTL/examples/TRG.py:SquareTRG.iterate)'),
 ('C10', 'partial-update', r'SquareTRG: a failed iterate left a: normalised next, (aNorms\+1, )?b: normalised next',
  'SquareTRG.iterate records the norm before the archive copy is made: after a failure there aNorms is one longer than the archive (src/CTL/examples/TRG.py:SquareTRG.appendToArchive)'),
 ('C10', 'partial-update', r'TriangleTRG: a failed iterate left a: tagged, linked, b: tagged, linked(, errors\+1)?',
  'TriangleTRG.iterate tags and links its own tensors before contracting them: after a failure they stay tagged and linked, and every later iteration raises (src/CTL/examples/TRG.py:TriangleTRG.iterate)'),
 ('C10', 'partial-update', r'TriangleTRG: a failed iterate left a: (normalised )?next, b: (tagged, linked|(normalised )?next), errors\+1',
  'TriangleTRG.iterate replaces its two tensors one after the other, records the error first and normalises last: a failure in between leaves a mixture (src/CTL/examples/TRG.py:TriangleTRG.iterate)'),
 ('C10', 'partial-update', r'TriangleTRG: a failed iterate left a: normalised next, (aArchive\+1, )?aNorms\+1, b: normalised next, bNorms\+1, errors\+1',
  'TriangleTRG.iterate records norms and the first archive entry before the second copy is made: after a failure the records have different lengths (src/CTL/examples/TRG.py:TriangleTRG.appendToArchive)'),
 ('C11', 'partial-update', r'CTMRG: a failed (iterate|getZ) left corner\+1(, hEdge\+1(, vEdge\+1)?)?',
  'CTMRG.iterate records the tensors before the step is computed: after a failure the records are one longer than the steps made, and later queries use the wrong record (src/CTL/examples/CTMRG.py:iterate)'),
 ('C12', 'default-chi', r'an MPS made without chi has chi -1 and canonicalizing it changes the state',
  'FreeBoundaryMPS made without chi gets chi = -1 (the minimum of -1 and the bond dimensions), and its operations cut the last singular value (src/CTL/examples/MPS.py:getChi)'),
 ('C12', 'partial-update', r'MPS: a failed (canonicalize|swap|moveTensor|makeAdjacent|mergeMPS|doubleMergeByBond|contractMPS) left (tagged legs|legs that moved to another tensor|tagged legs, legs that moved to another tensor)',
  'MPS operations tag the legs of their tensors and contract them away before the decomposition is made: after a failed SVD, product or norm the legs stay tagged or belong to the contracted tensor, and the MPS is unusable (src/CTL/examples/Schimdt.py:SchimdtDecomposition, src/CTL/examples/MPS.py)'),
 ('C12', 'tiny-values', r'an MPS of a state that is zero cannot be made from a tensor',
  'the decompositions inside an MPS keep no singular value at all when all are 1e-10 or less: createMPSFromTensor of a zero tensor makes bonds of dimension 0 and raises ValueError (src/CTL/examples/Schimdt.py:matrixSchimdtDecomposition)'),
 ('C13', 'input-consumed', r'contractWithMPS left its input tensors with (labels renamed|legs moved to other tensors|labels renamed, legs moved to other tensors)',
  'contractWithMPS (createMPSFromTensor) builds its MPSs from the leg objects of the input tensors: afterwards, also after a failed call, their legs belong to other tensors and are named o, so the list cannot be contracted again (src/CTL/examples/MPS.py:createMPSFromTensor)'),
 ('C13', 'tiny-values', r'contractWithMPS (lost|failed on) a network with singular values of 1e-10 or less',
  'the decompositions inside an MPS drop every singular value of 1e-10 or less whatever the scale of the tensors: contractWithMPS gives 0 for networks of small tensors, and on a network that is exactly zero it makes bonds of dimension 0 and fails with ZeroDivisionError (src/CTL/examples/Schimdt.py:SchimdtDecomposition, funcs.nonZeroElementN)'),
]


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
    fixed = []
    for key, prop, what in FIXED:
        m = [l for l in log if key in l and l.split(' ', 1)[1].startswith('fix:')]
        assert len(m) == 1, (key, m)
        fixed.append('fixed: property=%s %s %s' % (prop, m[0].split()[0], what))
    subj = [l.split(' ', 1)[1] for l in log]
    n = len([s for s in subj if s.startswith('fix:') and 'Revert "%s"' % s not in subj])
    assert n == len(FIXED), (n, len(FIXED))
    with open(os.path.join(HERE, 'known-findings.json'), 'w') as f:
        json.dump(dict(findings=[dict(property=a, kind=b, match=c, what=d) for a, b, c, d in OPEN], fixed=fixed), f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
