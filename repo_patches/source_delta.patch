From 1ff83dd67e9700873cbab707ba611cb570640134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:22 +0000
Subject: [PATCH 01/41] fix: outer product of unlinked diagonal tensors is
 dense

contractTwoTensors returned a diagonal tensor (the elementwise product) for two
diagonal tensors sharing no bond, dropped the imaginary part in the outer product
of a real diagonal and a complex dense tensor, and failed for scalar factors.
---
 src/CTL/funcs/funcs.py              |  4 +++-
 src/CTL/tensor/contract/contract.py | 15 +++++++++------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 70aa5a3..854a43a 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -1093,8 +1093,10 @@ def diagonalNDTensor(a, dim):
         A diagonal tensor of dim dimension, and contains the values of a in order on its diagonal.
 
     """
+    if (dim == 0):
+        return xplib.xp.copy(a) # scalar
     l = a.shape[0]
-    res = xplib.xp.zeros(tuple([l] * dim))
+    res = xplib.xp.zeros(tuple([l] * dim), dtype = a.dtype)
     res[xplib.xp.diag_indices(l, dim)] = a
     # for i in range(l):
     # 	res[tuple([i] * dim)] = a[i]
diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index ed0be84..90ec9ca 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -77,19 +77,22 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
         shape = ta.shape + tb.shape
         legs = ta.legs + tb.legs
 
-        if (ta.diagonalFlag and tb.diagonalFlag):
+        if (ta.diagonalFlag and tb.diagonalFlag and ((ta.dim == 0) or (tb.dim == 0))):
+            # only a scalar factor keeps the other tensor diagonal
             if (tensorLikeContract):
                 return DiagonalTensor(labels = labels, data = None, shape = shape, legs = legs, tensorLikeFlag = True)
-            else:
+            elif (len(legs) != 0):
                 return DiagonalTensor(labels = labels, data = ta.a * tb.a, shape = shape, legs = legs)
+            else:
+                return DiagonalTensor(data = xplib.xp.array(ta.a * tb.a))
         elif (ta.diagonalFlag):
             if (tensorLikeContract):
                 return Tensor(labels = labels, data = None, shape = shape, legs = legs, tensorLikeFlag = True)
             else:
-                data = xplib.xp.zeros(shape, dtype = ta.a.dtype)
-                einsumStr = ('j' * ta.dim) + '...->j...'
-                outerData = xplib.xp.multiply.outer(ta.a, tb.a)
-                xplib.xp.einsum(einsumStr, data)[...] = outerData
+                # the outer product of a diagonal tensor is not diagonal, even with another diagonal one
+                dataA = funcs.diagonalNDTensor(ta.a, ta.dim)
+                dataB = funcs.diagonalNDTensor(tb.a, tb.dim) if tb.diagonalFlag else tb.a
+                data = xplib.xp.multiply.outer(dataA, dataB)
             return Tensor(labels = labels, data = data, shape = shape, legs = legs)
         else:
             if (tensorLikeContract):
-- 
2.43.0


From b778ff18857639c6e67d46f268f34c8909505e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 02/41] fix: contraction planning terminates on disconnected
 networks

The pruned search looped forever on unlinked diagonal tensors, the greedy search
picked a nonexistent pair, and tensors without legs made the pruned search raise.
Costs of outer products of diagonal tensors now match what the contraction does.
---
 src/CTL/tensor/contract/optimalContract.py |  4 ++--
 src/CTL/tensor/contract/tensorGraph.py     | 27 ++++++++++++++++------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/CTL/tensor/contract/optimalContract.py b/src/CTL/tensor/contract/optimalContract.py
index 68d74f8..2357b48 100644
--- a/src/CTL/tensor/contract/optimalContract.py
+++ b/src/CTL/tensor/contract/optimalContract.py
@@ -76,12 +76,12 @@ def contractCost(ta, tb):
         The order of the cost(how many dimensions). This is used when we want to decide the order of our calculation to a given bond dimension chi.
     """
     diagonalA, diagonalB = ta.diagonalFlag, tb.diagonalFlag 
-    if (diagonalA and diagonalB):
+    bonds = shareBonds(ta, tb)
+    if (diagonalA and diagonalB and (len(bonds) > 0)):
         return ta.bondDimension(), 1
 
     diagonal = diagonalA or diagonalB
     
-    bonds = shareBonds(ta, tb)
     intersectionShape = tuple([bond.legs[0].dim for bond in bonds])
     if (not diagonal):
         cost = funcs.tupleProduct(ta.shape) * funcs.tupleProduct(tb.shape) // funcs.tupleProduct(intersectionShape)
diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index e061362..47df9ce 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -150,6 +150,7 @@ class TensorGraph(UndirectedGraph):
 
         edges = [[edge.index for edge in v.edges] for v in self.v]
         shapes = [[edge.weight for edge in v.edges] for v in self.v]
+        freeEdges = set([edge.index for v in self.v for edge in v.edges if (None in edge.vertices)])
 
         n = len(self.v)
 
@@ -178,7 +179,7 @@ class TensorGraph(UndirectedGraph):
             edgesA, shapeA, diagonalA = self.contractRes[tsA]
             edgesB, shapeB, diagonalB = self.contractRes[tsB]
 
-            if (diagonalA and diagonalB):
+            if (diagonalA and diagonalB and isSharingBond(tsA, tsB)):
                 # both diagonal, only need to product
                 return shapeA[0]
             
@@ -200,7 +201,7 @@ class TensorGraph(UndirectedGraph):
             edgesA, _, diagonalA = self.contractRes[tsA]
             edgesB, _, diagonalB = self.contractRes[tsB]
 
-            if (diagonalA and diagonalB):
+            if (diagonalA and diagonalB and isSharingBond(tsA, tsB)):
                 costOrder = 1
             else:
                 clb = set(funcs.commonElements(edgesA, edgesB))
@@ -222,6 +223,9 @@ class TensorGraph(UndirectedGraph):
             return len(commonEdges) > 0
         
         def isDiagonalOuterProduct(tsA, tsB):
+            # not counting the ones between complete components, which cannot be avoided
+            if all([(edge in freeEdges) for edge in tsA[0] + tsB[0]]):
+                return False
             return tsA[2] and tsB[2] and (not isSharingBond(tsA, tsB))
 
         def calculateContractRes(tsA, tsB):
@@ -242,7 +246,9 @@ class TensorGraph(UndirectedGraph):
             for l, s in zip(edgesA + edgesB, shapeA + shapeB):
                 if (l in edgeIndex):
                     shape[edgeIndex[l]] = s
-            return (edges, shape, diagonalA and diagonalB)
+            # an outer product of two diagonal tensors is not diagonal
+            sharing = (len(edges) < len(edgesA) + len(edgesB))
+            return (edges, shape, diagonalA and diagonalB and (sharing or (len(edgesA) == 0) or (len(edgesB) == 0)))
 
         def getSize(tsA, tsB):
             '''
@@ -273,9 +279,7 @@ class TensorGraph(UndirectedGraph):
                     solveSet(tsA)
                 if (self.optimalCost[tsB] is None):
                     solveSet(tsB)
-                if (self.contractRes[x] is None):
-                    self.contractRes[x] = calculateContractRes(tsA, tsB)
-                
+
                 localCost = costFunc(tsA, tsB)
                 currCost = self.optimalCost[tsA] + self.optimalCost[tsB] + localCost
                 if (minCost is None) or (currCost < minCost):
@@ -284,6 +288,7 @@ class TensorGraph(UndirectedGraph):
                     minTSB = tsB
 
             self.optimalCost[x] = minCost
+            self.contractRes[x] = calculateContractRes(minTSA, minTSB)
             self.optimalSeq[x] = self.optimalSeq[minTSA] + self.optimalSeq[minTSB] + [(lowbitI(minTSA), lowbitI(minTSB))]
 
         def bruteForce():
@@ -311,6 +316,14 @@ class TensorGraph(UndirectedGraph):
                         minSize = newSize 
                         minTSA, minTSB = tsA, tsB 
 
+                if (minSize == -1):
+                    # no bond left between the remaining tensors: outer product of the smallest result
+                    for tsA, tsB in funcs.pairIterator(tensorSet):
+                        newSize = getSize(tsA, tsB)
+                        if (minSize == -1) or (newSize < minSize):
+                            minSize = newSize 
+                            minTSA, minTSB = tsA, tsB 
+
                 tsA, tsB = minTSA, minTSB
                 self.greedySeq.append((tsA, tsB))
                 self.greedyCost += costFunc(tsA, tsB)
@@ -323,7 +336,7 @@ class TensorGraph(UndirectedGraph):
             obj_n = (1 << n)
             new_flag = [True] * obj_n 
             if (typicalDim is None):
-                chi_min = min([min(x) for x in shapes])
+                chi_min = min([min(x) for x in shapes if (len(x) > 0)], default = 2)
             else:
                 chi_min = typicalDim
             # mu_cap = 1
-- 
2.43.0


From 303f79fb67ed19703ba50b9be3cda518a77f397b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:25 +0000
Subject: [PATCH 03/41] fix: finite tensor networks do not share their list of
 tensor names

---
 src/CTL/tensornetwork/tensornetwork.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensornetwork/tensornetwork.py b/src/CTL/tensornetwork/tensornetwork.py
index eb83d2a..e718bc8 100644
--- a/src/CTL/tensornetwork/tensornetwork.py
+++ b/src/CTL/tensornetwork/tensornetwork.py
@@ -7,8 +7,9 @@ class FiniteTensorNetwork:
     # instead of save the tensors: save a set of operations
     # provide a function api FiniteTensorNetwork.contract(tensorDict)
 
-    def __init__(self, tensorNames = [], realCost = True, typicalDim = 10):
-        self.tensorNames = tensorNames
+    def __init__(self, tensorNames = None, realCost = True, typicalDim = 10):
+        # an own list: tensors are added to and removed from it later
+        self.tensorNames = list(tensorNames) if (tensorNames is not None) else []
         self.optimalSeq = None 
         self.realCost = realCost 
         self.links = []
-- 
2.43.0


From 5d5a17aa23e3976396bc8084437185760007862f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:51 +0000
Subject: [PATCH 04/41] fix: finite tensor networks plan from the current
 tensors only

---
 src/CTL/tensornetwork/tensornetwork.py | 36 +++++++++++++++++---------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/CTL/tensornetwork/tensornetwork.py b/src/CTL/tensornetwork/tensornetwork.py
index e718bc8..3911b5e 100644
--- a/src/CTL/tensornetwork/tensornetwork.py
+++ b/src/CTL/tensornetwork/tensornetwork.py
@@ -10,13 +10,11 @@ class FiniteTensorNetwork:
     def __init__(self, tensorNames = None, realCost = True, typicalDim = 10):
         # an own list: tensors are added to and removed from it later
         self.tensorNames = list(tensorNames) if (tensorNames is not None) else []
-        self.optimalSeq = None 
+        self.plan = None # (sequence, bond dimensions, diagonal flags) of the last search, always replaced as a whole
         self.realCost = realCost 
         self.links = []
 
-        self.bondDims = dict([])
         self.locked = False
-        self.changed = False
 
         self.changeNameBefore = []
         self.changeNameAfter = []
@@ -33,6 +31,13 @@ class FiniteTensorNetwork:
     def tensorCount(self):
         return len(self.tensorNames)
 
+    @property
+    def optimalSeq(self):
+        return self.plan[0] if (self.plan is not None) else None
+    @property
+    def bondDims(self):
+        return self.plan[1] if (self.plan is not None) else dict([])
+
     def checkLock(self, opt):
         assert (not self.locked), "Error: {} to a FTN which is locked.".format(opt)
     
@@ -40,11 +45,13 @@ class FiniteTensorNetwork:
         # assert (not self.locked), "Error: adding tensor {} to a FTN which is locked.".format(name)
         self.checkLock('adding tensor {}'.format(name))
         self.tensorNames.append(name)
+        self.plan = None
     def removeTensor(self, name):
         # assert (not self.locked), "Error: removing tensor {} to a FTN which is locked.".format(name)
         self.checkLock('removing tensor {}'.format(name))
         assert (name in self.tensorNames), "Error: removing tensor {} to a FTN which do not contain it.".format(name)
         self.tensorNames.remove(name)
+        self.plan = None
 
     def lock(self):
         self.locked = True 
@@ -55,6 +62,7 @@ class FiniteTensorNetwork:
         # assert (not self.locked), "Error: adding link ({}, {}) to a FTN which is locked.".format((aName, aLeg), (bName, bLeg))
         self.checkLock('adding link ({}, {})'.format((aName, aLeg), (bName, bLeg)))
         self.links.append(((aName, aName + '-' + aLeg), (bName, bName + '-' + bLeg)))
+        self.plan = None
 
     def addPreNameChange(self, name, legName, newName):
         self.checkLock('add pre name change for tensor {}: from {} to {}'.format(name, legName, newName))
@@ -75,12 +83,12 @@ class FiniteTensorNetwork:
         self.outProductAfter.append((labelList, newLabel))
 
     def loadBondDims(self, localTensors):
+        bondDims = dict([])
         for name in localTensors:
             for leg in localTensors[name].legs:
                 # legName = name + '-' + leg.name 
-                if (leg.name not in self.bondDims) or (leg.dim != self.bondDims[leg.name]):
-                    self.changed = True
-                self.bondDims[leg.name] = leg.dim
+                bondDims[leg.name] = leg.dim
+        return bondDims
 
     def _dealOutProductLabel(self, label):
         if (isinstance(label, tuple)):
@@ -113,16 +121,20 @@ class FiniteTensorNetwork:
             tensorB, legB = leg2 
             makeLink(legA, legB, localTensors[tensorA], localTensors[tensorB])
 
-        self.changed = False 
-        self.loadBondDims(localTensors)
-
         tensorList = [localTensors[name] for name in self.tensorNames]
-        if (self.optimalSeq is None) or (self.realCost and self.changed):
+        bondDims = self.loadBondDims(localTensors)
+        diagonalFlags = [tensor.diagonalFlag for tensor in tensorList]
+
+        # use a local reference: other threads may replace self.plan at any time
+        plan = self.plan
+        if (plan is None) or (self.realCost and (plan[1:] != (bondDims, diagonalFlags))):
             # print('getting optimal seq')
-            self.optimalSeq = generateOptimalSequence(tensorList, bf = False, typicalDim = self.typicalDim)
+            optimalSeq = generateOptimalSequence(tensorList, bf = False, typicalDim = self.typicalDim)
+            plan = (optimalSeq, bondDims, diagonalFlags)
+            self.plan = plan
             # print('optimal seq = {}'.format(self.optimalSeq))
 
-        res = contractWithSequence(tensorList, seq = self.optimalSeq, inplace = True)
+        res = contractWithSequence(tensorList, seq = plan[0], inplace = True)
         # print(res)
         # print(tensorDict.tensors)
 
-- 
2.43.0


From f8f5d16d9cf67124bef1fe4dbf67b32f660f29b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:08 +0000
Subject: [PATCH 05/41] fix: moving legs to the front changes nothing when it
 is rejected or fails

---
 src/CTL/tensor/diagonalTensor.py | 10 ++++++----
 src/CTL/tensor/tensor.py         | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index d452fb3..77ae422 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -492,8 +492,8 @@ class DiagonalTensor(Tensor):
         moveFrom = []
         moveTo = []
         currIdx = 0
-        movedLegs = legs
-        for currLeg in legs:
+        movedLegs = list(legs)
+        for currLeg in movedLegs:
             for i, leg in enumerate(self.legs):
                 if (leg == currLeg):
                     moveFrom.append(i)
@@ -501,13 +501,15 @@ class DiagonalTensor(Tensor):
                     currIdx += 1
                     break
 
+        # work on a copy: nothing changes if some leg is not (or not twice) in the tensor
+        remainLegs = list(self.legs)
         for leg in movedLegs:
-            self.legs.remove(leg)
+            remainLegs.remove(leg)
         
         # print(moveFrom, moveTo)
         # print(labelList)
         # print(self.labels)
-        self.legs = movedLegs + self.legs 
+        self.legs = movedLegs + remainLegs
         # self.a = xplib.xp.moveaxis(self.a, moveFrom, moveTo)
 
     def toVector(self):
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index c410ef4..3834835 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -561,8 +561,8 @@ class Tensor(TensorBase):
         moveFrom = []
         moveTo = []
         currIdx = 0
-        movedLegs = legs
-        for currLeg in legs:
+        movedLegs = list(legs)
+        for currLeg in movedLegs:
             for i, leg in enumerate(self.legs):
                 if (leg == currLeg):
                     moveFrom.append(i)
@@ -570,15 +570,17 @@ class Tensor(TensorBase):
                     currIdx += 1
                     break
 
+        # work on a copy: nothing changes if some leg is not (or not twice) in the tensor
+        remainLegs = list(self.legs)
         for leg in movedLegs:
-            self.legs.remove(leg)
+            remainLegs.remove(leg)
         
         # print(moveFrom, moveTo)
         # print(labelList)
         # print(self.labels)
-        self.legs = movedLegs + self.legs 
         if (not self.tensorLikeFlag):
             self.a = xplib.xp.moveaxis(self.a, moveFrom, moveTo)
+        self.legs = movedLegs + remainLegs
 
     def toVector(self):
         """
-- 
2.43.0


From 71989332806bdb4de21a974276310ba1787e49c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:08 +0000
Subject: [PATCH 06/41] fix: a rejected tensor tag is added to no leg

---
 src/CTL/tensor/tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 3834835..cb33f83 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -841,6 +841,8 @@ class Tensor(TensorBase):
         """
         for leg in self.legs:
             assert (leg.name.find('-') == -1), "Error: leg name {} already has a tensor tag.".format(leg.name)
+        # check all legs before changing any of them
+        for leg in self.legs:
             leg.name = name + '-' + leg.name 
     
     def removeTensorTag(self):
-- 
2.43.0


From 4de725597a728a8694c5b5e875fae4982ba1d409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:08 +0000
Subject: [PATCH 07/41] fix: summing out legs is all or nothing and uses the
 weights for every leg

---
 src/CTL/tensor/diagonalTensor.py |  6 ++++--
 src/CTL/tensor/tensor.py         | 10 ++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 77ae422..712019f 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -736,9 +736,9 @@ class DiagonalTensor(Tensor):
         
         idx = self.legs.index(leg)
         # self.a = xplib.xp.sum(self.a, axis = idx)
-        self.legs = self.legs[:idx] + self.legs[(idx + 1):]
+        remainLegs = self.legs[:idx] + self.legs[(idx + 1):]
         # if weights is None:
-        if (len(self.legs) == 0):
+        if (len(remainLegs) == 0):
             # not a diagonal tensor, since the last sum will give a single value
             if weights is None:
                 self.a = xplib.xp.array(xplib.xp.sum(self.a))
@@ -748,6 +748,8 @@ class DiagonalTensor(Tensor):
         else:
             if (weights is not None):
                 self.a = self.a * weights
+        # only after the data, which may fail
+        self.legs = remainLegs
 
     def typeName(self):
         """
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index cb33f83..86a0f53 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -1118,8 +1118,14 @@ class Tensor(TensorBase):
 
         """
         if isinstance(label, list):
-            for l in label:
-                self.sumOutLegByLabel(l, backward)
+            state = {key : self.__dict__[key] for key in ['a', 'legs', '_length'] if (key in self.__dict__)}
+            try:
+                for l in label:
+                    self.sumOutLegByLabel(l, backward, weights = weights)
+            except BaseException:
+                # all legs or none of them
+                self.__dict__.update(state)
+                raise
             return 
         leg = self.getLeg(label, backward = backward)
         if leg is None:
-- 
2.43.0


From d0e05fa11ac199b6c50add542bd935a2443bb59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:08 +0000
Subject: [PATCH 08/41] fix: failed merging of links leaves both tensors linked
 as before

---
 src/CTL/tensor/contract/contract.py | 12 ++++++++++--
 src/CTL/tensor/contract/link.py     | 16 +++++++++++++---
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index 90ec9ca..00c1ea6 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -269,8 +269,16 @@ def merge(ta, tb, chi = None, bondName = None, renameWarning = True):
         uS = funcs.rightDiagonalProduct(u, sqrtS)
         vS = funcs.leftDiagonalProduct(vh, sqrtS)
 
-        uTensor = Tensor(data = uS, legs = remainLegA + [uOutLeg])
-        vTensor = Tensor(data = vS, legs = [vOutLeg] + remainLegB)
+        try:
+            uTensor = Tensor(data = uS, legs = remainLegA + [uOutLeg])
+            vTensor = Tensor(data = vS, legs = [vOutLeg] + remainLegB)
+        except BaseException:
+            # the legs still belong to ta and tb
+            for leg in remainLegA:
+                leg.tensor = ta
+            for leg in remainLegB:
+                leg.tensor = tb
+            raise
 
     else:
         chi = min([chi, legA[0].dim, ta.totalSize // legA[0].dim, tb.totalSize // legB[0].dim])
diff --git a/src/CTL/tensor/contract/link.py b/src/CTL/tensor/contract/link.py
index bed7c6d..dcd70dd 100644
--- a/src/CTL/tensor/contract/link.py
+++ b/src/CTL/tensor/contract/link.py
@@ -52,9 +52,12 @@ def makeLink(legA, legB, tensorA = None, tensorB = None):
 
     assert (len(legA) == len(legB)), "Error: the number of legs from A({}) and B({}) are not the same.".format(len(legA), len(legB))
 
-    bonds = []
+    # check all pairs before linking any of them
     for leg1, leg2 in zip(legA, legB):
         assert (leg1.dim == leg2.dim), "Error: leg {} and {} to be linked do not have the same dimensions.".format(leg1, leg2)
+
+    bonds = []
+    for leg1, leg2 in zip(legA, legB):
         bonds.append(Bond(leg1, leg2))
     
     return bonds
@@ -112,8 +115,15 @@ def mergeLink(ta, tb, bondName = None, renameWarning = True):
     else:
         bondNameA, bondNameB = bondName # tuple/list
 
-    newLegA = ta.outProduct(legList = mergeLegA, newLabel = bondNameA)
-    newLegB = tb.outProduct(legList = mergeLegB, newLabel = bondNameB)
+    state = [(t, t.a, t.legs) for t in [ta, tb]]
+    try:
+        newLegA = ta.outProduct(legList = mergeLegA, newLabel = bondNameA)
+        newLegB = tb.outProduct(legList = mergeLegB, newLabel = bondNameB)
+    except BaseException:
+        # do not leave one side merged and the other side not
+        for t, a, legs in state:
+            t.a, t.legs = a, legs
+        raise
 
     makeLink(newLegA, newLegB)
 
-- 
2.43.0


From 2ab1d77642d5e11c97e480149edf4b1f3eb16dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:08 +0000
Subject: [PATCH 09/41] fix: scalar diagonal tensors can be copied and own
 their data

---
 src/CTL/tensor/diagonalTensor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 712019f..1afd52e 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -228,7 +228,10 @@ class DiagonalTensor(Tensor):
             return None
         # print('generating data for data = {}'.format(data))
         if (data is None):
-            data = xplib.xp.ones(shape[0])
+            data = xplib.xp.ones(shape[0]) if (len(shape) > 0) else xplib.xp.array(1.0)
+        # a scalar: no leg to take the dimension from
+        elif (len(shape) == 0):
+            data = xplib.xp.copy(data.reshape(shape))
         # otherwise, data can be 1D-array, or ndarray
         elif (len(data.shape) == 1):
             data = xplib.xp.copy(data)
@@ -256,6 +259,8 @@ class DiagonalTensor(Tensor):
         if (legs is None) and (labels is None) and (shape == () or ((data is not None) and (data.shape == ()))):
             if (data is None) and (not isTensorLike):
                 data = xplib.xp.array(1.0)
+            elif (data is not None):
+                data = xplib.xp.copy(data)
             return [], data, [], () # scalar
             
 
-- 
2.43.0


From 570b596a633ab420fcdf04e5956d1bb4546447f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:55 +0000
Subject: [PATCH 10/41] fix: failed MPS operations leave the MPS and its
 tensors as they were

---
 src/CTL/examples/MPS.py     | 13 ++++++++-
 src/CTL/examples/Schimdt.py |  2 ++
 src/CTL/tensor/rollback.py  | 55 +++++++++++++++++++++++++++++++++++++
 3 files changed, 69 insertions(+), 1 deletion(-)
 create mode 100644 src/CTL/tensor/rollback.py

diff --git a/src/CTL/examples/MPS.py b/src/CTL/examples/MPS.py
index 8ce70b4..45ba4b4 100644
--- a/src/CTL/examples/MPS.py
+++ b/src/CTL/examples/MPS.py
@@ -11,6 +11,7 @@ from CTL.examples.Schimdt import SchimdtDecomposition, matrixSchimdtDecompositio
 from CTL.tensor.tensorFunc import isIsometry
 import warnings
 from CTL.tensor.contract.link import makeLink
+from CTL.tensor.rollback import restoreOnError
 
 class FreeBoundaryMPS:
 
@@ -80,7 +81,8 @@ class FreeBoundaryMPS:
             raise ValueError(funcs.errorMessage("tensorList {} cannot be considered as an MPS".format(tensorList), location = "FreeBoundaryMPS.__init__"))
         
         if (inplace):
-            self._tensors = tensorList 
+            # the tensors themselves are used, but the list belongs to the caller
+            self._tensors = list(tensorList)
         else:
             self._tensors = copyTensorList(tensorList, linkOutgoingBonds = True)
         # self._tensors = copyTensorList(tensorList)
@@ -123,6 +125,7 @@ class FreeBoundaryMPS:
     #             self._tensors[i] = u
     #             self._tensors[i - 1] = sv
 
+    @restoreOnError
     def canonicalize(self, idx):
         '''
         canonicalize the MPS, and the only non-isometry will be put at 0 <= idx < n
@@ -154,6 +157,7 @@ class FreeBoundaryMPS:
     def getTensor(self, idx):
         return self._tensors[idx]
 
+    @restoreOnError
     def swap(self, aIdx, bIdx):
         # tensorA and tensorB are tensors in tensorList
         assert ((aIdx >= 0) and (aIdx < self.n) and (bIdx < self.n) and (bIdx >= 0) and (abs(aIdx - bIdx) == 1)), funcs.errorMessage("index {} and {} are not valid for MPS with {} tensors.".format(aIdx, bIdx, self.n), location = "FreeBoundaryMPS.swap")
@@ -208,6 +212,7 @@ class FreeBoundaryMPS:
     def isIndex(self, idx):
         return (isinstance(idx, int) and (idx >= 0) and (idx < self.n))
 
+    @restoreOnError
     def moveTensor(self, begIndex, endIndex, warningFlag = True):
         '''
         move then tensor at begIndex to endIndex
@@ -227,6 +232,7 @@ class FreeBoundaryMPS:
             for i in range(begIndex, endIndex, -1):
                 self.swap(i, i - 1)
 
+    @restoreOnError
     def makeAdjacent(self, idx1, idx2):
         funcName = 'FreeBoundaryMPS.makeAdjacent'
         assert (self.isIndex(idx1) and self.isIndex(idx2)), funcs.errorMessage("{} or {} is invalid index.".format(idx1, idx2), location = funcName)
@@ -346,6 +352,7 @@ def commonBonds(mpsA, mpsB):
     
     return bonds
 
+@restoreOnError
 def contractMPS(mpsA, mpsB):
     '''
     solution 0.
@@ -400,6 +407,7 @@ def contractMPS(mpsA, mpsB):
 
     return FreeBoundaryMPS(newTensorList, chi = min(mpsA.chi, mpsB.chi))
 
+@restoreOnError
 def doubleMerge(mpsA, mpsB, idxA, idxB):
 
     funcName = 'CTL.examples.MPS.doubleMerge'
@@ -434,6 +442,7 @@ def getBondTensorIndices(mpsA, mpsB, bond):
 
     return mpsA.tensorIndex(tensorA), mpsB.tensorIndex(tensorB)
 
+@restoreOnError
 def doubleMergeByBond(mpsA, mpsB, bond1, bond2):
     funcName = 'CTL.examples.MPS.doubleMergeByBond'
     idxA1, idxB1 = getBondTensorIndices(mpsA, mpsB, bond1)
@@ -448,6 +457,7 @@ def doubleMergeByBond(mpsA, mpsB, bond1, bond2):
     assert (idxA1 + 1 == idxA2) and (idxB1 + 1 == idxB2), funcs.errorMessage("index is not adjacent after swapping: ({}, {}) and ({}, {}).".format(idxA1, idxA2, idxB1, idxB2), location = funcName)
     return doubleMerge(mpsA, mpsB, idxA1, idxB1)
 
+@restoreOnError
 def mergeMPS(mpsA, mpsB, beginFlag = True):
     '''
     merge the common bonds between mpsA and mpsB to one bond
@@ -484,6 +494,7 @@ def mergeMPS(mpsA, mpsB, beginFlag = True):
     # otherwise, we need to repeat doubleMerge until there is one left
     # use the bond to find the tensors?
 
+@restoreOnError
 def createMPSFromTensor(tensor, chi = 16):
     '''
     tensor is a real Tensor with n outer legs
diff --git a/src/CTL/examples/Schimdt.py b/src/CTL/examples/Schimdt.py
index 93a3857..3a00058 100644
--- a/src/CTL/examples/Schimdt.py
+++ b/src/CTL/examples/Schimdt.py
@@ -6,9 +6,11 @@ from CTL.tensor.tensor import Tensor
 from CTL.tensor.leg import Leg
 from CTL.tensor.diagonalTensor import DiagonalTensor
 from CTL.tensor.contract.link import makeLink
+from CTL.tensor.rollback import restoreOnError
 # import numpy as np
 
 
+@restoreOnError
 def SchimdtDecomposition(ta, tb, chi, squareRootSeparation = False, swapLabels = ([], []), singularValueEps = 1e-10):
     '''
     Schimdt decomposition between tensor ta and tb
diff --git a/src/CTL/tensor/rollback.py b/src/CTL/tensor/rollback.py
new file mode 100644
index 0000000..e293411
--- /dev/null
+++ b/src/CTL/tensor/rollback.py
@@ -0,0 +1,55 @@
+import functools
+from CTL.tensorbase.tensorbase import TensorBase
+
+def saveState(objs):
+    """
+    Remember everything in-place functions may change in tensors and MPSes: data, legs, names of legs and bonds.
+
+    Parameters
+    ----------
+    objs : list
+        Tensors, and objects (like MPS) saving their tensors in the attribute _tensors. Anything else is ignored.
+
+    Returns
+    -------
+    list of (object, dict)
+        The state, to be used in restoreState.
+    """
+    state = []
+
+    def save(obj, attrs):
+        state.append((obj, {attr : obj.__dict__[attr] for attr in attrs if (attr in obj.__dict__)}))
+
+    for obj in objs:
+        tensors = []
+        if (isinstance(obj, TensorBase)):
+            tensors = [obj]
+        elif (hasattr(obj, '_tensors')):
+            tensors = list(obj._tensors)
+            state.append((obj, {'_tensors': tensors, 'activeIdx': obj.activeIdx}))
+
+        for tensor in tensors:
+            save(tensor, ['a', 'legs', '_length'])
+            for leg in tensor.legs:
+                save(leg, ['name', 'tensor', 'dim', 'bond'])
+                if (leg.bond is not None):
+                    save(leg.bond, ['legs'])
+    return state
+
+def restoreState(state):
+    for obj, attrs in state:
+        obj.__dict__.update(attrs)
+
+def restoreOnError(func):
+    """
+    Decorator for functions that change their tensors (or MPSes) in more than one step: if a step fails, then the arguments are given back as they were.
+    """
+    @functools.wraps(func)
+    def wrapper(*args, **kwargs):
+        state = saveState(list(args) + list(kwargs.values()))
+        try:
+            return func(*args, **kwargs)
+        except BaseException:
+            restoreState(state)
+            raise
+    return wrapper
-- 
2.43.0


From a371b15bab8cdd595108202bbf9abf8d7edb8121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:55 +0000
Subject: [PATCH 11/41] fix: the default chi of an MPS is its largest bond
 dimension

---
 src/CTL/examples/MPS.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/CTL/examples/MPS.py b/src/CTL/examples/MPS.py
index 45ba4b4..5707ab1 100644
--- a/src/CTL/examples/MPS.py
+++ b/src/CTL/examples/MPS.py
@@ -46,21 +46,16 @@ class FreeBoundaryMPS:
 
     def getChi(self, chi):
         # if chi is None: then take the maximum from bonds shared
-        # otherwise, if bonds sharing larger than chi, then warning and update chi
         # otherwise, take chi
-        bondChi = -1
-        for i in range(self.n - 1):
-            bond = shareBonds(self._tensors[i], self._tensors[i + 1])[0]
-            bondChi = min(bondChi, bond.legs[0].dim) 
-        
-        if (chi is None):
-            return bondChi 
-        elif (bondChi > chi):
-            warnings.warn(funcs.warningMessage('required chi {} is lower than real bond chi {}, set to {}.'.format(chi, bondChi, bondChi), location = "FreeBoundaryMPS.getChi"))
-            return bondChi 
-        else:
+        if (chi is not None):
             return chi
 
+        # a single tensor has no bond: its only leg
+        bondChi = self._tensors[0].shape[0]
+        if (self.n > 1):
+            bondChi = max([shareBonds(self._tensors[i], self._tensors[i + 1])[0].legs[0].dim for i in range(self.n - 1)])
+        return bondChi
+
     def renameBonds(self):
         # 'l' and 'r' for internal bonds
         # 'o' for external bonds
-- 
2.43.0


From 9b84dfd28d2b9681d8027c69a0f9ea3c1bbc615e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:55 +0000
Subject: [PATCH 12/41] fix: contracting through MPSs leaves the tensors intact
 and keeps free labels

---
 src/CTL/examples/MPS.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/CTL/examples/MPS.py b/src/CTL/examples/MPS.py
index 5707ab1..23aa7db 100644
--- a/src/CTL/examples/MPS.py
+++ b/src/CTL/examples/MPS.py
@@ -558,6 +558,10 @@ def contractWithMPS(tensorList, chi = 16, seq = None, greedyFlag = True):
         else:
             seq = generateOptimalSequence(tensorList)
     # print('sequence = {}'.format(seq))
+    # creating MPSes takes the legs away from tensors: work on a copy
+    tensorList = copyTensorList(tensorList)
+    legNames = {leg : leg.name for tensor in tensorList for leg in tensor.legs}
+
     mpses = [createMPSFromTensor(tensor, chi = chi) for tensor in tensorList]
 
     n = len(tensorList)
@@ -581,6 +585,11 @@ def contractWithMPS(tensorList, chi = 16, seq = None, greedyFlag = True):
         # indexA, indexB = commonLegs(mpses[0], mpses[1])
 
     if (isinstance(mpses[0], FreeBoundaryMPS)):
+        # free legs get back the names they have in tensorList
+        for i in range(mpses[0].n):
+            for leg in mpses[0].getTensor(i).legs:
+                if (leg in legNames):
+                    leg.name = legNames[leg]
         return mpses[0].toTensor()
     else:
         return mpses[0]
\ No newline at end of file
-- 
2.43.0


From 74ac8504182eea35bd8bfa4a070655787b800078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:55 +0000
Subject: [PATCH 13/41] fix: copying with outgoing bonds leaves the original
 legs usable

---
 src/CTL/tensor/contract/optimalContract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/optimalContract.py b/src/CTL/tensor/contract/optimalContract.py
index 2357b48..8dc3e4d 100644
--- a/src/CTL/tensor/contract/optimalContract.py
+++ b/src/CTL/tensor/contract/optimalContract.py
@@ -46,7 +46,7 @@ def copyTensorList(tensorList, tensorLikeFlag = False, linkOutgoingBonds = False
 
                 if (leg2.tensor not in tensorList):
                     if (linkOutgoingBonds):
-                        del leg.bond 
+                        leg.bond = None
                         makeLink(newLeg1, leg2)
                     continue
 
-- 
2.43.0


From bc2f076ef99d8ba678bb6ba0aa17054d9d23e476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 14/41] fix: a failed HOTRG iteration records nothing

---
 src/CTL/examples/HOTRG.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/CTL/examples/HOTRG.py b/src/CTL/examples/HOTRG.py
index f38191e..ffec660 100644
--- a/src/CTL/examples/HOTRG.py
+++ b/src/CTL/examples/HOTRG.py
@@ -41,19 +41,24 @@ class HOTRG:
         self.directChoices = []
         self.projectors = []
 
-        self.appendToArchive()
+        self.appendToArchive(self.a)
         # self.iterateChoices = []
 
         self.impurityParts = 2
 
-    def appendToArchive(self):
-        self.normalizeTensors()
-        self.aArchive.append(self.a.copy())
+    def appendToArchive(self, a):
+        # record a as the current tensor; if something fails, then nothing is recorded
+        aNorm = self.normalizeTensor(a)
+        archive = a.copy()
 
-    def normalizeTensors(self):
-        aNorm = self.a.norm()
-        self.a.a /= aNorm 
+        self.a = a
         self.aNorms.append(aNorm)
+        self.aArchive.append(archive)
+
+    def normalizeTensor(self, a):
+        aNorm = a.norm()
+        a.a /= aNorm 
+        return aNorm
 
     def directedIterateTrial(self, d):
         funcs.assertInSet(d, ['u', 'd', 'l', 'r'], 'direction')
@@ -131,9 +136,9 @@ class HOTRG:
                 projectTensor = projector['projectTensor']
         
         # self.directChoices.append((bestDirection, projectTensor))
-        self.a = self.directedIterate(bestDirection, projectTensor)
-        self.a.degreeOfFreedom = dof * 2
-        self.appendToArchive()
+        newTensor = self.directedIterate(bestDirection, projectTensor)
+        newTensor.degreeOfFreedom = dof * 2
+        self.appendToArchive(newTensor)
         self.errors.append(minimumError)
         self.directChoices.append(bestDirection)
         self.projectors.append(projectTensor)
-- 
2.43.0


From a0a75cf4af297bf0953f56931476df2fb4d39378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 15/41] fix: a failed TRG iteration records nothing

---
 src/CTL/examples/TRG.py | 92 +++++++++++++++++++++++------------------
 1 file changed, 51 insertions(+), 41 deletions(-)

diff --git a/src/CTL/examples/TRG.py b/src/CTL/examples/TRG.py
index 04a7c5b..4f57bef 100644
--- a/src/CTL/examples/TRG.py
+++ b/src/CTL/examples/TRG.py
@@ -39,38 +39,44 @@ class TriangleTRG:
         self.aArchive = []
         self.bArchive = []
 
-        self.appendToArchive()
-
-    def appendToArchive(self):
-        self.normalizeTensors()
-        self.aArchive.append(self.a.copy())
-        self.bArchive.append(self.b.copy())
-
-    def normalizeTensors(self):
-        aNorm = self.a.norm()
-        self.a.a /= aNorm 
-        bNorm = self.b.norm()
-        self.b.a /= bNorm 
+        self.appendToArchive(self.a, self.b)
+
+    def appendToArchive(self, a, b):
+        # record a, b as the current tensors; if something fails, then nothing is recorded
+        aNorm, bNorm = self.normalizeTensors(a, b)
+        aArchive, bArchive = a.copy(), b.copy()
+
+        self.a, self.b = a, b
         self.aNorms.append(aNorm)
         self.bNorms.append(bNorm)
+        self.aArchive.append(aArchive)
+        self.bArchive.append(bArchive)
+
+    def normalizeTensors(self, a, b):
+        aNorm = a.norm()
+        a.a /= aNorm 
+        bNorm = b.norm()
+        b.a /= bNorm 
+        return aNorm, bNorm
 
     def iterate(self):
         # print('iterate:')
         if (self.iterateFTN is None):
             self.iterateFTN = triangleContractFTN()
 
-        self.a.addTensorTag('a')
-        self.b.addTensorTag('b')
+        # work on copies: self.a and self.b are only replaced at the end
+        a, b = self.a.copy(), self.b.copy()
+        a.addTensorTag('a')
+        b.addTensorTag('b')
 
         dof = self.a.degreeOfFreedom
-        makeLink(self.a.getLeg('a-1'), self.b.getLeg('b-1'))
-        iTensor = contractTwoTensors(self.a, self.b)
+        makeLink(a.getLeg('a-1'), b.getLeg('b-1'))
+        iTensor = contractTwoTensors(a, b)
 
         a2Dim, b2Dim, a3Dim, b3Dim = iTensor.shapeOfLabels(['a-2', 'b-2', 'a-3', 'b-3'])
 
         iMat = iTensor.toMatrix(rows = ['a-2', 'b-2'], cols = ['a-3', 'b-3'])
         u, v, error = SVDDecomposition(iMat, self.chi)
-        self.errors.append(error)
         # print(u.shape, v.shape)
         # print(iTensor.shape)
 
@@ -80,14 +86,14 @@ class TriangleTRG:
         uTensor = makeTriangleTensor(u, labels = ['2', '3', '1'])
         vTensor = makeTriangleTensor(v, labels = ['2', '3', '1'])
 
-        self.a = self.iterateFTN.contract(makeTriangleTensorDict(uTensor))
-        self.b = self.iterateFTN.contract(makeTriangleTensorDict(vTensor))
+        newA = self.iterateFTN.contract(makeTriangleTensorDict(uTensor))
+        newB = self.iterateFTN.contract(makeTriangleTensorDict(vTensor))
 
-        self.a.degreeOfFreedom = dof * 3
-        self.b.degreeOfFreedom = dof * 3
+        newA.degreeOfFreedom = dof * 3
+        newB.degreeOfFreedom = dof * 3
         
-        # self.normalizeTensors()
-        self.appendToArchive()
+        self.appendToArchive(newA, newB)
+        self.errors.append(error)
 
     def logZDensity(self):
         # print(self.aArchive, self.bArchive)
@@ -119,6 +125,12 @@ class SquareTRG:
 
         if (self.a.degreeOfFreedom is None):
             self.a.degreeOfFreedom = 1
+
+        self.aNorms = []
+        self.errors = []
+
+        self.aArchive = []
+
         if (b is not None):
             if (isinstance(b, Tensor)):
                 self.b = b.copy()
@@ -127,23 +139,22 @@ class SquareTRG:
             
             self.iterate()
         else:
-            self.b = self.a
+            self.appendToArchive(self.a)
 
-        self.aNorms = []
-        self.errors = []
+    def appendToArchive(self, a):
+        # record a as the current tensor; if something fails, then nothing is recorded
+        aNorm = self.normalizeTensor(a)
+        archive = a.copy()
 
-        self.aArchive = []
-
-        self.appendToArchive()
-
-    def appendToArchive(self):
-        self.normalizeTensors()
-        self.aArchive.append(self.a.copy())
-
-    def normalizeTensors(self):
-        aNorm = self.a.norm()
-        self.a.a /= aNorm 
+        self.a = a
+        self.b = a
         self.aNorms.append(aNorm)
+        self.aArchive.append(archive)
+
+    def normalizeTensor(self, a):
+        aNorm = a.norm()
+        a.a /= aNorm 
+        return aNorm
 
     # def initialIterate(self):
     #     # contract a, b so that we only hold one tensor
@@ -179,10 +190,9 @@ class SquareTRG:
         dl = Tensor(shape = (vDim, hDim, uB.shape[1]), labels = ['u', 'r', 'o'], data = uB)
         ur = Tensor(shape = (vDim, hDim, vB.shape[1]), labels = ['d', 'l', 'o'], data = vB)
 
-        self.a = self.iterateFTN.contract(TensorDict({'ul': ul, 'ur': ur, 'dl': dl, 'dr': dr}))
-        self.a.degreeOfFreedom = dof * 2
-        self.b = self.a 
-        self.appendToArchive()
+        newTensor = self.iterateFTN.contract(TensorDict({'ul': ul, 'ur': ur, 'dl': dl, 'dr': dr}))
+        newTensor.degreeOfFreedom = dof * 2
+        self.appendToArchive(newTensor)
         self.errors.append((errorA, errorB))
 
     def logZDensity(self):
-- 
2.43.0


From a89003fa92e99d8b950a18a88a48b0d101ae3635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 16/41] fix: a failed CTMRG iteration records nothing

---
 src/CTL/examples/CTMRG.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/CTL/examples/CTMRG.py b/src/CTL/examples/CTMRG.py
index ddbef60..0a2496a 100644
--- a/src/CTL/examples/CTMRG.py
+++ b/src/CTL/examples/CTMRG.py
@@ -33,8 +33,10 @@ class CTMRG:
         self.errors = []
 
     def pushTensors(self):
-        for tensorName in self.tensors:
-            self.records[tensorName].append((self.tensors[tensorName].copy(), self.logScale[tensorName]))
+        # copy all tensors before recording any of them
+        copies = [(tensorName, self.tensors[tensorName].copy()) for tensorName in self.tensors]
+        for tensorName, tensor in copies:
+            self.records[tensorName].append((tensor, self.logScale[tensorName]))
 
     def setFTNs(self):
         self.hEdgeExtendFTN = CTMRGHEdgeExtendFTN()
@@ -88,8 +90,6 @@ class CTMRG:
         return newCorner, newHEdge, newVEdge, error
 
     def iterate(self):
-        self.pushTensors()
-
         corner = self.tensors['corner'].copy()
         hEdge = self.tensors['hEdge'].copy()
         vEdge = self.tensors['vEdge'].copy()
@@ -113,6 +113,9 @@ class CTMRG:
         logScale['vEdge'] = xplib.xp.log(vEdgeNorm) + self.logScale['vEdge']
         logScale['hEdge'] = xplib.xp.log(hEdgeNorm) + self.logScale['hEdge']
 
+        # everything has been calculated: record the old tensors and replace them
+        self.pushTensors()
+
         self.logScale = logScale
         self.tensors['corner'] = newCorner
         self.tensors['vEdge'] = newVEdge
-- 
2.43.0


From 86a282a5b24260680a1863f4eccbdaa652aea7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 17/41] fix: a failed iteration of impurity tensors records
 nothing

---
 src/CTL/examples/impurity.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/CTL/examples/impurity.py b/src/CTL/examples/impurity.py
index 11aac48..4f3eaa2 100644
--- a/src/CTL/examples/impurity.py
+++ b/src/CTL/examples/impurity.py
@@ -29,18 +29,23 @@ class ImpurityTensorNetwork:
         # RG must have: iterate, impurityIterate
         # self.RG.impurityIterate(tensors, loopIdx)
 
-    def appendToArchive(self, norm):
+    def appendToArchive(self, impurities, norm):
+        # record impurities as the current ones; if something fails, then nothing is recorded
         # print('norm = {}'.format(norm))
-        for a in self.impurities:
+        impurities = [a.copy() for a in impurities]
+        for a in impurities:
             a.a /= norm 
+        archive = [a.copy() for a in impurities]
+
+        self.impurities = impurities
         self.norms.append(norm)
-        self.impurityArchive.append([a.copy() for a in self.impurities])
+        self.impurityArchive.append(archive)
 
     def initialize(self):
         assert (self.RG is not None), "Error: ImpurityTensorNetwork cannot initialize if RG is None."
         # here we only consider normalization with original norms
         # further implementation will be done next
-        self.appendToArchive(self.RG.getNorm(0))
+        self.appendToArchive(self.impurities, self.RG.getNorm(0))
         self.initialized = True
 
     def iterate(self):
@@ -82,9 +87,8 @@ class ImpurityTensorNetwork:
             resTensor = Tensor(labels = resLabels, data = resA, degreeOfFreedom = newDOF)
             newImpurities.append(resTensor)
 
+        self.appendToArchive(newImpurities, norm)
         self.iterateIdx += 1
-        self.impurities = newImpurities
-        self.appendToArchive(norm)
     
     def measureObservables(self):
         res = []
-- 
2.43.0


From 24ecc5e1799b0884ce36d1160fdd79babbe78ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 18/41] fix: adding and removing names does not change the
 length of new names

---
 src/CTL/funcs/stringSet.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/CTL/funcs/stringSet.py b/src/CTL/funcs/stringSet.py
index e219d29..d4f6e7a 100644
--- a/src/CTL/funcs/stringSet.py
+++ b/src/CTL/funcs/stringSet.py
@@ -66,7 +66,6 @@ class StringSet:
         """
         assert not (s in self.stringSet), funcs.errorMessage(err = "Error: name '{}' is already used.".format(s), location = "StringSet.add")
         self.stringSet.add(s)
-        self.n += 1
 
     def remove(self, s):
         """
@@ -84,7 +83,6 @@ class StringSet:
         """
         assert (s in self.stringSet), funcs.errorMessage(err = "Error: name '{}' is not used.".format(s), location = "StringSet.remove")
         self.stringSet.remove(s)
-        self.n -= 1
 
     def contains(self, s):
         """
-- 
2.43.0


From 323c1f3f6363bd6f4a3bda4f9ef3a9ac74e7935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 19/41] fix: a TensorDict does not share the caller's dict

---
 src/CTL/tensornetwork/tensordict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensornetwork/tensordict.py b/src/CTL/tensornetwork/tensordict.py
index 54b9a07..3cd1368 100644
--- a/src/CTL/tensornetwork/tensordict.py
+++ b/src/CTL/tensornetwork/tensordict.py
@@ -5,7 +5,7 @@ class TensorDict:
         if (tensorDict is None):
             self.tensors = dict()
         else:
-            self.tensors = tensorDict
+            self.tensors = dict(tensorDict) # not the caller's own dict
         # print(self.tensors.keys())
 
     @property 
-- 
2.43.0


From d6f138c821e2fd15716c25de31d420823b880faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 20/41] fix: loading a data file works without np.float and
 closes the file

---
 src/CTL/funcs/funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 854a43a..3e3aa15 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -305,8 +305,8 @@ def loadData(fileName):
     numpy.ndarray
         A 2-d array of the file, columns and rows as two dimensions.
     """
-    f = open(fileName, 'r')
-    data = xplib.xp.array([xplib.xp.array([xplib.xp.float(x) for x in line.strip().split(' ')]) for line in f])
+    with open(fileName, 'r') as f:
+        data = xplib.xp.array([[float(x) for x in line.strip().split(' ')] for line in f])
     return data
 
 def randomString(n = 10):
-- 
2.43.0


From c864dba27541fac2e152de12fdc994ea11134948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 21/41] Revert "fix: a failed iteration of impurity tensors
 records nothing"

This reverts commit 86a282a5b24260680a1863f4eccbdaa652aea7ce.
---
 src/CTL/examples/impurity.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/CTL/examples/impurity.py b/src/CTL/examples/impurity.py
index 4f3eaa2..11aac48 100644
--- a/src/CTL/examples/impurity.py
+++ b/src/CTL/examples/impurity.py
@@ -29,23 +29,18 @@ class ImpurityTensorNetwork:
         # RG must have: iterate, impurityIterate
         # self.RG.impurityIterate(tensors, loopIdx)
 
-    def appendToArchive(self, impurities, norm):
-        # record impurities as the current ones; if something fails, then nothing is recorded
+    def appendToArchive(self, norm):
         # print('norm = {}'.format(norm))
-        impurities = [a.copy() for a in impurities]
-        for a in impurities:
+        for a in self.impurities:
             a.a /= norm 
-        archive = [a.copy() for a in impurities]
-
-        self.impurities = impurities
         self.norms.append(norm)
-        self.impurityArchive.append(archive)
+        self.impurityArchive.append([a.copy() for a in self.impurities])
 
     def initialize(self):
         assert (self.RG is not None), "Error: ImpurityTensorNetwork cannot initialize if RG is None."
         # here we only consider normalization with original norms
         # further implementation will be done next
-        self.appendToArchive(self.impurities, self.RG.getNorm(0))
+        self.appendToArchive(self.RG.getNorm(0))
         self.initialized = True
 
     def iterate(self):
@@ -87,8 +82,9 @@ class ImpurityTensorNetwork:
             resTensor = Tensor(labels = resLabels, data = resA, degreeOfFreedom = newDOF)
             newImpurities.append(resTensor)
 
-        self.appendToArchive(newImpurities, norm)
         self.iterateIdx += 1
+        self.impurities = newImpurities
+        self.appendToArchive(norm)
     
     def measureObservables(self):
         res = []
-- 
2.43.0


From 2652ede14a899ed340c14664ba8edfa1e5bbf59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 22/41] Revert "fix: a failed CTMRG iteration records nothing"

This reverts commit a89003fa92e99d8b950a18a88a48b0d101ae3635.
---
 src/CTL/examples/CTMRG.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/CTL/examples/CTMRG.py b/src/CTL/examples/CTMRG.py
index 0a2496a..ddbef60 100644
--- a/src/CTL/examples/CTMRG.py
+++ b/src/CTL/examples/CTMRG.py
@@ -33,10 +33,8 @@ class CTMRG:
         self.errors = []
 
     def pushTensors(self):
-        # copy all tensors before recording any of them
-        copies = [(tensorName, self.tensors[tensorName].copy()) for tensorName in self.tensors]
-        for tensorName, tensor in copies:
-            self.records[tensorName].append((tensor, self.logScale[tensorName]))
+        for tensorName in self.tensors:
+            self.records[tensorName].append((self.tensors[tensorName].copy(), self.logScale[tensorName]))
 
     def setFTNs(self):
         self.hEdgeExtendFTN = CTMRGHEdgeExtendFTN()
@@ -90,6 +88,8 @@ class CTMRG:
         return newCorner, newHEdge, newVEdge, error
 
     def iterate(self):
+        self.pushTensors()
+
         corner = self.tensors['corner'].copy()
         hEdge = self.tensors['hEdge'].copy()
         vEdge = self.tensors['vEdge'].copy()
@@ -113,9 +113,6 @@ class CTMRG:
         logScale['vEdge'] = xplib.xp.log(vEdgeNorm) + self.logScale['vEdge']
         logScale['hEdge'] = xplib.xp.log(hEdgeNorm) + self.logScale['hEdge']
 
-        # everything has been calculated: record the old tensors and replace them
-        self.pushTensors()
-
         self.logScale = logScale
         self.tensors['corner'] = newCorner
         self.tensors['vEdge'] = newVEdge
-- 
2.43.0


From ebb5dd425b00b59d82b8ec886e146a5d5fd8e442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 23/41] Revert "fix: a failed TRG iteration records nothing"

This reverts commit a0a75cf4af297bf0953f56931476df2fb4d39378.
---
 src/CTL/examples/TRG.py | 92 ++++++++++++++++++-----------------------
 1 file changed, 41 insertions(+), 51 deletions(-)

diff --git a/src/CTL/examples/TRG.py b/src/CTL/examples/TRG.py
index 4f57bef..04a7c5b 100644
--- a/src/CTL/examples/TRG.py
+++ b/src/CTL/examples/TRG.py
@@ -39,44 +39,38 @@ class TriangleTRG:
         self.aArchive = []
         self.bArchive = []
 
-        self.appendToArchive(self.a, self.b)
-
-    def appendToArchive(self, a, b):
-        # record a, b as the current tensors; if something fails, then nothing is recorded
-        aNorm, bNorm = self.normalizeTensors(a, b)
-        aArchive, bArchive = a.copy(), b.copy()
-
-        self.a, self.b = a, b
+        self.appendToArchive()
+
+    def appendToArchive(self):
+        self.normalizeTensors()
+        self.aArchive.append(self.a.copy())
+        self.bArchive.append(self.b.copy())
+
+    def normalizeTensors(self):
+        aNorm = self.a.norm()
+        self.a.a /= aNorm 
+        bNorm = self.b.norm()
+        self.b.a /= bNorm 
         self.aNorms.append(aNorm)
         self.bNorms.append(bNorm)
-        self.aArchive.append(aArchive)
-        self.bArchive.append(bArchive)
-
-    def normalizeTensors(self, a, b):
-        aNorm = a.norm()
-        a.a /= aNorm 
-        bNorm = b.norm()
-        b.a /= bNorm 
-        return aNorm, bNorm
 
     def iterate(self):
         # print('iterate:')
         if (self.iterateFTN is None):
             self.iterateFTN = triangleContractFTN()
 
-        # work on copies: self.a and self.b are only replaced at the end
-        a, b = self.a.copy(), self.b.copy()
-        a.addTensorTag('a')
-        b.addTensorTag('b')
+        self.a.addTensorTag('a')
+        self.b.addTensorTag('b')
 
         dof = self.a.degreeOfFreedom
-        makeLink(a.getLeg('a-1'), b.getLeg('b-1'))
-        iTensor = contractTwoTensors(a, b)
+        makeLink(self.a.getLeg('a-1'), self.b.getLeg('b-1'))
+        iTensor = contractTwoTensors(self.a, self.b)
 
         a2Dim, b2Dim, a3Dim, b3Dim = iTensor.shapeOfLabels(['a-2', 'b-2', 'a-3', 'b-3'])
 
         iMat = iTensor.toMatrix(rows = ['a-2', 'b-2'], cols = ['a-3', 'b-3'])
         u, v, error = SVDDecomposition(iMat, self.chi)
+        self.errors.append(error)
         # print(u.shape, v.shape)
         # print(iTensor.shape)
 
@@ -86,14 +80,14 @@ class TriangleTRG:
         uTensor = makeTriangleTensor(u, labels = ['2', '3', '1'])
         vTensor = makeTriangleTensor(v, labels = ['2', '3', '1'])
 
-        newA = self.iterateFTN.contract(makeTriangleTensorDict(uTensor))
-        newB = self.iterateFTN.contract(makeTriangleTensorDict(vTensor))
+        self.a = self.iterateFTN.contract(makeTriangleTensorDict(uTensor))
+        self.b = self.iterateFTN.contract(makeTriangleTensorDict(vTensor))
 
-        newA.degreeOfFreedom = dof * 3
-        newB.degreeOfFreedom = dof * 3
+        self.a.degreeOfFreedom = dof * 3
+        self.b.degreeOfFreedom = dof * 3
         
-        self.appendToArchive(newA, newB)
-        self.errors.append(error)
+        # self.normalizeTensors()
+        self.appendToArchive()
 
     def logZDensity(self):
         # print(self.aArchive, self.bArchive)
@@ -125,12 +119,6 @@ class SquareTRG:
 
         if (self.a.degreeOfFreedom is None):
             self.a.degreeOfFreedom = 1
-
-        self.aNorms = []
-        self.errors = []
-
-        self.aArchive = []
-
         if (b is not None):
             if (isinstance(b, Tensor)):
                 self.b = b.copy()
@@ -139,22 +127,23 @@ class SquareTRG:
             
             self.iterate()
         else:
-            self.appendToArchive(self.a)
+            self.b = self.a
 
-    def appendToArchive(self, a):
-        # record a as the current tensor; if something fails, then nothing is recorded
-        aNorm = self.normalizeTensor(a)
-        archive = a.copy()
+        self.aNorms = []
+        self.errors = []
 
-        self.a = a
-        self.b = a
-        self.aNorms.append(aNorm)
-        self.aArchive.append(archive)
+        self.aArchive = []
+
+        self.appendToArchive()
 
-    def normalizeTensor(self, a):
-        aNorm = a.norm()
-        a.a /= aNorm 
-        return aNorm
+    def appendToArchive(self):
+        self.normalizeTensors()
+        self.aArchive.append(self.a.copy())
+
+    def normalizeTensors(self):
+        aNorm = self.a.norm()
+        self.a.a /= aNorm 
+        self.aNorms.append(aNorm)
 
     # def initialIterate(self):
     #     # contract a, b so that we only hold one tensor
@@ -190,9 +179,10 @@ class SquareTRG:
         dl = Tensor(shape = (vDim, hDim, uB.shape[1]), labels = ['u', 'r', 'o'], data = uB)
         ur = Tensor(shape = (vDim, hDim, vB.shape[1]), labels = ['d', 'l', 'o'], data = vB)
 
-        newTensor = self.iterateFTN.contract(TensorDict({'ul': ul, 'ur': ur, 'dl': dl, 'dr': dr}))
-        newTensor.degreeOfFreedom = dof * 2
-        self.appendToArchive(newTensor)
+        self.a = self.iterateFTN.contract(TensorDict({'ul': ul, 'ur': ur, 'dl': dl, 'dr': dr}))
+        self.a.degreeOfFreedom = dof * 2
+        self.b = self.a 
+        self.appendToArchive()
         self.errors.append((errorA, errorB))
 
     def logZDensity(self):
-- 
2.43.0


From 0e220c2ce00dbf6b8660dd1840160afe3ec75dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 24/41] Revert "fix: a failed HOTRG iteration records nothing"

This reverts commit bc2f076ef99d8ba678bb6ba0aa17054d9d23e476.
---
 src/CTL/examples/HOTRG.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/CTL/examples/HOTRG.py b/src/CTL/examples/HOTRG.py
index ffec660..f38191e 100644
--- a/src/CTL/examples/HOTRG.py
+++ b/src/CTL/examples/HOTRG.py
@@ -41,24 +41,19 @@ class HOTRG:
         self.directChoices = []
         self.projectors = []
 
-        self.appendToArchive(self.a)
+        self.appendToArchive()
         # self.iterateChoices = []
 
         self.impurityParts = 2
 
-    def appendToArchive(self, a):
-        # record a as the current tensor; if something fails, then nothing is recorded
-        aNorm = self.normalizeTensor(a)
-        archive = a.copy()
+    def appendToArchive(self):
+        self.normalizeTensors()
+        self.aArchive.append(self.a.copy())
 
-        self.a = a
+    def normalizeTensors(self):
+        aNorm = self.a.norm()
+        self.a.a /= aNorm 
         self.aNorms.append(aNorm)
-        self.aArchive.append(archive)
-
-    def normalizeTensor(self, a):
-        aNorm = a.norm()
-        a.a /= aNorm 
-        return aNorm
 
     def directedIterateTrial(self, d):
         funcs.assertInSet(d, ['u', 'd', 'l', 'r'], 'direction')
@@ -136,9 +131,9 @@ class HOTRG:
                 projectTensor = projector['projectTensor']
         
         # self.directChoices.append((bestDirection, projectTensor))
-        newTensor = self.directedIterate(bestDirection, projectTensor)
-        newTensor.degreeOfFreedom = dof * 2
-        self.appendToArchive(newTensor)
+        self.a = self.directedIterate(bestDirection, projectTensor)
+        self.a.degreeOfFreedom = dof * 2
+        self.appendToArchive()
         self.errors.append(minimumError)
         self.directChoices.append(bestDirection)
         self.projectors.append(projectTensor)
-- 
2.43.0


From 6cf0da4b51b4789e03b6d40b6f7a876000d3ef4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 25/41] Revert "fix: contracting through MPSs leaves the
 tensors intact and keeps free labels"

This reverts commit 9b84dfd28d2b9681d8027c69a0f9ea3c1bbc615e.
---
 src/CTL/examples/MPS.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/CTL/examples/MPS.py b/src/CTL/examples/MPS.py
index 23aa7db..5707ab1 100644
--- a/src/CTL/examples/MPS.py
+++ b/src/CTL/examples/MPS.py
@@ -558,10 +558,6 @@ def contractWithMPS(tensorList, chi = 16, seq = None, greedyFlag = True):
         else:
             seq = generateOptimalSequence(tensorList)
     # print('sequence = {}'.format(seq))
-    # creating MPSes takes the legs away from tensors: work on a copy
-    tensorList = copyTensorList(tensorList)
-    legNames = {leg : leg.name for tensor in tensorList for leg in tensor.legs}
-
     mpses = [createMPSFromTensor(tensor, chi = chi) for tensor in tensorList]
 
     n = len(tensorList)
@@ -585,11 +581,6 @@ def contractWithMPS(tensorList, chi = 16, seq = None, greedyFlag = True):
         # indexA, indexB = commonLegs(mpses[0], mpses[1])
 
     if (isinstance(mpses[0], FreeBoundaryMPS)):
-        # free legs get back the names they have in tensorList
-        for i in range(mpses[0].n):
-            for leg in mpses[0].getTensor(i).legs:
-                if (leg in legNames):
-                    leg.name = legNames[leg]
         return mpses[0].toTensor()
     else:
         return mpses[0]
\ No newline at end of file
-- 
2.43.0


From 6cd20ab18a1edf8b4f552b31dc2b061f48253e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 26/41] Revert "fix: the default chi of an MPS is its largest
 bond dimension"

This reverts commit a371b15bab8cdd595108202bbf9abf8d7edb8121.
---
 src/CTL/examples/MPS.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/CTL/examples/MPS.py b/src/CTL/examples/MPS.py
index 5707ab1..45ba4b4 100644
--- a/src/CTL/examples/MPS.py
+++ b/src/CTL/examples/MPS.py
@@ -46,16 +46,21 @@ class FreeBoundaryMPS:
 
     def getChi(self, chi):
         # if chi is None: then take the maximum from bonds shared
+        # otherwise, if bonds sharing larger than chi, then warning and update chi
         # otherwise, take chi
-        if (chi is not None):
+        bondChi = -1
+        for i in range(self.n - 1):
+            bond = shareBonds(self._tensors[i], self._tensors[i + 1])[0]
+            bondChi = min(bondChi, bond.legs[0].dim) 
+        
+        if (chi is None):
+            return bondChi 
+        elif (bondChi > chi):
+            warnings.warn(funcs.warningMessage('required chi {} is lower than real bond chi {}, set to {}.'.format(chi, bondChi, bondChi), location = "FreeBoundaryMPS.getChi"))
+            return bondChi 
+        else:
             return chi
 
-        # a single tensor has no bond: its only leg
-        bondChi = self._tensors[0].shape[0]
-        if (self.n > 1):
-            bondChi = max([shareBonds(self._tensors[i], self._tensors[i + 1])[0].legs[0].dim for i in range(self.n - 1)])
-        return bondChi
-
     def renameBonds(self):
         # 'l' and 'r' for internal bonds
         # 'o' for external bonds
-- 
2.43.0


From 3b4c8670e06db0322e701784f718d43c2430b4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 27/41] Revert "fix: failed MPS operations leave the MPS and
 its tensors as they were"

This reverts commit 570b596a633ab420fcdf04e5956d1bb4546447f0.
---
 src/CTL/examples/MPS.py     | 13 +--------
 src/CTL/examples/Schimdt.py |  2 --
 src/CTL/tensor/rollback.py  | 55 -------------------------------------
 3 files changed, 1 insertion(+), 69 deletions(-)
 delete mode 100644 src/CTL/tensor/rollback.py

diff --git a/src/CTL/examples/MPS.py b/src/CTL/examples/MPS.py
index 45ba4b4..8ce70b4 100644
--- a/src/CTL/examples/MPS.py
+++ b/src/CTL/examples/MPS.py
@@ -11,7 +11,6 @@ from CTL.examples.Schimdt import SchimdtDecomposition, matrixSchimdtDecompositio
 from CTL.tensor.tensorFunc import isIsometry
 import warnings
 from CTL.tensor.contract.link import makeLink
-from CTL.tensor.rollback import restoreOnError
 
 class FreeBoundaryMPS:
 
@@ -81,8 +80,7 @@ class FreeBoundaryMPS:
             raise ValueError(funcs.errorMessage("tensorList {} cannot be considered as an MPS".format(tensorList), location = "FreeBoundaryMPS.__init__"))
         
         if (inplace):
-            # the tensors themselves are used, but the list belongs to the caller
-            self._tensors = list(tensorList)
+            self._tensors = tensorList 
         else:
             self._tensors = copyTensorList(tensorList, linkOutgoingBonds = True)
         # self._tensors = copyTensorList(tensorList)
@@ -125,7 +123,6 @@ class FreeBoundaryMPS:
     #             self._tensors[i] = u
     #             self._tensors[i - 1] = sv
 
-    @restoreOnError
     def canonicalize(self, idx):
         '''
         canonicalize the MPS, and the only non-isometry will be put at 0 <= idx < n
@@ -157,7 +154,6 @@ class FreeBoundaryMPS:
     def getTensor(self, idx):
         return self._tensors[idx]
 
-    @restoreOnError
     def swap(self, aIdx, bIdx):
         # tensorA and tensorB are tensors in tensorList
         assert ((aIdx >= 0) and (aIdx < self.n) and (bIdx < self.n) and (bIdx >= 0) and (abs(aIdx - bIdx) == 1)), funcs.errorMessage("index {} and {} are not valid for MPS with {} tensors.".format(aIdx, bIdx, self.n), location = "FreeBoundaryMPS.swap")
@@ -212,7 +208,6 @@ class FreeBoundaryMPS:
     def isIndex(self, idx):
         return (isinstance(idx, int) and (idx >= 0) and (idx < self.n))
 
-    @restoreOnError
     def moveTensor(self, begIndex, endIndex, warningFlag = True):
         '''
         move then tensor at begIndex to endIndex
@@ -232,7 +227,6 @@ class FreeBoundaryMPS:
             for i in range(begIndex, endIndex, -1):
                 self.swap(i, i - 1)
 
-    @restoreOnError
     def makeAdjacent(self, idx1, idx2):
         funcName = 'FreeBoundaryMPS.makeAdjacent'
         assert (self.isIndex(idx1) and self.isIndex(idx2)), funcs.errorMessage("{} or {} is invalid index.".format(idx1, idx2), location = funcName)
@@ -352,7 +346,6 @@ def commonBonds(mpsA, mpsB):
     
     return bonds
 
-@restoreOnError
 def contractMPS(mpsA, mpsB):
     '''
     solution 0.
@@ -407,7 +400,6 @@ def contractMPS(mpsA, mpsB):
 
     return FreeBoundaryMPS(newTensorList, chi = min(mpsA.chi, mpsB.chi))
 
-@restoreOnError
 def doubleMerge(mpsA, mpsB, idxA, idxB):
 
     funcName = 'CTL.examples.MPS.doubleMerge'
@@ -442,7 +434,6 @@ def getBondTensorIndices(mpsA, mpsB, bond):
 
     return mpsA.tensorIndex(tensorA), mpsB.tensorIndex(tensorB)
 
-@restoreOnError
 def doubleMergeByBond(mpsA, mpsB, bond1, bond2):
     funcName = 'CTL.examples.MPS.doubleMergeByBond'
     idxA1, idxB1 = getBondTensorIndices(mpsA, mpsB, bond1)
@@ -457,7 +448,6 @@ def doubleMergeByBond(mpsA, mpsB, bond1, bond2):
     assert (idxA1 + 1 == idxA2) and (idxB1 + 1 == idxB2), funcs.errorMessage("index is not adjacent after swapping: ({}, {}) and ({}, {}).".format(idxA1, idxA2, idxB1, idxB2), location = funcName)
     return doubleMerge(mpsA, mpsB, idxA1, idxB1)
 
-@restoreOnError
 def mergeMPS(mpsA, mpsB, beginFlag = True):
     '''
     merge the common bonds between mpsA and mpsB to one bond
@@ -494,7 +484,6 @@ def mergeMPS(mpsA, mpsB, beginFlag = True):
     # otherwise, we need to repeat doubleMerge until there is one left
     # use the bond to find the tensors?
 
-@restoreOnError
 def createMPSFromTensor(tensor, chi = 16):
     '''
     tensor is a real Tensor with n outer legs
diff --git a/src/CTL/examples/Schimdt.py b/src/CTL/examples/Schimdt.py
index 3a00058..93a3857 100644
--- a/src/CTL/examples/Schimdt.py
+++ b/src/CTL/examples/Schimdt.py
@@ -6,11 +6,9 @@ from CTL.tensor.tensor import Tensor
 from CTL.tensor.leg import Leg
 from CTL.tensor.diagonalTensor import DiagonalTensor
 from CTL.tensor.contract.link import makeLink
-from CTL.tensor.rollback import restoreOnError
 # import numpy as np
 
 
-@restoreOnError
 def SchimdtDecomposition(ta, tb, chi, squareRootSeparation = False, swapLabels = ([], []), singularValueEps = 1e-10):
     '''
     Schimdt decomposition between tensor ta and tb
diff --git a/src/CTL/tensor/rollback.py b/src/CTL/tensor/rollback.py
deleted file mode 100644
index e293411..0000000
--- a/src/CTL/tensor/rollback.py
+++ /dev/null
@@ -1,55 +0,0 @@
-import functools
-from CTL.tensorbase.tensorbase import TensorBase
-
-def saveState(objs):
-    """
-    Remember everything in-place functions may change in tensors and MPSes: data, legs, names of legs and bonds.
-
-    Parameters
-    ----------
-    objs : list
-        Tensors, and objects (like MPS) saving their tensors in the attribute _tensors. Anything else is ignored.
-
-    Returns
-    -------
-    list of (object, dict)
-        The state, to be used in restoreState.
-    """
-    state = []
-
-    def save(obj, attrs):
-        state.append((obj, {attr : obj.__dict__[attr] for attr in attrs if (attr in obj.__dict__)}))
-
-    for obj in objs:
-        tensors = []
-        if (isinstance(obj, TensorBase)):
-            tensors = [obj]
-        elif (hasattr(obj, '_tensors')):
-            tensors = list(obj._tensors)
-            state.append((obj, {'_tensors': tensors, 'activeIdx': obj.activeIdx}))
-
-        for tensor in tensors:
-            save(tensor, ['a', 'legs', '_length'])
-            for leg in tensor.legs:
-                save(leg, ['name', 'tensor', 'dim', 'bond'])
-                if (leg.bond is not None):
-                    save(leg.bond, ['legs'])
-    return state
-
-def restoreState(state):
-    for obj, attrs in state:
-        obj.__dict__.update(attrs)
-
-def restoreOnError(func):
-    """
-    Decorator for functions that change their tensors (or MPSes) in more than one step: if a step fails, then the arguments are given back as they were.
-    """
-    @functools.wraps(func)
-    def wrapper(*args, **kwargs):
-        state = saveState(list(args) + list(kwargs.values()))
-        try:
-            return func(*args, **kwargs)
-        except BaseException:
-            restoreState(state)
-            raise
-    return wrapper
-- 
2.43.0


From 030b3ebea426ad50caa4ea6ce75ae56abed30cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:19 +0000
Subject: [PATCH 28/41] fix: renaming the only link of a pair gives each side
 its own name of a pair of names

---
 src/CTL/tensor/contract/link.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/contract/link.py b/src/CTL/tensor/contract/link.py
index dcd70dd..6b9cf03 100644
--- a/src/CTL/tensor/contract/link.py
+++ b/src/CTL/tensor/contract/link.py
@@ -97,8 +97,11 @@ def mergeLink(ta, tb, bondName = None, renameWarning = True):
         if (renameWarning):
             warnings.warn(funcs.warningMessage(warn = 'mergeLink cannot merge links between two tensors {} and {} sharing one bond, only rename'.format(ta, tb), location = funcName), RuntimeWarning)
         if (bondName is not None):
-            mergeLegA[0].name = bondName 
-            mergeLegB[0].name = bondName
+            if (isinstance(bondName, str)):
+                mergeLegA[0].name = bondName 
+                mergeLegB[0].name = bondName
+            else:
+                mergeLegA[0].name, mergeLegB[0].name = bondName # tuple/list
         return ta, tb
 
     # otherwise, we need to do outProduct, and then merge
-- 
2.43.0


From ba4f60d55652db9289ab1d7efbb0af94da75fac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:11 +0000
Subject: [PATCH 29/41] fix: the symmetric difference of two lists keeps their
 order

It came in the order of a set, so for strings it changed from one interpreter to the next.
---
 src/CTL/funcs/funcs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 3e3aa15..970525e 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -182,7 +182,10 @@ def listSymmetricDifference(x, y):
     list of any
         The list of elements that appear exactly once in either x or y.
     """
-    return list(set(x) ^ set(y))
+    xSet, ySet = set(x), set(y)
+    onlyX = [elem for elem in x if elem not in ySet]
+    onlyY = [elem for elem in y if elem not in xSet]
+    return list(dict.fromkeys(onlyX + onlyY))
 
 def intToBitList(x, dim):
     """
-- 
2.43.0


From fc1ee0b6a5ffbec46d8df99bec32db59946e5d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:18 +0000
Subject: [PATCH 30/41] fix: a tensor graph answers for its current edges

---
 src/CTL/tensor/contract/tensorGraph.py | 30 ++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index 47df9ce..c6665d2 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -42,11 +42,23 @@ class TensorGraph(UndirectedGraph):
     def __init__(self, n, diagonalFlags = None):
         super().__init__(n)
         self.indexed = False
+        self.optimalCost = None
         if (diagonalFlags is None):
             self.diagonalFlags = [False] * n
         else:
             self.diagonalFlags = diagonalFlags
 
+    def edgesChanged(self):
+        # indices and costs obtained before belong to the edges before
+        self.updated = True
+        self.indexed = False
+        self.optimalCost = None
+
+    def addEdge(self, idx1, idx2, weight = None):
+        newEdge = super().addEdge(idx1, idx2, weight = weight)
+        self.edgesChanged()
+        return newEdge
+
     def addFreeEdge(self, idx, weight = None):
         """
         Add a free edge to a vertex.
@@ -59,6 +71,7 @@ class TensorGraph(UndirectedGraph):
             If int, then added to the added edge as weight, used for cost calculation.
         """
         self.v[idx].addEdge(None, weight = weight)
+        self.edgesChanged()
 
     def addEdgeIndex(self):
         """
@@ -424,12 +437,17 @@ class TensorGraph(UndirectedGraph):
             #print('result = {}'.format(self.contractRes[full_s]))
             # print('optimal cost = {}'.format(self.optimalCost[full_s]))
             return self.optimalSeq[full_s]
-        if (greedy):
-            return greedySearch()
-        elif (bf):
-            return bruteForce()
-        else:
-            return capping()
+        try:
+            if (greedy):
+                return greedySearch()
+            elif (bf):
+                return bruteForce()
+            else:
+                return capping()
+        except BaseException:
+            # costs of an unfinished search are no result
+            self.optimalCost = None
+            raise
 
 def decodeSubText(t):
     currName = None
-- 
2.43.0


From 938c90f3473c3f5b57177d501c353ed9274ae412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:32 +0000
Subject: [PATCH 31/41] fix: contracting over given bonds works whichever end
 comes first

---
 src/CTL/tensor/contract/contract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index 00c1ea6..039d75d 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -107,8 +107,8 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
 
         # return Tensor(labels = labels, data = data, legs = legs)
 
-    contractALegs = [bond.legs[0] for bond in bonds]
-    contractBLegs = [bond.legs[1] for bond in bonds]
+    contractALegs = [bond.sideLeg(ta) for bond in bonds]
+    contractBLegs = [bond.sideLeg(tb) for bond in bonds]
 
     taRemainLegs = ta.complementLegs(contractALegs)
     tbRemainLegs = tb.complementLegs(contractBLegs)
-- 
2.43.0


From 938f17e18b080a829c417074282f30044027023c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 32/41] fix: shape-only tensors: order of legs after
 contracting a diagonal tensor, summing out legs without data

---
 src/CTL/tensor/contract/contract.py | 3 +++
 src/CTL/tensor/diagonalTensor.py    | 6 ++++--
 src/CTL/tensor/tensor.py            | 3 ++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index 039d75d..112a507 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -126,6 +126,9 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
     
     if (ta.diagonalFlag):
         if (tensorLikeContract):
+            # the same order of legs as for the data below
+            newLegs = tbRemainLegs + taRemainLegs 
+            newShape = tuple([leg.dim for leg in newLegs])
             return Tensor(shape = newShape, data = None, legs = newLegs, tensorLikeFlag = True)
         # then tb is not diagonal tensor
         # 1. calculate the core with broadcast
diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 1afd52e..7768f80 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -745,13 +745,15 @@ class DiagonalTensor(Tensor):
         # if weights is None:
         if (len(remainLegs) == 0):
             # not a diagonal tensor, since the last sum will give a single value
-            if weights is None:
+            if (self.tensorLikeFlag):
+                pass
+            elif weights is None:
                 self.a = xplib.xp.array(xplib.xp.sum(self.a))
             else:
                 self.a = xplib.xp.array(xplib.xp.sum(self.a * weights))
             self._length = 1
         else:
-            if (weights is not None):
+            if (weights is not None) and (not self.tensorLikeFlag):
                 self.a = self.a * weights
         # only after the data, which may fail
         self.legs = remainLegs
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 86a0f53..32589a2 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -1100,7 +1100,8 @@ class Tensor(TensorBase):
         
         idx = self.legs.index(leg)
         # self.a = xplib.xp.sum(self.a, axis = idx)
-        self.a = funcs.sumOnAxis(self.a, axis = idx, weights = weights)
+        if (not self.tensorLikeFlag):
+            self.a = funcs.sumOnAxis(self.a, axis = idx, weights = weights)
         self.legs = self.legs[:idx] + self.legs[(idx + 1):]
     
     def sumOutLegByLabel(self, label, backward = False, weights = None):
-- 
2.43.0


From ab57607191b886146e0c6bb5bf4e67304dc76cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 33/41] fix: truncate by the scale of the singular values and
 keep at least one

---
 src/CTL/tensor/contract/contract.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index 112a507..07b3f77 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -259,7 +259,10 @@ def merge(ta, tb, chi = None, bondName = None, renameWarning = True):
 
         u, s, vh = xplib.xp.linalg.svd(mat)
 
-        chi = min([chi, funcs.nonZeroElementN(s), matA.shape[0], matB.shape[1]])
+        # what counts as zero depends on the scale of the tensors, and a bond has at least dimension 1 even if everything is zero
+        eps = 1e-10 * s[0] if (len(s) > 0) else 0.0
+        rank = max(1, funcs.nonZeroElementN(s, eps = eps))
+        chi = min([chi, rank, matA.shape[0], matB.shape[1]])
         u = u[:, :chi]
         s = s[:chi]
         vh = vh[:chi]
-- 
2.43.0


From c167d160a5ceebdfeeb542c6cadc859b83f6646f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 34/41] fix: renameLabels finds all legs by their old names

---
 src/CTL/tensor/tensor.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 32589a2..ebf583f 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -752,8 +752,15 @@ class Tensor(TensorBase):
 
         """
         assert (len(changeFrom) == len(changeTo)), "Error: renameLabels need two list with equal number of labels, gotten {} and {}".format(changeFrom, changeTo)
+        # find the legs by their old names only: a leg already renamed must not be found again (e.g. when two labels are swapped)
+        names = self.labels
         for cf, ct in zip(changeFrom, changeTo):
-            self.renameLabel(cf, ct)
+            if not (cf in names):
+                warnings.warn(funcs.warningMessage(warn = 'leg name {} does not exist, no rename happened'.format(cf), location = 'Tensor.renameLabels'), RuntimeWarning)
+                continue
+            legIndex = names.index(cf)
+            names[legIndex] = None
+            self.legs[legIndex].name = ct
 
     def shapeOfLabel(self, label, backward = False):
         """
-- 
2.43.0


From f2fb20397195bf3ee7eee9beb6c0441e7e5fa61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 35/41] fix: diagonalTensor can be imported before the other
 tensor modules

---
 src/CTL/tensor/contract/contract.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index 07b3f77..425f8fa 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -51,6 +51,9 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
     Tensor
         The contraction result of ta and tb.
     """
+    # not at the end of this file: when diagonalTensor is imported first, it is still being imported there
+    from CTL.tensor.diagonalTensor import DiagonalTensor
+
     # contract between bonds(if not, then find the shared legs)
     # this requires that: tensor contraction happens in-place
     # after we prepare some tensor, we must create tensors to make links
@@ -412,5 +415,4 @@ def merge(ta, tb, chi = None, bondName = None, renameWarning = True):
 # 	t = contractTwoTensors(l, r)
 # 	return t.a
 
-from CTL.tensor.tensor import Tensor
-from CTL.tensor.diagonalTensor import DiagonalTensor
\ No newline at end of file
+from CTL.tensor.tensor import Tensor
\ No newline at end of file
-- 
2.43.0


From 3283306c2e5c88213c9c129cf407b54e916e1680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:36 +0000
Subject: [PATCH 36/41] fix: diagonal tensors keep data that agree with their
 legs, shape-only scalars keep none

---
 src/CTL/tensor/diagonalTensor.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 7768f80..c89972d 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -233,9 +233,11 @@ class DiagonalTensor(Tensor):
         elif (len(shape) == 0):
             data = xplib.xp.copy(data.reshape(shape))
         # otherwise, data can be 1D-array, or ndarray
-        elif (len(data.shape) == 1):
+        elif (len(data.shape) == 1) and (data.shape[0] == shape[0]):
             data = xplib.xp.copy(data)
         else:
+            # the same number of elements, maybe in another shape
+            data = data.reshape(shape)
             l, dim = len(shape), shape[0]
             # print('dim = {}, l = {}'.format(dim, l))
             # print(xplib.xp.diag_indices(dim, l))
@@ -256,12 +258,10 @@ class DiagonalTensor(Tensor):
         funcName = "DiagonalTensor.deduction"
 
         # first, consider scalar case
-        if (legs is None) and (labels is None) and (shape == () or ((data is not None) and (data.shape == ()))):
-            if (data is None) and (not isTensorLike):
-                data = xplib.xp.array(1.0)
-            elif (data is not None):
-                data = xplib.xp.copy(data)
-            return [], data, [], () # scalar
+        if (legs is None) and (labels is None) and (shape == () or ((shape is None) and (data is not None) and (data.shape == ()))):
+            if (not self.checkShapeDataCompatible(shape = (), data = data)):
+                raise ValueError(funcs.errorMessage('data shape {} is not compatible with required shape {}'.format(data.shape, ()), location = funcName))
+            return [], self.generateData(shape = (), data = data, isTensorLike = isTensorLike), [], () # scalar
             
 
         if (legs is not None):
-- 
2.43.0


From 2332fb3b14feee664ebbac1d261f33aec030dabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:36 +0000
Subject: [PATCH 37/41] fix: decomposing a tensor with only rows or only
 columns given

---
 src/CTL/tensor/tensorFunc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CTL/tensor/tensorFunc.py b/src/CTL/tensor/tensorFunc.py
index 335cfac..041a87a 100644
--- a/src/CTL/tensor/tensorFunc.py
+++ b/src/CTL/tensor/tensorFunc.py
@@ -74,6 +74,12 @@ def tensorSVDDecomposition(a, rows = None, cols = None, innerLabels = None, pres
     funcName = "CTL.tensor.tensorFuncs.tensorSVDDecomposition"
     aMat = a.toMatrix(rows = rows, cols = cols)
     # print('aMat = {}'.format(aMat))
+    # as in toMatrix, the legs not given form the other side
+    if (rows is None):
+        rows = [label for label in a.labels if not (label in cols)]
+    if (cols is None):
+        cols = [label for label in a.labels if not (label in rows)]
+
     rowName = '|'.join(rows)
     colName = '|'.join(cols)
 
-- 
2.43.0


From 5a851f8e8a0a7dbfe87757831683a4624138d5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:36 +0000
Subject: [PATCH 38/41] fix: truncation error of a zero matrix

---
 src/CTL/funcs/decompose.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CTL/funcs/decompose.py b/src/CTL/funcs/decompose.py
index 2f484e4..01dda79 100644
--- a/src/CTL/funcs/decompose.py
+++ b/src/CTL/funcs/decompose.py
@@ -35,7 +35,9 @@ def SVDDecomposition(a, chi, returnSV = False, errorOrder = 2):
         error = 0.0
         chi = sLen
     else:
-        error = xplib.xp.sum(s[chi:] ** errorOrder) / xplib.xp.sum(s ** errorOrder)
+        total = xplib.xp.sum(s ** errorOrder)
+        # nothing is lost of a zero matrix
+        error = xplib.xp.sum(s[chi:] ** errorOrder) / total if (total > 0) else 0.0
 
     # print('error = {}'.format(error))
 
-- 
2.43.0


From 0adbb2452b201d67087bb5999da9125b1b9abd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:36 +0000
Subject: [PATCH 39/41] fix: projector of an environment without eigenvalues
 above the threshold

---
 src/CTL/funcs/linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CTL/funcs/linalg.py b/src/CTL/funcs/linalg.py
index 62d6ca3..e1653ac 100644
--- a/src/CTL/funcs/linalg.py
+++ b/src/CTL/funcs/linalg.py
@@ -22,7 +22,8 @@ def solveEnv(aMat, chi, threshold = 1e-10):
     else:
         error = 1.0 - xplib.xp.sum(eigenValuesEnv[-chi:]) / xplib.xp.sum(eigenValuesEnv)
     
-    chi = min(chi, eigenExist)
+    # one column when all eigenvalues are below the threshold ([-0:] would keep everything)
+    chi = max(min(chi, eigenExist), 1)
     # if (chi > eigenVectorsEnv.shape[1]):
     #     return eigenVectorsEnv, 0.0
     # else:
-- 
2.43.0


From 5bdf4a6b9840a5ab4a5f43f9866b91089c182829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:14 +0000
Subject: [PATCH 40/41] fix: keep own copies of the lists of legs and labels
 given by the caller

A tensor kept the very list of legs it was given, and a network the list of
labels of an outer product: changing that list afterwards changed them.
---
 src/CTL/tensor/diagonalTensor.py       | 1 +
 src/CTL/tensor/tensor.py               | 1 +
 src/CTL/tensornetwork/tensornetwork.py | 2 +-
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index c89972d..4b834e1 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -265,6 +265,7 @@ class DiagonalTensor(Tensor):
             
 
         if (legs is not None):
+            legs = list(legs) # not the caller's own list
 
             if (not self.checkLegsDiagonalCompatible(legs = legs)):
                 raise ValueError(funcs.errorMessage('legs {} cannot be considered as legs for diagonal tensor.'.format(legs), location = funcName))
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index ebf583f..a718a5d 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -318,6 +318,7 @@ class Tensor(TensorBase):
         """
         funcName = "Tensor.deduction"
         if (legs is not None):
+            legs = list(legs) # not the caller's own list
 
             if (not self.checkLegsLabelsCompatible(legs = legs, labels = labels)):
                 raise ValueError(funcs.errorMessage('labels {} is not compatible with legs {}'.format(labels, legs), location = funcName))
diff --git a/src/CTL/tensornetwork/tensornetwork.py b/src/CTL/tensornetwork/tensornetwork.py
index 3911b5e..5cbf4e5 100644
--- a/src/CTL/tensornetwork/tensornetwork.py
+++ b/src/CTL/tensornetwork/tensornetwork.py
@@ -80,7 +80,7 @@ class FiniteTensorNetwork:
 
     def addPostOutProduct(self, labelList, newLabel):
         self.checkLock('add post out product: {} -> {}'.format(labelList, newLabel))
-        self.outProductAfter.append((labelList, newLabel))
+        self.outProductAfter.append((list(labelList), newLabel))
 
     def loadBondDims(self, localTensors):
         bondDims = dict([])
-- 
2.43.0


From f0f2754dd30174ae227e4ea5244cbb0d1055f53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:16 +0000
Subject: [PATCH 41/41] fix: a tensor graph keeps its own copy of the list of
 diagonal flags

---
 src/CTL/tensor/contract/tensorGraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index c6665d2..50d5e8e 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -46,7 +46,7 @@ class TensorGraph(UndirectedGraph):
         if (diagonalFlags is None):
             self.diagonalFlags = [False] * n
         else:
-            self.diagonalFlags = diagonalFlags
+            self.diagonalFlags = list(diagonalFlags) # not the caller's own list
 
     def edgesChanged(self):
         # indices and costs obtained before belong to the edges before
-- 
2.43.0

