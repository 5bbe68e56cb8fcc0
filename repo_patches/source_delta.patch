From af751e4d0db31941f98ce1bba37642cb75a18c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:37 +0000
Subject: [PATCH 01/56] fix: let LevelTree::end() be past the last entry for
 all-level and pre-order traversal

The end of an all-level traversal was computed from the last leaf of the last
tree, so entries on higher levels were skipped when that leaf is not on the
highest level. The end of a pre-order traversal was wrong when the last entry
is stretched over multiple levels.
---
 kernel/Base/LevelTree_Impl.h | 18 ++++++++++++++----
 kernel/Base/TreeIterator.h   |  6 ++++++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/kernel/Base/LevelTree_Impl.h b/kernel/Base/LevelTree_Impl.h
index 811b277..8a357bb 100644
--- a/kernel/Base/LevelTree_Impl.h
+++ b/kernel/Base/LevelTree_Impl.h
@@ -137,11 +137,16 @@ TreeIterator<V> LevelTree<V>::end() {
     // it is easier to first get the last valid position
     TreeIterator<V> result =
         entries_.back()->getIterator(traversalMethod_, activeLevel_);
-    if (traversalMethod_ == TreeTraversalMethod::PREORDER ||
-        traversalMethod_ == TreeTraversalMethod::ALLLEVEL) {
+    if (traversalMethod_ == TreeTraversalMethod::PREORDER) {
         while ((*result.ptr_)->hasChild()) {
             result.moveToChild((*result.ptr_)->getNumberOfChildren() - 1);
         }
+        // the last entry may be stretched over multiple levels
+        result.setMaxDepthCounter();
+    }
+    if (traversalMethod_ == TreeTraversalMethod::ALLLEVEL) {
+        // the last tree does not need to extend to the highest level
+        result.moveToLastOnLevel(maxLevel_ - 1);
     }
     if (traversalMethod_ == TreeTraversalMethod::SINGLELEVEL) {
         result.moveToLastOnLevel(activeLevel_);
@@ -176,11 +181,16 @@ TreeIteratorConst<V> LevelTree<V>::end() const {
     // it is easier to first get the last valid position
     TreeIterator<V> result =
         entries_.back()->getIterator(traversalMethod_, activeLevel_);
-    if (traversalMethod_ == TreeTraversalMethod::PREORDER ||
-        traversalMethod_ == TreeTraversalMethod::ALLLEVEL) {
+    if (traversalMethod_ == TreeTraversalMethod::PREORDER) {
         while ((*result.ptr_)->hasChild()) {
             result.moveToChild((*result.ptr_)->getNumberOfChildren() - 1);
         }
+        // the last entry may be stretched over multiple levels
+        result.setMaxDepthCounter();
+    }
+    if (traversalMethod_ == TreeTraversalMethod::ALLLEVEL) {
+        // the last tree does not need to extend to the highest level
+        result.moveToLastOnLevel(maxLevel_ - 1);
     }
     if (traversalMethod_ == TreeTraversalMethod::SINGLELEVEL) {
         result.moveToLastOnLevel(activeLevel_);
diff --git a/kernel/Base/TreeIterator.h b/kernel/Base/TreeIterator.h
index ce96767..aadab58 100644
--- a/kernel/Base/TreeIterator.h
+++ b/kernel/Base/TreeIterator.h
@@ -605,10 +605,16 @@ class TreeIterator {
             "iterator has to be dereferenceable to be incrementable");
         moveToNextOnLevel();
         if (ptr_ == end_) {
+            TreeIterator endOfLevel = *this;
             --ptr_;
             std::size_t level = (*ptr_)->getLevel() + depthCounter_ + 1;
             // will move to end_ again if this was the last level
             moveToFirstOnLevel(level);
+            if (ptr_ == end_) {
+                // stay behind the last entry of the last level so we can move
+                // back to it with --
+                *this = endOfLevel;
+            }
         }
     }
 
-- 
2.43.0


From 55e2fe1fab2b90aac0a26e999d9106e870f5dc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:09 +0000
Subject: [PATCH 02/56] fix: keep LevelTree traversals consistent when entries
 span several levels

Reverse traversal, post-order and all-level traversal skipped or repeated
entries once an entry occupied more than one level or siblings of the last
entry on a level did not extend to that level.
---
 kernel/Base/LevelTree_Impl.h |  3 +++
 kernel/Base/TreeIterator.h   | 30 +++++++++++++++++++++++-------
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/kernel/Base/LevelTree_Impl.h b/kernel/Base/LevelTree_Impl.h
index 8a357bb..ecbfbe3 100644
--- a/kernel/Base/LevelTree_Impl.h
+++ b/kernel/Base/LevelTree_Impl.h
@@ -124,6 +124,7 @@ TreeIterator<V> LevelTree<V>::begin() {
         while ((*result.ptr_)->hasChild()) {
             result.moveToChild(0);
         }
+        result.setMaxDepthCounter();
     }
     return result;
 }
@@ -168,6 +169,7 @@ TreeIteratorConst<V> LevelTree<V>::begin() const {
         while ((*result.ptr_)->hasChild()) {
             result.moveToChild(0);
         }
+        result.setMaxDepthCounter();
     }
     return result;
 }
@@ -331,6 +333,7 @@ TreeIterator<V> LevelTree<V>::beginPostOrder() {
     while ((*result.ptr_)->hasChild()) {
         result.moveToChild(0);
     }
+    result.setMaxDepthCounter();
     return result;
 }
 
diff --git a/kernel/Base/TreeIterator.h b/kernel/Base/TreeIterator.h
index aadab58..69ca5bd 100644
--- a/kernel/Base/TreeIterator.h
+++ b/kernel/Base/TreeIterator.h
@@ -263,7 +263,11 @@ class TreeIterator {
         // more elaborate
         if (ptr_ != end_ && traversalMethod_ == i.traversalMethod_ &&
             i.ptr_ != i.end_) {
-            return *ptr_ == *i.ptr_;
+            // entries that occupy multiple levels are visited multiple times,
+            // unless only a single level is traversed
+            return *ptr_ == *i.ptr_ &&
+                   (traversalMethod_ == TreeTraversalMethod::SINGLELEVEL ||
+                    depthCounter_ == i.depthCounter_);
         }
         // a == b implies ++a == ++b, and --a == --b implies a == b, but the
         // reverses are not required and having one end() for all
@@ -457,16 +461,17 @@ class TreeIterator {
             // if we still can't move to the next entry, restore the old pointer
             // so we can move back to the last on the level with --
             *this = backup;
-            ++ptr_;
+            end_ = ++ptr_;
         } else {
             ++ptr_;
             depthCounter_ = 0;
             if (!moveDownToLevelBegin(level)) {
                 // moveDownToLevelBegin will automatically try to move to the
                 // next sibling and/or up to another parent if it fails
-                // initially so if it fails this was the last on the level
+                // initially so if it fails this was the last on the level,
+                // although it may have further siblings on the other levels
                 *this = backup;
-                ++ptr_;
+                end_ = ++ptr_;
             } else {
                 end_ = (*ptr_)->getSiblings().end();
             }
@@ -478,6 +483,7 @@ class TreeIterator {
         if (ptr_ == end_) {
             // the increment operator made sure we end up at the back
             --ptr_;
+            end_ = (*ptr_)->getSiblings().end();
         } else {
             //--begin() is undefined so we don't have to care about restoring
             // the current position
@@ -501,7 +507,7 @@ class TreeIterator {
     }
 
     bool hasPreviousOnLevel() {
-        if (ptr_ == end_ || !(*ptr_)->isFirstSibling()) {
+        if (ptr_ == end_) {
             return true;
         }
         std::size_t level = (*ptr_)->getLevel() + depthCounter_;
@@ -510,8 +516,13 @@ class TreeIterator {
                (*duplicate.ptr_)->isFirstSibling()) {
             duplicate.moveToParent();
         }
-        return !(*duplicate.ptr_)->isFirstSibling() &&
-               (--duplicate).moveDownToLevelEnd(level);
+        if ((*duplicate.ptr_)->isFirstSibling()) {
+            return false;
+        }
+        // the previous siblings do not need to extend to this level
+        --duplicate.ptr_;
+        duplicate.depthCounter_ = 0;
+        return duplicate.moveDownToLevelEnd(level);
     }
 
     //! move to next node in the pre-order traversal
@@ -540,9 +551,11 @@ class TreeIterator {
         if (ptr_ == end_ ||
             (!(*ptr_)->isFirstSibling() && depthCounter_ == 0)) {
             --ptr_;
+            depthCounter_ = 0;
             while ((*ptr_)->hasChild()) {
                 moveToChild((*ptr_)->getNumberOfChildren() - 1);
             }
+            setMaxDepthCounter();
         } else {
             logger.assert_debug(
                 !(*ptr_)->isRoot() || depthCounter_ > 0,
@@ -560,6 +573,7 @@ class TreeIterator {
             while ((*ptr_)->hasChild()) {
                 moveToChild(0);
             }
+            setMaxDepthCounter();
         } else if ((*ptr_)->isRoot() && depthCounter_ == 0) {
             ++ptr_;
         } else {
@@ -578,11 +592,13 @@ class TreeIterator {
             moveToChild((*ptr_)->getNumberOfChildren() - 1);
         } else if (ptr_ == end_) {
             --ptr_;
+            depthCounter_ = 0;
         } else {
             while ((*ptr_)->isFirstSibling()) {
                 moveToParent();
             }
             --ptr_;
+            depthCounter_ = 0;
         }
     }
 
-- 
2.43.0


From 7e067446c3dd10986b8ea63dab33df02235722d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:06 +0000
Subject: [PATCH 03/56] fix: reserve face indices for all non-local nodes when
 reading a 1D mesh

The faces of a 1D mesh got their index from comparing the last used face index
to the node index. Processors without the last nodes did not reserve the
indices after them, and no index was reserved when more faces than nodes were
in use, so that the faces of this or the next mesh got different indices on
different processors.
---
 kernel/Base/MeshManipulator_Impl.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/kernel/Base/MeshManipulator_Impl.h b/kernel/Base/MeshManipulator_Impl.h
index bdc0346..948ea19 100644
--- a/kernel/Base/MeshManipulator_Impl.h
+++ b/kernel/Base/MeshManipulator_Impl.h
@@ -1581,6 +1581,8 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
     std::size_t processedNodes = 0;
     std::map<std::size_t, std::size_t> localNodeIndex;
     std::map<std::size_t, std::size_t> startOfCoordinates;
+    // The nodes in the file that are present on this processor
+    std::vector<std::size_t> presentNodes;
 
     // we need some leeway later on to synchronize face indices with node
     // indices later on
@@ -1599,6 +1601,7 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
                 input.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
                 startOfCoordinates[i] = getNumberOfNodeCoordinates();
                 localNodeIndex[i] = processedNodes++;
+                presentNodes.push_back(i);
                 std::size_t numberOfCoordinates;
                 input >> numberOfCoordinates;
                 for (std::size_t k = 0; k < numberOfCoordinates; ++k) {
@@ -1809,13 +1812,20 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
         }
     }
 
-    std::size_t lastIndex = GlobalUniqueIndex::instance().getFaceIndex();
+    GlobalUniqueIndex::instance().getFaceIndex();
 
     if (DIM == 1) {
         logger.suppressWarnings([&]() {
-            for (auto node : getNodesList(Base::IteratorType::GLOBAL)) {
-                while (lastIndex++ < node->getID() - 1)
+            auto presentNode = presentNodes.begin();
+            for (std::size_t i = 0; i < numberOfNodes; ++i) {
+                if (presentNode == presentNodes.end() || *presentNode != i) {
+                    // reserve the index for use on another processor
                     GlobalUniqueIndex::instance().getFaceIndex();
+                    continue;
+                }
+                ++presentNode;
+                auto node =
+                    getNodesList(Base::IteratorType::GLOBAL)[localNodeIndex[i]];
                 if (node->getNumberOfElements() == 1) {
                     addFace(node->getElement(0), node->getNodeNumber(0),
                             nullptr, 0, Geometry::FaceType::WALL_BC);
-- 
2.43.0


From 26b23748719488dd2fb18e4ad81626d86100826e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:28 +0000
Subject: [PATCH 04/56] fix: interior nodes at the edge of a 1D partition are
 not domain boundaries

The faces on the far side of the ghost elements of a distributed 1D mesh were
reported as walls, as their other element is not known on the processor. Mark
them as partial faces, as is done for the other dimensions.
---
 kernel/Base/MeshManipulator_Impl.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/kernel/Base/MeshManipulator_Impl.h b/kernel/Base/MeshManipulator_Impl.h
index 948ea19..fcaf630 100644
--- a/kernel/Base/MeshManipulator_Impl.h
+++ b/kernel/Base/MeshManipulator_Impl.h
@@ -1636,6 +1636,9 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
     }
 
     std::map<std::size_t, Element *> actualElement;
+    // The number of elements at each node, including the elements that are not
+    // present on this processor
+    std::vector<std::size_t> elementsAtNode(numberOfNodes, 0);
 
     for (std::size_t i = 0; i < numberOfElements; ++i) {
         // Read all the information about the element
@@ -1650,6 +1653,7 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
             coordinateIndices.push_back(startOfCoordinates[globalIndex] +
                                         coordinateOffset);
             nodeNumbers.push_back(localNodeIndex[globalIndex]);
+            elementsAtNode[globalIndex]++;
         }
         // Owning partition (= MPI process id)
         std::size_t partition;
@@ -1827,8 +1831,12 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
                 auto node =
                     getNodesList(Base::IteratorType::GLOBAL)[localNodeIndex[i]];
                 if (node->getNumberOfElements() == 1) {
+                    // the other element may be outside of this partition
                     addFace(node->getElement(0), node->getNodeNumber(0),
-                            nullptr, 0, Geometry::FaceType::WALL_BC);
+                            nullptr, 0,
+                            elementsAtNode[i] == 1
+                                ? Geometry::FaceType::WALL_BC
+                                : Geometry::FaceType::PARTIAL_FACE);
                 } else {
                     addFace(node->getElement(0), node->getNodeNumber(0),
                             node->getElement(1), node->getNodeNumber(1));
-- 
2.43.0


From 0b8d8d058f91fe997eb4a381e9fff78bc8a26102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:04 +0000
Subject: [PATCH 05/56] fix: do not list elements twice when they are requested
 while being pulled already

Submesh::addPullElement promises that passing an element twice has no
detrimental effects, but an element that was already part of the ghost layer
(or that was requested in an earlier round) was added to the push and pull
lists again.
---
 kernel/Base/Submesh.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/kernel/Base/Submesh.cpp b/kernel/Base/Submesh.cpp
index afb7bb0..7daa0c0 100644
--- a/kernel/Base/Submesh.cpp
+++ b/kernel/Base/Submesh.cpp
@@ -135,13 +135,21 @@ void Submesh::processPullRequests() {
             searchIterators[i] =
                 elementIDs.begin() + cumulativeNumberOfElements[i];
         }
+        // elements can be requested while they are being pulled already
+        auto isPulledFrom = [this](Element* element, std::size_t processor) {
+            auto pulls = pullElements_.find(processor);
+            return pulls != pullElements_.end() &&
+                   std::find(pulls->second.begin(), pulls->second.end(),
+                             element) != pulls->second.end();
+        };
         for (Element* element : otherPulls_) {
             for (std::size_t i = 0; i < n; ++i) {
                 if (i != rank) {
                     while (*searchIterators[i] < element->getID()) {
                         searchIterators[i]++;
                     }
-                    if (*searchIterators[i] == element->getID()) {
+                    if (*searchIterators[i] == element->getID() &&
+                        !isPulledFrom(element, i)) {
                         // this is one of the elements we are trying to pull
                         addPull(element, i);
                         newPushes[i].push_back(element->getID());
-- 
2.43.0


From 0576a4235867fe7426d2d345163de7c579790a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:02 +0000
Subject: [PATCH 06/56] fix: forget face, edge and node functions when an
 unknown gets a DG basis

---
 kernel/Base/MeshManipulator_Impl.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/kernel/Base/MeshManipulator_Impl.h b/kernel/Base/MeshManipulator_Impl.h
index fcaf630..17dc893 100644
--- a/kernel/Base/MeshManipulator_Impl.h
+++ b/kernel/Base/MeshManipulator_Impl.h
@@ -239,6 +239,19 @@ void MeshManipulator<DIM>::useDefaultDGBasisFunctions(std::size_t order,
         "useDefaultDGBasisFunctions(std::size_t unknown) will not clear "
         "collBasisFSet_ of the default basis functions. Use "
         "useDefaultBasisFunctions() instead for the zeroth unknown.");
+    // Functions on faces, edges and nodes from a previous assignment to this
+    // unknown are no longer in use.
+    for (Face *face : getFacesList(IteratorType::GLOBAL)) {
+        face->setLocalNumberOfBasisFunctions(0, unknown);
+    }
+    for (Edge *edge : getEdgesList(IteratorType::GLOBAL)) {
+        edge->setLocalNumberOfBasisFunctions(0, unknown);
+    }
+    if (dimension_ > 1) {
+        for (Node *node : getNodesList(IteratorType::GLOBAL)) {
+            node->setLocalNumberOfBasisFunctions(0, unknown);
+        }
+    }
     std::unordered_map<Geometry::ReferenceGeometryType, std::size_t,
                        EnumHash<Geometry::ReferenceGeometryType>>
         shapeToIndex;
-- 
2.43.0


From 0d21aae07781d761bb88f7a7b5580e51ab000d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:19 +0000
Subject: [PATCH 07/56] fix: gather and scatter GlobalPetscVector for the
 included unknowns only

---
 kernel/Utilities/GlobalVector.cpp | 89 +++++++++++++++----------------
 1 file changed, 42 insertions(+), 47 deletions(-)

diff --git a/kernel/Utilities/GlobalVector.cpp b/kernel/Utilities/GlobalVector.cpp
index d9bdf18..2f5b1de 100644
--- a/kernel/Utilities/GlobalVector.cpp
+++ b/kernel/Utilities/GlobalVector.cpp
@@ -172,23 +172,20 @@ void GlobalPetscVector::constructFromTimeIntegrationVector(
     std::vector<PetscInt> localToGlobal;
     for (Base::Element* element : mesh->getElementsList()) {
         indexing_.getGlobalIndices(element, localToGlobal);
-        elementData.resize(element->getTotalNumberOfBasisFunctions());
-        for (std::size_t j = 0; j < element->getNumberOfUnknowns(); ++j) {
-            for (std::size_t i = 0; i < element->getNumberOfBasisFunctions(j);
-                 ++i) {
-
-                if (j == solutionVar) {
-                    elementData[element->convertToSingleIndex(i, solutionVar)] =
-                        element->getTimeIntegrationData(timeIntegrationVectorId,
-                                                        solutionVar, i);
-                } else {
-                    localToGlobal[element->convertToSingleIndex(i, j)] = -1;
-                }
+        // Only the entries for solutionVar are set. They form a contiguous part
+        // of the indices, as these are grouped by unknown.
+        std::size_t start = 0;
+        for (std::size_t unknown : indexing_.getIncludedUnknowns()) {
+            std::size_t size = element->getNumberOfBasisFunctions(unknown);
+            if (unknown == solutionVar) {
+                elementData = element->getTimeIntegrationSubvector(
+                    timeIntegrationVectorId, unknown);
+                int ierr = VecSetValues(b_, size, localToGlobal.data() + start,
+                                        elementData.data(), INSERT_VALUES);
+                CHKERRV(ierr);
             }
+            start += size;
         }
-        int ierr = VecSetValues(b_, localToGlobal.size(), localToGlobal.data(),
-                                elementData.data(), INSERT_VALUES);
-        CHKERRV(ierr);
     }
 
     int ierr = VecAssemblyBegin(b_);
@@ -209,14 +206,17 @@ void GlobalPetscVector::constructFromTimeIntegrationVector(
     LinearAlgebra::MiddleSizeVector elementData;
     std::vector<PetscInt> localToGlobal;
     for (Base::Element* element : mesh->getElementsList()) {
-        std::size_t numberOfBasisFunctions =
-            element->getTotalNumberOfBasisFunctions();
         indexing_.getGlobalIndices(element, localToGlobal);
-        int ierr = VecSetValues(
-            b_, numberOfBasisFunctions, localToGlobal.data(),
-            element->getTimeIntegrationVector(timeIntegrationVectorId).data(),
-            INSERT_VALUES);
-        CHKERRV(ierr);
+        std::size_t start = 0;
+        for (std::size_t unknown : indexing_.getIncludedUnknowns()) {
+            elementData = element->getTimeIntegrationSubvector(
+                timeIntegrationVectorId, unknown);
+            int ierr = VecSetValues(b_, elementData.size(),
+                                    localToGlobal.data() + start,
+                                    elementData.data(), INSERT_VALUES);
+            CHKERRV(ierr);
+            start += elementData.size();
+        }
     }
 
     int ierr = VecAssemblyBegin(b_);
@@ -272,13 +272,13 @@ void GlobalPetscVector::writeTimeIntegrationVector(
     for (Base::MeshManipulatorBase::ConstElementIterator it =
              mesh->elementColBegin(Base::IteratorType::GLOBAL);
          it != end; ++it) {
-        // Create vector for the local data that has to be written
-        LinearAlgebra::MiddleSizeVector localData(
-            (*it)->getTotalNumberOfBasisFunctions());
-        std::size_t runningTotal = 0;
-        for (std::size_t index = 0; index < (*it)->getNumberOfUnknowns();
-             ++index)  // for every variable iV
+        for (std::size_t index :
+             indexing_.getIncludedUnknowns())  // for every variable iV
         {
+            // Create vector for the local data that has to be written
+            LinearAlgebra::MiddleSizeVector localData(
+                (*it)->getNumberOfBasisFunctions(index));
+            std::size_t runningTotal = 0;
             std::size_t nElementBasis =
                 (*it)->getLocalNumberOfBasisFunctions(index);
             int elementBasis0 = indexing_.getGlobalIndex((*it), index);
@@ -346,11 +346,12 @@ void GlobalPetscVector::writeTimeIntegrationVector(
                     }
                 }
             }
+            // Put the localData in the element
+            logger.assert_debug(localData.size() == runningTotal,
+                                "not enough info to fill the vector");
+            (*it)->setTimeIntegrationSubvector(timeIntegrationVectorId, index,
+                                               localData);
         }
-        // Put the localData in the element
-        logger.assert_debug(localData.size() == runningTotal,
-                            "not enough info to fill the vector");
-        (*it)->setTimeIntegrationVector(timeIntegrationVectorId, localData);
     }
     ierr = VecRestoreArray(localB, &data);
     VecDestroy(&localB);
@@ -403,11 +404,11 @@ void GlobalPetscVector::writeTimeIntegrationVector(
     for (Base::MeshManipulatorBase::ConstElementIterator it =
              mesh->elementColBegin(Base::IteratorType::GLOBAL);
          it != end; ++it) {
-        LinearAlgebra::MiddleSizeVector localData(
-            (*it)->getTotalNumberOfBasisFunctions());
-        std::size_t runningTotal = 0;
-        for (std::size_t index = 0; index < (*it)->getNumberOfUnknowns();
-             ++index) {
+        for (std::size_t index : indexing_.getIncludedUnknowns()) {
+            if (index != unknown) continue;
+            LinearAlgebra::MiddleSizeVector localData(
+                (*it)->getNumberOfBasisFunctions(index));
+            std::size_t runningTotal = 0;
             std::size_t nElementBasis =
                 (*it)->getLocalNumberOfBasisFunctions(index);
             int elementBasis0 = indexing_.getGlobalIndex((*it), index);
@@ -450,17 +451,11 @@ void GlobalPetscVector::writeTimeIntegrationVector(
                     }
                 }
             }
+            logger.assert_debug(localData.size() == runningTotal,
+                                "not enough info to fill the vector");
+            (*it)->setTimeIntegrationSubvector(timeIntegrationVectorId, unknown,
+                                               localData);
         }
-        logger.assert_debug(localData.size() == runningTotal,
-                            "not enough info to fill the vector");
-        LinearAlgebra::MiddleSizeVector singleUnknownData(
-            (*it)->getNumberOfBasisFunctions());
-        for (std::size_t i = 0; i < (*it)->getNumberOfBasisFunctions(); ++i) {
-            singleUnknownData[i] =
-                localData[(*it)->convertToSingleIndex(i, unknown)];
-        }
-        (*it)->setTimeIntegrationSubvector(timeIntegrationVectorId, unknown,
-                                           singleUnknownData);
     }
     ierr = VecRestoreArray(localB, &data);
     VecDestroy(&localB);
-- 
2.43.0


From 3f8e7aadca75750dee8363b05f4acbf4da744d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:17 +0000
Subject: [PATCH 08/56] fix: check face coupling of the right unknown in the
 sparsity estimate

---
 kernel/Utilities/SparsityEstimator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kernel/Utilities/SparsityEstimator.cpp b/kernel/Utilities/SparsityEstimator.cpp
index 9835e8e..588780e 100644
--- a/kernel/Utilities/SparsityEstimator.cpp
+++ b/kernel/Utilities/SparsityEstimator.cpp
@@ -385,7 +385,9 @@ std::pair<std::vector<int>, std::vector<int>>
              ++i) {
             for (std::size_t j = 0;
                  j < columnIndexing_.getNumberOfIncludedUnknowns(); ++j) {
-                if (faceCoupling(i, j) && !rowDoFs.isOnlyElementBased(i)) {
+                if (faceCoupling(i, j) &&
+                    !rowDoFs.isOnlyElementBased(
+                        rowIndexing_.getIncludedUnknowns()[i])) {
                     logger(ERROR,
                            "Face coupling of a row-DoF from an Face, Edge or "
                            "Node.");
-- 
2.43.0


From 333d03a92cea2500fe3b12ff8f6945b615c7754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:39 +0000
Subject: [PATCH 09/56] fix: reject command line arguments that are no number
 at all

---
 kernel/Base/CommandLineOptions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/Base/CommandLineOptions.h b/kernel/Base/CommandLineOptions.h
index 0bfdc35..0023044 100644
--- a/kernel/Base/CommandLineOptions.h
+++ b/kernel/Base/CommandLineOptions.h
@@ -151,7 +151,7 @@ typename std::enable_if<
     std::istringstream arg(*p);
     T retVal = 0;
     arg >> retVal;
-    if (!arg.eof()) {
+    if (arg.fail() || !arg.eof()) {
         std::string error = "Argument could not be converted to ";
         if (std::is_unsigned<T>::value) error += "unsigned ";
 
-- 
2.43.0


From 050d1eca37bd6142b7c355693257e72cb554b83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:47 +0000
Subject: [PATCH 10/56] fix: allow an empty selection of unknowns in
 ElementLocalIndexing

---
 kernel/Utilities/ElementLocalIndexing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/Utilities/ElementLocalIndexing.cpp b/kernel/Utilities/ElementLocalIndexing.cpp
index 0f7a23c..eb769d4 100644
--- a/kernel/Utilities/ElementLocalIndexing.cpp
+++ b/kernel/Utilities/ElementLocalIndexing.cpp
@@ -54,7 +54,7 @@ void ElementLocalIndexing::reinit(
     std::sort(includedUnknowns_.begin(), includedUnknowns_.end());
 #ifdef HPGEM_ASSERTS
     // Check for duplicates, easy after sorting
-    for (std::size_t i = 0; i < includedUnknowns_.size() - 1; ++i) {
+    for (std::size_t i = 0; i + 1 < includedUnknowns_.size(); ++i) {
         logger.assert_debug(includedUnknowns_[i] != includedUnknowns_[i + 1],
                             "Duplicate unknown");
     }
-- 
2.43.0


From ffdc3404fcad90f342d973bee820d76cf9ee938b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:02 +0000
Subject: [PATCH 11/56] fix: accept nullptr as face in FaceLocalIndexing, as
 documented

---
 kernel/Utilities/FaceLocalIndexing.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kernel/Utilities/FaceLocalIndexing.cpp b/kernel/Utilities/FaceLocalIndexing.cpp
index 6b2f225..0287105 100644
--- a/kernel/Utilities/FaceLocalIndexing.cpp
+++ b/kernel/Utilities/FaceLocalIndexing.cpp
@@ -52,8 +52,9 @@ void FaceLocalIndexing::reinit(
 
 void FaceLocalIndexing::reinit(const Base::Face *face) {
     face_ = face;
-    left_.reinit(face->getPtrElementLeft());
-    right_.reinit(face->getPtrElementRight());
+    const Base::Element *none = nullptr;
+    left_.reinit(face != nullptr ? face->getPtrElementLeft() : none);
+    right_.reinit(face != nullptr ? face->getPtrElementRight() : none);
 }
 }  // namespace Utilities
 }  // namespace hpgem
-- 
2.43.0


From f988dfe86bfe5a2b377c6ab328f6b10a3961a7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:24 +0000
Subject: [PATCH 12/56] fix: count all basis functions of the left element in
 Face::convertToSingleIndex

---
 kernel/Base/Face.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/Base/Face.cpp b/kernel/Base/Face.cpp
index e0533c2..046b73b 100644
--- a/kernel/Base/Face.cpp
+++ b/kernel/Base/Face.cpp
@@ -243,7 +243,7 @@ std::size_t Face::convertToSingleIndex(Side side,
         scalarBasisFunctionId,
         getPtrElementRight()->getNumberOfBasisFunctions(varId));
     std::size_t nDOFLeft =
-        getPtrElementLeft()->getTotalLocalNumberOfBasisFunctions();
+        getPtrElementLeft()->getTotalNumberOfBasisFunctions();
     return nDOFLeft + number + scalarBasisFunctionId;
 }
 
-- 
2.43.0


From bcfcb6601ee15fe97aa17189c70ef21dee8f579c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:37 +0000
Subject: [PATCH 13/56] fix: report UNKNOWN_NOT_INCLUDED for the right side in
 FaceLocalIndexing

---
 kernel/Utilities/FaceLocalIndexing.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kernel/Utilities/FaceLocalIndexing.h b/kernel/Utilities/FaceLocalIndexing.h
index 9954f6b..bc102f4 100644
--- a/kernel/Utilities/FaceLocalIndexing.h
+++ b/kernel/Utilities/FaceLocalIndexing.h
@@ -79,9 +79,11 @@ class FaceLocalIndexing {
             hpgem::logger.assert_debug(
                 right_.getElement() != nullptr,
                 "Asking for the right side of an internal face");
-            // Also works for non included unknowns, as
-            // left_.getNumberOfDoFs() == 0 for such an unknown
-            return left_.getNumberOfDoFs() + right_.getDoFOffset(unknown);
+            std::size_t offset = right_.getDoFOffset(unknown);
+            if (offset == ElementLocalIndexing::UNKNOWN_NOT_INCLUDED) {
+                return offset;
+            }
+            return left_.getNumberOfDoFs() + offset;
         }
     }
 
-- 
2.43.0


From 1eadbc459c8a29cde0b4e17914c249e7d7aca851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:15 +0000
Subject: [PATCH 14/56] fix: end the time loop at the final time

The end of the time loop and the output times were compared with absolute
tolerances (1e-14 and 1e-12). The accumulated round off of the time is easily
larger than that (e.g. 100 steps of 0.1), resulting in an additional time step
beyond the final time and late or missing output frames. Without output frames
the time step was not adapted to the length of the interval, so that the last
step went beyond the final time.
---
 kernel/Base/HpgemAPISimplified_Impl.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/kernel/Base/HpgemAPISimplified_Impl.h b/kernel/Base/HpgemAPISimplified_Impl.h
index f2fa39d..3c7e352 100644
--- a/kernel/Base/HpgemAPISimplified_Impl.h
+++ b/kernel/Base/HpgemAPISimplified_Impl.h
@@ -987,14 +987,17 @@ bool HpgemAPISimplified<DIM>::solve(const double initialTime,
                               (numberOfTimeSteps % numberOfOutputFrames)) %
                              numberOfOutputFrames;
 
-        // Recompute dt.
-        dt = T / numberOfTimeSteps;
-
         // Compute the number of timesteps after which to create an output
         // frame.
         numberOfTimeStepsForOutput =
             (std::size_t)(numberOfTimeSteps / numberOfOutputFrames);
     }
+    // Recompute dt, such that the last time step ends at the final time.
+    dt = T / numberOfTimeSteps;
+    // Round off when comparing times. The error in a time grows with the size
+    // of the time itself and the number of steps, so an absolute tolerance does
+    // not work for all intervals.
+    const double timeTolerance = 1e-6 * dt;
 
     // if the user wants an adaptive time step, the default of 0.01 for dt is
     // silly
@@ -1025,7 +1028,7 @@ bool HpgemAPISimplified<DIM>::solve(const double initialTime,
                numberOfTimeStepsForOutput);
     }
     std::size_t actualNumberOfTimeSteps = 0;
-    while (time < finalTime - 1e-14) {
+    while (time < finalTime - timeTolerance) {
         actualNumberOfTimeSteps++;
         if (error.isUsed()) {
             computeOneTimeStep(
@@ -1035,7 +1038,7 @@ bool HpgemAPISimplified<DIM>::solve(const double initialTime,
             computeOneTimeStep(time, dt);
         }
 
-        if (time > outputTime - 1e-12) {
+        if (time > outputTime - timeTolerance) {
             outputTime += outputDt;
             tecplotWriter.write(this->meshes_[0], solutionTitle_, false, this,
                                 time);
-- 
2.43.0


From 056fee0be855f49b8391a340868cc90b41e5822d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:15 +0000
Subject: [PATCH 15/56] fix: write VTK output for polynomial order 0

There are no VTK Lagrange elements of order 0, creating one for a piecewise
constant solution writes outside of the list of points. Use the linear elements.
---
 kernel/Output/VTKSpecificTimeWriter_Impl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kernel/Output/VTKSpecificTimeWriter_Impl.h b/kernel/Output/VTKSpecificTimeWriter_Impl.h
index 1b23749..6be2535 100644
--- a/kernel/Output/VTKSpecificTimeWriter_Impl.h
+++ b/kernel/Output/VTKSpecificTimeWriter_Impl.h
@@ -493,7 +493,7 @@ inline void VTKSpecificTimeWriter<0>::setupMapping(std::size_t order) {
 
 template <>
 inline void VTKSpecificTimeWriter<1>::setupMapping(std::size_t order) {
-    if (order == 1) {
+    if (order <= 1) {
         elementMapping_[Geometry::ReferenceGeometryType::LINE] =
             std::make_shared<VTKLine>();
     } else {
@@ -504,7 +504,7 @@ inline void VTKSpecificTimeWriter<1>::setupMapping(std::size_t order) {
 
 template <>
 inline void VTKSpecificTimeWriter<2>::setupMapping(std::size_t order) {
-    if (order == 1) {
+    if (order <= 1) {
         elementMapping_[Geometry::ReferenceGeometryType::TRIANGLE] =
             std::make_shared<VTKTriangle>();
         elementMapping_[Geometry::ReferenceGeometryType::SQUARE] =
@@ -519,7 +519,7 @@ inline void VTKSpecificTimeWriter<2>::setupMapping(std::size_t order) {
 
 template <>
 inline void VTKSpecificTimeWriter<3>::setupMapping(std::size_t order) {
-    if (order == 1) {
+    if (order <= 1) {
         elementMapping_[Geometry::ReferenceGeometryType::TETRAHEDRON] =
             std::make_shared<VTKTetra>();
         elementMapping_[Geometry::ReferenceGeometryType::CUBE] =
-- 
2.43.0


From 9388dbea64ecb129747910c09f2674c10dde55de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:23 +0000
Subject: [PATCH 16/56] fix: copies and moves of a Mesh keep the zone names,
 and assignment returns the mesh

---
 applications/Preprocessor/lib/mesh/MeshImpl/Mesh.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/applications/Preprocessor/lib/mesh/MeshImpl/Mesh.h b/applications/Preprocessor/lib/mesh/MeshImpl/Mesh.h
index 960fecd..47f88a8 100644
--- a/applications/Preprocessor/lib/mesh/MeshImpl/Mesh.h
+++ b/applications/Preprocessor/lib/mesh/MeshImpl/Mesh.h
@@ -71,7 +71,8 @@ class Mesh {
     Mesh(const Mesh& other)
         : elementsList(other.elementsList),
           coordinates(other.coordinates),
-          meshEntities(other.meshEntities) {
+          meshEntities(other.meshEntities),
+          zoneNames(other.zoneNames) {
         for (auto& element : elementsList) {
             element.mesh = this;
         }
@@ -81,7 +82,8 @@ class Mesh {
     Mesh(Mesh&& other)
         : elementsList(std::move(other.elementsList)),
           coordinates(std::move(other.coordinates)),
-          meshEntities(std::move(other.meshEntities)) {
+          meshEntities(std::move(other.meshEntities)),
+          zoneNames(std::move(other.zoneNames)) {
         for (auto& element : elementsList) {
             element.mesh = this;
         }
@@ -92,20 +94,24 @@ class Mesh {
         elementsList = other.elementsList;
         coordinates = other.coordinates;
         meshEntities = other.meshEntities;
+        zoneNames = other.zoneNames;
         for (auto& element : elementsList) {
             element.mesh = this;
         }
         copyEntities(tag<dimension>{});
+        return *this;
     }
 
     Mesh& operator=(Mesh&& other) {
         elementsList = std::move(other.elementsList);
         coordinates = std::move(other.coordinates);
         meshEntities = std::move(other.meshEntities);
+        zoneNames = std::move(other.zoneNames);
         for (auto& element : elementsList) {
             element.mesh = this;
         }
         copyEntities(tag<dimension>{});
+        return *this;
     }
 
     // Elements //
-- 
2.43.0


From 66c2c8e6f273d1b79c8e36003a5c61791243632b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:08 +0000
Subject: [PATCH 17/56] fix: a merge plan keeps all left entities when several
 coordinates are paired with the same one

---
 applications/Preprocessor/lib/MergePlan.h | 26 ++++++++++++++---------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/applications/Preprocessor/lib/MergePlan.h b/applications/Preprocessor/lib/MergePlan.h
index f4d2de2..2cb48a9 100644
--- a/applications/Preprocessor/lib/MergePlan.h
+++ b/applications/Preprocessor/lib/MergePlan.h
@@ -261,10 +261,12 @@ class MergePlan {
      * @param pairing The pairing of left -> right coordinates
      * @param elements The elements from the mesh with suitable entities
      * @return The id's of the MeshEntities on the left that could be merged.
-     *   Indexed by the coordinate ids of the nodes as th
+     *   Indexed by the coordinate ids of the nodes as the right partner should
+     *   have. There are several for the same coordinates if the pairing maps
+     *   several left coordinates to the same right coordinate.
      */
     template <std::size_t d>
-    static std::map<std::set<CoordId>, EntityGId> findLeftCandidates(
+    static std::multimap<std::set<CoordId>, EntityGId> findLeftCandidates(
         const std::map<CoordId, CoordId>& pairing,
         const MergeElements& elements);
 
@@ -397,7 +399,7 @@ void MergePlan<dimension>::computeMergePlanLevels(
 
     // Eligible left-entities, indexed by the mapped coordinates (i.e.
     // coordinates in the right set).
-    std::map<std::set<CoordId>, EntityGId> leftCandidates =
+    std::multimap<std::set<CoordId>, EntityGId> leftCandidates =
         findLeftCandidates<d>(pairing, elements);
 
     logger(DEBUG, "Found % left candidates of dimension %",
@@ -422,8 +424,9 @@ void MergePlan<dimension>::computeMergePlanLevels(
                     return rightElement.getCoordinateIndex(nodeNumber);
                 });
 
-            auto candidateIter = leftCandidates.find(rightCoords);
-            if (candidateIter != leftCandidates.end()) {
+            auto candidates = leftCandidates.equal_range(rightCoords);
+            for (auto candidateIter = candidates.first;
+                 candidateIter != candidates.second; ++candidateIter) {
                 // A matching left element is found.
                 EntityGId leftEntity = candidateIter->second;
                 EntityGId rightEntity =
@@ -443,11 +446,13 @@ void MergePlan<dimension>::computeMergePlanLevels(
 
 template <std::size_t dimension>
 template <std::size_t d>
-std::map<std::set<CoordId>, EntityGId> MergePlan<dimension>::findLeftCandidates(
-    const std::map<CoordId, CoordId>& pairing, const MergeElements& elements) {
+std::multimap<std::set<CoordId>, EntityGId>
+    MergePlan<dimension>::findLeftCandidates(
+        const std::map<CoordId, CoordId>& pairing,
+        const MergeElements& elements) {
     // Eligible left-entities, indexed by the mapped coordinates (i.e.
     // coordinates in the right set).
-    std::map<std::set<CoordId>, EntityGId> leftCandidates;
+    std::multimap<std::set<CoordId>, EntityGId> leftCandidates;
 
     elements.template forEachBoundingEntity<d>(
         true, [&](const Element<dimension>& leftElement, EntityLId lid) {
@@ -485,8 +490,9 @@ std::map<std::set<CoordId>, EntityGId> MergePlan<dimension>::findLeftCandidates(
                     "coordinate. This is not supported by hpgem.");
                 return;
             }
-            leftCandidates[rightCoords] =
-                leftElement.template getIncidentEntityIndex<d>(lid);
+            leftCandidates.emplace(
+                rightCoords,
+                leftElement.template getIncidentEntityIndex<d>(lid));
         });
     return leftCandidates;
 }
-- 
2.43.0


From 58778c1599560a1811c3931638c3084c6a6d415c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:15 +0000
Subject: [PATCH 18/56] fix: the written mesh keeps the coordinates of an
 element that uses a node twice

---
 applications/Preprocessor/lib/output_impl.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/applications/Preprocessor/lib/output_impl.h b/applications/Preprocessor/lib/output_impl.h
index 82fb591..b42dfe5 100644
--- a/applications/Preprocessor/lib/output_impl.h
+++ b/applications/Preprocessor/lib/output_impl.h
@@ -178,10 +178,19 @@ void outputMesh(Mesh<dimension>& mesh,
     output << "elements" << std::endl;
     for (auto element : mesh.getElements()) {
         output << element.getNumberOfNodes() << " ";
+        std::size_t localNodeIndex = 0;
         for (auto node : element.getNodesList()) {
             output << node.getGlobalIndex().id << " ";
-            output << coordinateIndices[node][node.getElementIndex(element)]
-                   << " ";
+            // The element may use the same node more than once, with a
+            // different coordinate each time
+            std::size_t i = 0;
+            while (node.getElement(i).getGlobalIndex() !=
+                       element.getGlobalIndex() ||
+                   node.getLocalIndex(i).id != localNodeIndex) {
+                ++i;
+            }
+            output << coordinateIndices[node][i] << " ";
+            ++localNodeIndex;
         }
         output << partitions[element] << " ";
         std::set<std::size_t> shadowPartitions;
-- 
2.43.0


From e8624e8d1fb43254ad8661750175e2664a0cf703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:34 +0000
Subject: [PATCH 19/56] fix: tensor fields in VTK files have nine components

---
 kernel/Output/VTKSpecificTimeWriter_Impl.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kernel/Output/VTKSpecificTimeWriter_Impl.h b/kernel/Output/VTKSpecificTimeWriter_Impl.h
index 6be2535..fe50176 100644
--- a/kernel/Output/VTKSpecificTimeWriter_Impl.h
+++ b/kernel/Output/VTKSpecificTimeWriter_Impl.h
@@ -166,10 +166,8 @@ void VTKSpecificTimeWriter<DIM>::writeMultiple(
                         << std::endl;
         }
         for (const auto& entry : tensors) {
-            // Note: It seems strange that this is identical to the vector case
-            // this was just copied from the previous implementation.
             masterFile_ << R"(      <PDataArray type="Float64" Name=")"
-                        << entry.first << R"(" NumberOfComponents="3"/>)"
+                        << entry.first << R"(" NumberOfComponents="9"/>)"
                         << std::endl;
         }
     }
@@ -233,7 +231,7 @@ void VTKSpecificTimeWriter<DIM>::writeMultiple(
     for (const auto& entry : tensors) {
         const std::string& name = entry.first;
         localFile_ << R"(      <DataArray type="Float64" Name=")" << name
-                   << R"(" NumberOfComponents="3" format="binary">)"
+                   << R"(" NumberOfComponents="9" format="binary">)"
                    << std::endl;
         localFile_ << "        ";
         writeBinaryDataArrayData(data[name]);
-- 
2.43.0


From dfaf3cd0ea36941899a1af14d9681b347084fba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:34 +0000
Subject: [PATCH 20/56] fix: the times in a VTK collection identify the frames

---
 kernel/Output/VTKTimeDependentWriter_Impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kernel/Output/VTKTimeDependentWriter_Impl.h b/kernel/Output/VTKTimeDependentWriter_Impl.h
index 1ae4332..5f8e19b 100644
--- a/kernel/Output/VTKTimeDependentWriter_Impl.h
+++ b/kernel/Output/VTKTimeDependentWriter_Impl.h
@@ -42,6 +42,7 @@
 #include "base64.h"
 
 #include "Base/CommandLineOptions.h"
+#include <limits>
 
 namespace hpgem {
 template <std::size_t DIM>
@@ -71,6 +72,8 @@ Output::VTKTimeDependentWriter<DIM>::VTKTimeDependentWriter(
                        baseFileName);
             }
         }
+        // Enough digits to tell any two different times apart
+        masterFile_.precision(std::numeric_limits<double>::max_digits10);
         masterFile_ << "<?xml version=\"1.0\"?>" << std::endl;
         masterFile_
             << "<VTKFile type=\"Collection\" version=\"0.1\" byte_order=\""
-- 
2.43.0


From 37a60b36ca1f876fbfea713f0b2081bf535bdbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:43 +0000
Subject: [PATCH 21/56] fix: conforming face functions of the cube when the
 axes are exchanged

The polynomial orders were always attached to the axes of the cube instead of
to the directions given by the nodes, so the functions of the two elements
next to a face differed when one element sees the face with its axes
exchanged (order three and higher).
---
 kernel/FE/BasisFunctions3DH1ConformingCube.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/kernel/FE/BasisFunctions3DH1ConformingCube.cpp b/kernel/FE/BasisFunctions3DH1ConformingCube.cpp
index 6189249..5160349 100644
--- a/kernel/FE/BasisFunctions3DH1ConformingCube.cpp
+++ b/kernel/FE/BasisFunctions3DH1ConformingCube.cpp
@@ -45,6 +45,7 @@
 
 // only uses the constant basis functions
 #include "BasisFunctionsPiecewiseConstant.h"
+#include <utility>
 
 namespace hpgem {
 
@@ -238,6 +239,11 @@ BasisFunction3DFaceCube_0::BasisFunction3DFaceCube_0(
     logger.assert_debug(
         node0 % 2 == node2 % 2,
         "This class is intended for faces aligned in the x-direction");
+    // the first polynomial order belongs to the direction from node0 to node1
+    if (node0 / 4 != node1 / 4) {
+        std::swap(node1, node2);
+        std::swap(polynomialOrder1_, polynomialOrder2_);
+    }
     mirroring1_ = node0 < node1 ? 1 : -1;  // choices about mirroring need only
                                            // be consistent for one face
     mirroring2_ = node0 < node2 ? 1 : -1;
@@ -290,6 +296,11 @@ BasisFunction3DFaceCube_1::BasisFunction3DFaceCube_1(
     logger.assert_debug(
         (node0 / 2) % 2 == (node2 / 2) % 2,
         "This class is intended for faces aligned in the y-direction");
+    // the first polynomial order belongs to the direction from node0 to node1
+    if (node0 / 4 != node1 / 4) {
+        std::swap(node1, node2);
+        std::swap(polynomialOrder0_, polynomialOrder2_);
+    }
     mirroring0_ = node0 < node1 ? 1 : -1;
     mirroring2_ = node0 < node2 ? 1 : -1;
     facePosition_ = ((static_cast<int>(node0) / 2) % 2) * 2 - 1;
@@ -348,6 +359,11 @@ BasisFunction3DFaceCube_2::BasisFunction3DFaceCube_2(
     logger.assert_debug(
         node0 / 4 == node2 / 4,
         "This class is intended for faces aligned in the x-direction");
+    // the first polynomial order belongs to the direction from node0 to node1
+    if (node0 % 2 == node1 % 2) {
+        std::swap(node1, node2);
+        std::swap(polynomialOrder0_, polynomialOrder1_);
+    }
     mirroring0_ = node0 < node1 ? 1 : -1;
     mirroring1_ = node0 < node2 ? 1 : -1;
     facePosition_ = (static_cast<int>(node0) / 4) * 2 - 1;
-- 
2.43.0


From 7377c841c73c515dcb52c373fa9c47ebdb8a8752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:47 +0000
Subject: [PATCH 22/56] fix: direction of the face to face mapping of
 quadrilateral faces

The two quarter turns were exchanged, so the left and right images of a point
of such a face (and the conforming functions of its elements) did not match.
---
 kernel/Geometry/FaceGeometry.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/kernel/Geometry/FaceGeometry.cpp b/kernel/Geometry/FaceGeometry.cpp
index 16ce724..07fbbde 100644
--- a/kernel/Geometry/FaceGeometry.cpp
+++ b/kernel/Geometry/FaceGeometry.cpp
@@ -150,8 +150,16 @@ void FaceGeometry::initialiseFaceToFaceMapIndex(
     const std::vector<std::size_t>& rightNodes) {
     logger.assert_debug(leftNodes.size() == rightNodes.size(),
                         "Inconsistent amount of nodes for left and right face");
-    faceToFaceMapIndex_ =
-        getReferenceGeometry()->getCodim0MappingIndex(leftNodes, rightNodes);
+    const ReferenceGeometry* geometry = getReferenceGeometry();
+    if (geometry->getGeometryType() == ReferenceGeometryType::SQUARE) {
+        // the square returns the mapping in the opposite direction, which
+        // matters for the rotations over 90 degrees
+        faceToFaceMapIndex_ =
+            geometry->getCodim0MappingIndex(rightNodes, leftNodes);
+    } else {
+        faceToFaceMapIndex_ =
+            geometry->getCodim0MappingIndex(leftNodes, rightNodes);
+    }
 }
 
 bool FaceGeometry::isInternal() const {
-- 
2.43.0


From 8a84713ac0881d899626a94f7c986adc06c6e676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:23 +0000
Subject: [PATCH 23/56] fix: PhysicalFace follows the number of basis functions
 of the current face

Only the sizes of the first face were used, which on meshes with several
shapes or several sets of basis functions gave functions of the wrong element
and result matrices of the wrong size.
---
 kernel/Base/PhysicalFace_Impl.h | 62 ++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 32 deletions(-)

diff --git a/kernel/Base/PhysicalFace_Impl.h b/kernel/Base/PhysicalFace_Impl.h
index 5bda610..b30d58b 100644
--- a/kernel/Base/PhysicalFace_Impl.h
+++ b/kernel/Base/PhysicalFace_Impl.h
@@ -845,45 +845,43 @@ inline void PhysicalFace<DIM>::setFace(const Face* face) {
                         "This face is not supported by this physical face");
     std::size_t numberOfUnknowns =
         face->getPtrElementLeft()->getNumberOfUnknowns();
-    if (!hasFace) {
-        std::size_t leftCoefficients =
-            face->getPtrElementLeft()->getTotalNumberOfBasisFunctions();
-        nLeftBasisFunctions.resize(numberOfUnknowns);
-        basisFunctionNormal_.resize(numberOfUnknowns);
-        vectorBasisFunctionNormal_.resize(numberOfUnknowns);
-        basisFunctionUnitNormal_.resize(numberOfUnknowns);
-        vectorBasisFunctionUnitNormal_.resize(numberOfUnknowns);
-        std::size_t rightCoefficients = 0;
-        for (std::size_t i = 0; i < numberOfUnknowns; ++i) {
+    std::size_t leftCoefficients =
+        face->getPtrElementLeft()->getTotalNumberOfBasisFunctions();
+    nLeftBasisFunctions.resize(numberOfUnknowns);
+    basisFunctionNormal_.resize(numberOfUnknowns);
+    vectorBasisFunctionNormal_.resize(numberOfUnknowns);
+    basisFunctionUnitNormal_.resize(numberOfUnknowns);
+    vectorBasisFunctionUnitNormal_.resize(numberOfUnknowns);
+    std::size_t rightCoefficients = 0;
+    for (std::size_t i = 0; i < numberOfUnknowns; ++i) {
+        std::size_t numBasis =
+            face->getPtrElementLeft()->getNumberOfBasisFunctions(i);
+        basisFunctionNormal_[i].resize(numBasis);
+        vectorBasisFunctionNormal_[i].resize(numBasis);
+        basisFunctionUnitNormal_[i].resize(numBasis);
+        vectorBasisFunctionUnitNormal_[i].resize(numBasis);
+        nLeftBasisFunctions[i] = numBasis;
+    }
+    if (isInternal_) {
+        rightCoefficients =
+            face->getPtrElementRight()->getTotalNumberOfBasisFunctions();
+        // We assume that in the left and right element the number of
+        // unknowns is equal.
+        for (std::size_t i = 0;
+             i < face->getPtrElementRight()->getNumberOfUnknowns(); ++i) {
             std::size_t numBasis =
-                face->getPtrElementLeft()->getNumberOfBasisFunctions(i);
+                face->getPtrElementLeft()->getNumberOfBasisFunctions(i) +
+                face->getPtrElementRight()->getNumberOfBasisFunctions(i);
             basisFunctionNormal_[i].resize(numBasis);
             vectorBasisFunctionNormal_[i].resize(numBasis);
             basisFunctionUnitNormal_[i].resize(numBasis);
             vectorBasisFunctionUnitNormal_[i].resize(numBasis);
-            nLeftBasisFunctions[i] = numBasis;
-        }
-        if (isInternal_) {
-            rightCoefficients =
-                face->getPtrElementRight()->getTotalNumberOfBasisFunctions();
-            // We assume that in the left and right element the number of
-            // unknowns is equal.
-            for (std::size_t i = 0;
-                 i < face->getPtrElementRight()->getNumberOfUnknowns(); ++i) {
-                std::size_t numBasis =
-                    face->getPtrElementLeft()->getNumberOfBasisFunctions(i) +
-                    face->getPtrElementRight()->getNumberOfBasisFunctions(i);
-                basisFunctionNormal_[i].resize(numBasis);
-                vectorBasisFunctionNormal_[i].resize(numBasis);
-                basisFunctionUnitNormal_[i].resize(numBasis);
-                vectorBasisFunctionUnitNormal_[i].resize(numBasis);
-            }
         }
-        resultMatrix.resize(leftCoefficients, rightCoefficients);
-        leftRightMatrix.resize(leftCoefficients, rightCoefficients);
-        rightLeftMatrix.resize(rightCoefficients, leftCoefficients);
-        resultVector.resize(leftCoefficients + rightCoefficients);
     }
+    resultMatrix.resize(leftCoefficients, rightCoefficients);
+    leftRightMatrix.resize(leftCoefficients, rightCoefficients);
+    rightLeftMatrix.resize(rightCoefficients, leftCoefficients);
+    resultVector.resize(leftCoefficients + rightCoefficients);
     face_ = face;
     hasFace = true;
     left.setElement(face->getPtrElementLeft());
-- 
2.43.0


From 12f39b6c97253322c86ced91604e47ccc7506352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:23 +0000
Subject: [PATCH 24/56] fix: basis functions times the normal use the functions
 of the unknown asked for

---
 kernel/Base/PhysicalFace_Impl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kernel/Base/PhysicalFace_Impl.h b/kernel/Base/PhysicalFace_Impl.h
index b30d58b..e91b61d 100644
--- a/kernel/Base/PhysicalFace_Impl.h
+++ b/kernel/Base/PhysicalFace_Impl.h
@@ -156,7 +156,8 @@ inline const LinearAlgebra::SmallVector<DIM>&
 
     for (std::size_t j = 0; j < face_->getNumberOfBasisFunctions(unknown);
          ++j) {
-        basisFunctionNormal_[unknown][j] = getNormalVector() * basisFunction(j);
+        basisFunctionNormal_[unknown][j] =
+            getNormalVector() * basisFunction(j, unknown);
         if (j >= nLeftBasisFunctions[unknown]) {
             basisFunctionNormal_[unknown][j] *= -1.;
         }
@@ -228,7 +229,7 @@ inline const LinearAlgebra::SmallVector<DIM>&
     for (std::size_t j = 0; j < face_->getNumberOfBasisFunctions(unknown);
          ++j) {
         basisFunctionUnitNormal_[unknown][j] =
-            getUnitNormalVector() * basisFunction(j);
+            getUnitNormalVector() * basisFunction(j, unknown);
         if (j >= nLeftBasisFunctions[unknown]) {
             basisFunctionUnitNormal_[unknown][j] *= -1.;
         }
-- 
2.43.0


From a5ece5e9175883f1fb9bc5c1c28752e816bccabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:42 +0000
Subject: [PATCH 25/56] fix: the cross products of vector functions with the
 normal are available per side

---
 kernel/Base/PhysicalFace_Impl.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/kernel/Base/PhysicalFace_Impl.h b/kernel/Base/PhysicalFace_Impl.h
index e91b61d..bada102 100644
--- a/kernel/Base/PhysicalFace_Impl.h
+++ b/kernel/Base/PhysicalFace_Impl.h
@@ -429,11 +429,11 @@ inline void PhysicalFace<DIM>::basisFunctionNormalCross(
     logger.assert_debug(hasPointReference && hasFace,
                         "Need a location to evaluate the data");
     if (side == Side::LEFT) {
-        return basisFunctionNormal(i, result);
+        return basisFunctionNormalCross(i, result);
     }
     logger.assert_debug(isInternal_,
                         "cannot find the right element for a boundary face");
-    return basisFunctionNormal(i + nLeftBasisFunctions[0], result);
+    return basisFunctionNormalCross(i + nLeftBasisFunctions[0], result);
 }
 
 template <std::size_t DIM>
@@ -443,11 +443,11 @@ inline void PhysicalFace<DIM>::basisFunctionNormalCross(
     logger.assert_debug(hasPointReference && hasFace,
                         "Need a location to evaluate the data");
     if (side == Side::LEFT) {
-        return basisFunctionNormal(i, result, unknown);
+        return basisFunctionNormalCross(i, result, unknown);
     }
     logger.assert_debug(isInternal_,
                         "cannot find the right element for a boundary face");
-    return basisFunctionNormal(i + nLeftBasisFunctions[unknown], result,
+    return basisFunctionNormalCross(i + nLeftBasisFunctions[unknown], result,
                                unknown);
 }
 
@@ -537,11 +537,11 @@ inline void PhysicalFace<DIM>::basisFunctionUnitNormalCross(
     logger.assert_debug(hasPointReference && hasFace,
                         "Need a location to evaluate the data");
     if (side == Side::LEFT) {
-        return basisFunctionUnitNormal(i, result);
+        return basisFunctionUnitNormalCross(i, result);
     }
     logger.assert_debug(isInternal_,
                         "cannot find the right element for a boundary face");
-    return basisFunctionUnitNormal(i + nLeftBasisFunctions[0], result);
+    return basisFunctionUnitNormalCross(i + nLeftBasisFunctions[0], result);
 }
 template <std::size_t DIM>
 inline void PhysicalFace<DIM>::basisFunctionUnitNormalCross(
@@ -550,11 +550,11 @@ inline void PhysicalFace<DIM>::basisFunctionUnitNormalCross(
     logger.assert_debug(hasPointReference && hasFace,
                         "Need a location to evaluate the data");
     if (side == Side::LEFT) {
-        return basisFunctionUnitNormal(i, result, unknown);
+        return basisFunctionUnitNormalCross(i, result, unknown);
     }
     logger.assert_debug(isInternal_,
                         "cannot find the right element for a boundary face");
-    return basisFunctionUnitNormal(i + nLeftBasisFunctions[unknown], result,
+    return basisFunctionUnitNormalCross(i + nLeftBasisFunctions[unknown], result,
                                    unknown);
 }
 
-- 
2.43.0


From 40e46491fabd74161ca46b9b651bab3f4ae878cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:42 +0000
Subject: [PATCH 26/56] fix: quadrature points of a PhysicalFace are mapped to
 the elements of the current face

---
 kernel/Base/PhysicalFace_Impl.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kernel/Base/PhysicalFace_Impl.h b/kernel/Base/PhysicalFace_Impl.h
index bada102..36c31f4 100644
--- a/kernel/Base/PhysicalFace_Impl.h
+++ b/kernel/Base/PhysicalFace_Impl.h
@@ -896,6 +896,13 @@ inline void PhysicalFace<DIM>::setFace(const Face* face) {
                 face_->mapRefFaceToRefElemR(pointReference_));
         }
     }
+    // a quadrature rule that is in use has to be mapped to the new elements
+    if (mapToLeftElement) {
+        mapToLeftElement = face_->refFaceToRefElemMapL();
+    }
+    if (mapToRightElement) {
+        mapToRightElement = face_->refFaceToRefElemMapR();
+    }
     // even if they are already computed, the information is now out of date
     hasBasisFunctionNormal.assign(numberOfUnknowns, false);
     hasBasisFunctionUnitNormal.assign(numberOfUnknowns, false);
-- 
2.43.0


From 16bbb14c98438ac4f15fc1d211e7c24e1c4226da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:04 +0000
Subject: [PATCH 27/56] fix: unknowns without a transformation of their own use
 that of the first unknown

Asking for the functions of a second unknown read past the end of the list of
transformations unless one had been set for every unknown.
---
 kernel/Base/PhysicalElement.h      |  5 +++
 kernel/Base/PhysicalElement_Impl.h | 67 ++++++++++++++++++------------
 kernel/Base/PhysicalFace_Impl.h    | 25 ++++++-----
 3 files changed, 59 insertions(+), 38 deletions(-)

diff --git a/kernel/Base/PhysicalElement.h b/kernel/Base/PhysicalElement.h
index 9c5e828..2a553fe 100644
--- a/kernel/Base/PhysicalElement.h
+++ b/kernel/Base/PhysicalElement.h
@@ -222,6 +222,11 @@ class PhysicalElement final : public CoordinateTransformationData<DIM> {
     void setQuadraturePointIndex(std::size_t index);
 
    private:
+    /// the transformation for this unknown, unknowns for which none has been
+    /// set use that of the first unknown
+    const Base::CoordinateTransformation<DIM> &transformation(
+        std::size_t unknown) const;
+
     const Base::Element *theElement_;
 
     Geometry::PointReference<DIM> pointReference_;
diff --git a/kernel/Base/PhysicalElement_Impl.h b/kernel/Base/PhysicalElement_Impl.h
index ffbeafb..9e49b5b 100644
--- a/kernel/Base/PhysicalElement_Impl.h
+++ b/kernel/Base/PhysicalElement_Impl.h
@@ -100,19 +100,21 @@ inline double PhysicalElement<DIM>::basisFunction(std::size_t i,
          ++j) {
         if (hasQuadratureRule) {
             if (doesMapQuadraturePointFromFace) {
-                basisFunctionValue[unknown][j] = transform_[unknown]->transform(
-                    theElement_->basisFunction(j, quadratureRule_,
-                                               quadraturePointIndex_,
-                                               faceToElementMap_, unknown),
-                    *this);
+                basisFunctionValue[unknown][j] =
+                    transformation(unknown).transform(
+                        theElement_->basisFunction(j, quadratureRule_,
+                                                   quadraturePointIndex_,
+                                                   faceToElementMap_, unknown),
+                        *this);
             } else {
-                basisFunctionValue[unknown][j] = transform_[unknown]->transform(
-                    theElement_->basisFunction(j, quadratureRule_,
-                                               quadraturePointIndex_, unknown),
-                    *this);
+                basisFunctionValue[unknown][j] =
+                    transformation(unknown).transform(
+                        theElement_->basisFunction(
+                            j, quadratureRule_, quadraturePointIndex_, unknown),
+                        *this);
             }
         } else {
-            basisFunctionValue[unknown][j] = transform_[unknown]->transform(
+            basisFunctionValue[unknown][j] = transformation(unknown).transform(
                 theElement_->basisFunction(j, pointReference_, unknown), *this);
         }
     }
@@ -167,21 +169,21 @@ inline const LinearAlgebra::SmallVector<DIM>&
         if (hasQuadratureRule) {
             if (doesMapQuadraturePointFromFace) {
                 basisFunctionDeriv_[unknown][j] =
-                    transform_[unknown]->transformDeriv(
+                    transformation(unknown).transformDeriv(
                         theElement_->basisFunctionDeriv<DIM>(
                             j, quadratureRule_, quadraturePointIndex_,
                             faceToElementMap_, unknown),
                         *this);
             } else {
                 basisFunctionDeriv_[unknown][j] =
-                    transform_[unknown]->transformDeriv(
+                    transformation(unknown).transformDeriv(
                         theElement_->basisFunctionDeriv<DIM>(
                             j, quadratureRule_, quadraturePointIndex_, unknown),
                         *this);
             }
         } else {
             basisFunctionDeriv_[unknown][j] =
-                transform_[unknown]->transformDeriv(
+                transformation(unknown).transformDeriv(
                     theElement_->basisFunctionDeriv(j, pointReference_,
                                                     unknown),
                     *this);
@@ -247,14 +249,14 @@ inline void PhysicalElement<DIM>::basisFunction(
                         faceToElementMap_, vectorBasisFunctionValue[unknown][j],
                         unknown);
                     vectorBasisFunctionValue[unknown][j] =
-                        transform_[unknown]->transform(
+                        transformation(unknown).transform(
                             vectorBasisFunctionValue[unknown][j], *this);
                 } else {
                     theElement_->basisFunction(
                         j, quadratureRule_, quadraturePointIndex_,
                         vectorBasisFunctionValue[unknown][j], unknown);
                     vectorBasisFunctionValue[unknown][j] =
-                        transform_[unknown]->transform(
+                        transformation(unknown).transform(
                             vectorBasisFunctionValue[unknown][j], *this);
                 }
             } else {
@@ -262,7 +264,7 @@ inline void PhysicalElement<DIM>::basisFunction(
                                            vectorBasisFunctionValue[unknown][j],
                                            unknown);
                 vectorBasisFunctionValue[unknown][j] =
-                    transform_[unknown]->transform(
+                    transformation(unknown).transform(
                         vectorBasisFunctionValue[unknown][j], *this);
             }
         }
@@ -318,22 +320,23 @@ inline const LinearAlgebra::SmallVector<DIM>&
         if (hasQuadratureRule) {
             if (doesMapQuadraturePointFromFace) {
                 basisFunctionCurl_[unknown][j] =
-                    transform_[unknown]->transformCurl(
+                    transformation(unknown).transformCurl(
                         theElement_->basisFunctionCurl<DIM>(
                             j, quadratureRule_, quadraturePointIndex_,
                             faceToElementMap_, unknown),
                         *this);
             } else {
                 basisFunctionCurl_[unknown][j] =
-                    transform_[unknown]->transformCurl(
+                    transformation(unknown).transformCurl(
                         theElement_->basisFunctionCurl<DIM>(
                             j, quadratureRule_, quadraturePointIndex_, unknown),
                         *this);
             }
         } else {
-            basisFunctionCurl_[unknown][j] = transform_[unknown]->transformCurl(
-                theElement_->basisFunctionCurl(j, pointReference_, unknown),
-                *this);
+            basisFunctionCurl_[unknown][j] =
+                transformation(unknown).transformCurl(
+                    theElement_->basisFunctionCurl(j, pointReference_, unknown),
+                    *this);
         }
     }
     return basisFunctionCurl_[unknown][i];
@@ -383,22 +386,23 @@ inline const double& PhysicalElement<DIM>::basisFunctionDiv(
         if (hasQuadratureRule) {
             if (doesMapQuadraturePointFromFace) {
                 basisFunctionDiv_[unknown][j] =
-                    transform_[unknown]->transformDiv(
+                    transformation(unknown).transformDiv(
                         theElement_->basisFunctionDiv(
                             j, quadratureRule_, quadraturePointIndex_,
                             faceToElementMap_, unknown),
                         *this);
             } else {
                 basisFunctionDiv_[unknown][j] =
-                    transform_[unknown]->transformDiv(
+                    transformation(unknown).transformDiv(
                         theElement_->basisFunctionDiv(
                             j, quadratureRule_, quadraturePointIndex_, unknown),
                         *this);
             }
         } else {
-            basisFunctionDiv_[unknown][j] = transform_[unknown]->transformDiv(
-                theElement_->basisFunctionDiv(j, pointReference_, unknown),
-                *this);
+            basisFunctionDiv_[unknown][j] =
+                transformation(unknown).transformDiv(
+                    theElement_->basisFunctionDiv(j, pointReference_, unknown),
+                    *this);
         }
     }
     return basisFunctionDiv_[unknown][i];
@@ -616,7 +620,16 @@ inline const Base::CoordinateTransformation<DIM>*
     PhysicalElement<DIM>::getTransformation(std::size_t unknown) {
     logger.assert_debug(unknown < theElement_->getNumberOfUnknowns(),
                         "Unknown % does not exist", unknown);
-    return transform_[unknown].get();
+    return &transformation(unknown);
+}
+
+template <std::size_t DIM>
+inline const Base::CoordinateTransformation<DIM>&
+    PhysicalElement<DIM>::transformation(std::size_t unknown) const {
+    if (unknown < transform_.size() && transform_[unknown]) {
+        return *transform_[unknown];
+    }
+    return *transform_[0];
 }
 
 template <std::size_t DIM>
diff --git a/kernel/Base/PhysicalFace_Impl.h b/kernel/Base/PhysicalFace_Impl.h
index 36c31f4..84a4025 100644
--- a/kernel/Base/PhysicalFace_Impl.h
+++ b/kernel/Base/PhysicalFace_Impl.h
@@ -69,7 +69,8 @@ inline double PhysicalFace<DIM>::basisFunction(std::size_t i,
     double value =
         right.basisFunction(i - nLeftBasisFunctions[unknown], unknown);
     if (requiresTransformation) {
-        value = transform_[unknown]->transform(value, rightVectorTransform);
+        value = left.getTransformation(unknown)->transform(
+            value, rightVectorTransform);
     }
     return value;
 }
@@ -102,7 +103,8 @@ inline double PhysicalFace<DIM>::basisFunction(Side side, std::size_t i,
                         "cannot find the right element for a boundary face");
     double value = right.basisFunction(i, unknown);
     if (requiresTransformation) {
-        value = transform_[unknown]->transform(value, rightVectorTransform);
+        value = left.getTransformation(unknown)->transform(
+            value, rightVectorTransform);
     }
     return value;
 }
@@ -293,7 +295,8 @@ inline void PhysicalFace<DIM>::basisFunction(
     logger.assert_debug(isInternal_, "basis function index out of bounds");
     right.basisFunction(i - nLeftBasisFunctions[unknown], result, unknown);
     if (requiresTransformation) {
-        result = transform_[unknown]->transform(result, rightVectorTransform);
+        result = left.getTransformation(unknown)->transform(
+            result, rightVectorTransform);
     }
     return;
 }
@@ -328,8 +331,8 @@ inline void PhysicalFace<DIM>::basisFunction(
             isInternal_, "cannot find the right element for a boundary face");
         right.basisFunction(i, result, unknown);
         if (requiresTransformation) {
-            result =
-                transform_[unknown]->transform(result, rightVectorTransform);
+            result = left.getTransformation(unknown)->transform(
+                result, rightVectorTransform);
         }
     }
 }
@@ -448,7 +451,7 @@ inline void PhysicalFace<DIM>::basisFunctionNormalCross(
     logger.assert_debug(isInternal_,
                         "cannot find the right element for a boundary face");
     return basisFunctionNormalCross(i + nLeftBasisFunctions[unknown], result,
-                               unknown);
+                                    unknown);
 }
 
 template <std::size_t DIM>
@@ -554,8 +557,8 @@ inline void PhysicalFace<DIM>::basisFunctionUnitNormalCross(
     }
     logger.assert_debug(isInternal_,
                         "cannot find the right element for a boundary face");
-    return basisFunctionUnitNormalCross(i + nLeftBasisFunctions[unknown], result,
-                                   unknown);
+    return basisFunctionUnitNormalCross(i + nLeftBasisFunctions[unknown],
+                                        result, unknown);
 }
 
 template <std::size_t DIM>
@@ -1034,7 +1037,7 @@ void PhysicalFace<DIM>::computeBasisFunctionDeriv(
         } else {
             values[i] = right.basisFunctionDeriv(i - nLeft, unknown);
             if (requiresTransformation) {
-                values[i] = transform_[unknown]->transformDeriv(
+                values[i] = left.getTransformation(unknown)->transformDeriv(
                     values[i], rightVectorTransform);
             }
         }
@@ -1053,7 +1056,7 @@ void PhysicalFace<DIM>::computeBasisFunctionCurl(
         } else {
             values[i] = right.basisFunctionCurl(i - nLeft, unknown);
             if (requiresTransformation) {
-                values[i] = transform_[unknown]->transformCurl(
+                values[i] = left.getTransformation(unknown)->transformCurl(
                     values[i], rightVectorTransform);
             }
         }
@@ -1073,7 +1076,7 @@ void PhysicalFace<DIM>::computeBasisFunctionDiv(std::vector<double>& values,
         } else {
             values[i] = right.basisFunctionDiv(i - nLeft, unknown);
             if (requiresTransformation) {
-                values[i] = transform_[unknown]->transformDiv(
+                values[i] = left.getTransformation(unknown)->transformDiv(
                     values[i], rightVectorTransform);
             }
         }
-- 
2.43.0


From ad604906c303e83df11ffde80452c08d2e27114b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:04 +0000
Subject: [PATCH 28/56] fix: the solution at a point uses the basis functions
 of each unknown

---
 kernel/Base/Element.h              | 4 ++--
 kernel/Base/PhysicalElement_Impl.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/kernel/Base/Element.h b/kernel/Base/Element.h
index 6eec26d..508466b 100644
--- a/kernel/Base/Element.h
+++ b/kernel/Base/Element.h
@@ -787,7 +787,7 @@ Element::SolutionVector Element::getSolution(
         numberOfBasisFunctions[iV] = ElementData::getNumberOfBasisFunctions(iV);
         for (std::size_t iB = 0; iB < numberOfBasisFunctions[iV]; ++iB) {
             iVB = convertToSingleIndex(iB, iV);
-            solution[iV] += data(iVB) * basisFunction(iB, p);
+            solution[iV] += data(iVB) * basisFunction(iB, p, iV);
         }
     }
     return solution;
@@ -813,7 +813,7 @@ std::vector<LinearAlgebra::SmallVector<DIM>> Element::getSolutionGradient(
         numberOfBasisFunctions[iV] = ElementData::getNumberOfBasisFunctions(iV);
         for (std::size_t iB = 0; iB < numberOfBasisFunctions[iV]; ++iB) {
             iVB = convertToSingleIndex(iB, iV);
-            auto derivative = basisFunctionDeriv(iB, p);
+            auto derivative = basisFunctionDeriv(iB, p, iV);
             jacobean.solve(derivative);
             solution[iV] += data(iVB) * derivative;
         }
diff --git a/kernel/Base/PhysicalElement_Impl.h b/kernel/Base/PhysicalElement_Impl.h
index 9e49b5b..e22311e 100644
--- a/kernel/Base/PhysicalElement_Impl.h
+++ b/kernel/Base/PhysicalElement_Impl.h
@@ -433,7 +433,7 @@ inline const LinearAlgebra::MiddleSizeVector&
         numberOfBasisFunctions[iV] = theElement_->getNumberOfBasisFunctions(iV);
         for (std::size_t iB = 0; iB < numberOfBasisFunctions[iV]; ++iB) {
             iVb = theElement_->convertToSingleIndex(iB, iV);
-            solution[iV] += data(iVb) * basisFunction(iB);
+            solution[iV] += data(iVb) * basisFunction(iB, iV);
         }
     }
     return solution;
@@ -463,7 +463,7 @@ inline const std::vector<LinearAlgebra::SmallVector<DIM> >&
         numberOfBasisFunctions[iV] = theElement_->getNumberOfBasisFunctions(iV);
         for (std::size_t iB = 0; iB < numberOfBasisFunctions[iV]; ++iB) {
             iVB = convertToSingleIndex(iB, iV);
-            solutionDeriv[iV] += data(iVB) * basisFunctionDeriv(iB);
+            solutionDeriv[iV] += data(iVB) * basisFunctionDeriv(iB, iV);
         }
     }
     return solutionDeriv;
-- 
2.43.0


From 6fb636a077665fdd01e976a1dfe64ebb34f22519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:43 +0000
Subject: [PATCH 29/56] fix: tolerance of the time loop covers the round off of
 many steps

---
 kernel/Base/HpgemAPISimplified_Impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kernel/Base/HpgemAPISimplified_Impl.h b/kernel/Base/HpgemAPISimplified_Impl.h
index 3c7e352..fa81286 100644
--- a/kernel/Base/HpgemAPISimplified_Impl.h
+++ b/kernel/Base/HpgemAPISimplified_Impl.h
@@ -997,7 +997,9 @@ bool HpgemAPISimplified<DIM>::solve(const double initialTime,
     // Round off when comparing times. The error in a time grows with the size
     // of the time itself and the number of steps, so an absolute tolerance does
     // not work for all intervals.
-    const double timeTolerance = 1e-6 * dt;
+    const double timeTolerance =
+        1e-6 * dt + numberOfTimeSteps * std::numeric_limits<double>::epsilon() *
+                        std::max(std::abs(initialTime), std::abs(finalTime));
 
     // if the user wants an adaptive time step, the default of 0.01 for dt is
     // silly
-- 
2.43.0


From 14e0a105b0ff23b615ae53f1c827879209d7bb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:25 +0000
Subject: [PATCH 30/56] fix: pass the real workspace to zgelss in
 MiddleSizeMatrix::pseudoSolve

---
 kernel/LinearAlgebra/MiddleSizeMatrix.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kernel/LinearAlgebra/MiddleSizeMatrix.cpp b/kernel/LinearAlgebra/MiddleSizeMatrix.cpp
index e407b68..b1ae3f2 100644
--- a/kernel/LinearAlgebra/MiddleSizeMatrix.cpp
+++ b/kernel/LinearAlgebra/MiddleSizeMatrix.cpp
@@ -125,7 +125,8 @@ void dgelss_(int* m, int* n, int* nrhs, double* A, int* lda, double* B,
              int* lWork, int* info);
 void zgelss_(int* m, int* n, int* nrhs, std::complex<double>* A, int* lda,
              std::complex<double>* B, int* ldb, double* s, double* rCond,
-             int* rank, std::complex<double>* work, int* lWork, int* info);
+             int* rank, std::complex<double>* work, int* lWork, double* rWork,
+             int* info);
 }
 
 MiddleSizeMatrix::MiddleSizeMatrix() : numberOfRows_(0), numberOfColumns_(0) {}
@@ -898,8 +899,9 @@ void MiddleSizeMatrix::pseudoSolve(MiddleSizeVector& b, double rCond) const {
     LinearAlgebra::MiddleSizeVector work(lWork);
     int info = 0;
 #ifdef HPGEM_USE_COMPLEX_PETSC
+    std::vector<double> rWork(5 * n);
     zgelss_(&n, &n, &nRHS, A.data(), &n, b.data(), &n, s.data(), &rCond, &rank,
-            work.data(), &lWork, &info);
+            work.data(), &lWork, rWork.data(), &info);
 #else
     dgelss_(&n, &n, &nRHS, A.data(), &n, b.data(), &n, s.data(), &rCond, &rank,
             work.data(), &lWork, &info);
-- 
2.43.0


From 518a72498e07453befc677505b2c25e06e31d373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:34 +0000
Subject: [PATCH 31/56] fix: scale matrices and vectors correctly when the
 scalar is one of their own entries

---
 kernel/LinearAlgebra/MiddleSizeMatrix.cpp | 8 ++++++--
 kernel/LinearAlgebra/MiddleSizeVector.cpp | 9 ++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/kernel/LinearAlgebra/MiddleSizeMatrix.cpp b/kernel/LinearAlgebra/MiddleSizeMatrix.cpp
index b1ae3f2..1e1ad99 100644
--- a/kernel/LinearAlgebra/MiddleSizeMatrix.cpp
+++ b/kernel/LinearAlgebra/MiddleSizeMatrix.cpp
@@ -251,14 +251,18 @@ MiddleSizeMatrix& MiddleSizeMatrix::operator*=(const MiddleSizeMatrix& other) {
 /// \param[in] scalar : A double that each element of the matrix is multiplied
 /// by \return Matrix
 MiddleSizeMatrix& MiddleSizeMatrix::operator*=(const type& scalar) {
-    for (type& d : data_) d *= scalar;
+    // scalar may refer to an entry of this matrix
+    const type factor = scalar;
+    for (type& d : data_) d *= factor;
     return *this;
 }
 
 /// \param[in] scalar : A double that each element of the matrix is divided by
 /// \return Matrix
 MiddleSizeMatrix& MiddleSizeMatrix::operator/=(const type& scalar) {
-    for (type& d : data_) d /= scalar;
+    // scalar may refer to an entry of this matrix
+    const type divisor = scalar;
+    for (type& d : data_) d /= divisor;
     return *this;
 }
 
diff --git a/kernel/LinearAlgebra/MiddleSizeVector.cpp b/kernel/LinearAlgebra/MiddleSizeVector.cpp
index 2e6e15c..e482cde 100644
--- a/kernel/LinearAlgebra/MiddleSizeVector.cpp
+++ b/kernel/LinearAlgebra/MiddleSizeVector.cpp
@@ -138,8 +138,9 @@ MiddleSizeVector::type MiddleSizeVector::operator*(
 }
 
 MiddleSizeVector& MiddleSizeVector::operator/=(const type& right) {
-
-    for (type& d : data_) d /= right;
+    // right may refer to an entry of this vector
+    const type divisor = right;
+    for (type& d : data_) d /= divisor;
     return *this;
 }
 
@@ -205,7 +206,9 @@ MiddleSizeVector& MiddleSizeVector::operator-=(const MiddleSizeVector& right) {
 }
 
 MiddleSizeVector& MiddleSizeVector::operator*=(const type& right) {
-    for (type& d : data_) d *= right;
+    // right may refer to an entry of this vector
+    const type factor = right;
+    for (type& d : data_) d *= factor;
     return *this;
 }
 
-- 
2.43.0


From f5ce3af8da2278c44a52673977bf13bc8e343576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:51 +0000
Subject: [PATCH 32/56] fix: the cross product of 3D vectors can be stored in
 one of its arguments

---
 kernel/LinearAlgebra/SmallVector.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/kernel/LinearAlgebra/SmallVector.h b/kernel/LinearAlgebra/SmallVector.h
index 8b2145b..4df8f3f 100644
--- a/kernel/LinearAlgebra/SmallVector.h
+++ b/kernel/LinearAlgebra/SmallVector.h
@@ -502,9 +502,13 @@ template <typename T>
 void computeCrossProduct(const GSmallVector<3, T>& v1,
                          const GSmallVector<3, T>& v2,
                          GSmallVector<3, T>& result) {
-    result[0] = v1.data_[1] * v2.data_[2] - v1.data_[2] * v2.data_[1];
-    result[1] = v1.data_[2] * v2.data_[0] - v1.data_[0] * v2.data_[2];
-    result[2] = v1.data_[0] * v2.data_[1] - v1.data_[1] * v2.data_[0];
+    // result may be one of the arguments
+    const T x = v1.data_[1] * v2.data_[2] - v1.data_[2] * v2.data_[1];
+    const T y = v1.data_[2] * v2.data_[0] - v1.data_[0] * v2.data_[2];
+    const T z = v1.data_[0] * v2.data_[1] - v1.data_[1] * v2.data_[0];
+    result[0] = x;
+    result[1] = y;
+    result[2] = z;
 }
 template <typename std::size_t nRows, typename T>
 void computeCrossProduct(const GSmallVector<nRows, T>&,
-- 
2.43.0


From 94c7b812c013d92ba9fe15f2c22a2e25ab72cd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:17 +0000
Subject: [PATCH 33/56] fix: gmsh elements without tags

The number of remaining tags underflowed, the reader tried to skip 2^64 - 1 of them.
---
 applications/Preprocessor/lib/gmsh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index 95a6676..dc3ef2d 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -357,7 +357,7 @@ void GmshReader::readElements() {
         if (no_tags > 0) {
             Filehandle_ >> element.physicalNameTag;
         }
-        for (std::size_t i = 0; i < no_tags - 1; i++) {
+        for (std::size_t i = 1; i < no_tags; i++) {
             int dummy;
             Filehandle_ >> dummy;
         }
-- 
2.43.0


From 476ec99dab00d6a18e775dbc6bbfc71db337f73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:17 +0000
Subject: [PATCH 34/56] fix: read linear tetrahedra from gmsh files

Their (trivial) order was not registered, so that files with tetrahedra were refused.
---
 applications/Preprocessor/lib/gmsh.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index dc3ef2d..1c6dafe 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -320,8 +320,7 @@ void GmshReader::readElements() {
     reorder.addElementType(2, "triangle2", {0, 3, 1, 5, 4, 2});
 
     reorder.addElementType(2, "square:", {0, 1, 3, 2});
-    // Tetrahedrons should not require reordering
-    // reorder.addElementType(3, "tetrahedron:", {0, 3, 1, 2});
+    reorder.addElementType(3, "tetrahedron:", {0, 1, 2, 3});
     reorder.addElementType(3, "pyramid:", {4, 1, 2, 0, 3});
     reorder.addElementType(3, "cube:", {4, 5, 0, 1, 7, 6, 3, 2});
     reorder.addElementType(3, "prism", {0, 2, 1, 3, 5, 4});
-- 
2.43.0


From 2f810cf310c0d8cd8e8c46444425b9d00ec6cd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:17 +0000
Subject: [PATCH 35/56] fix: names with spaces in the ElementData of gmsh files

---
 applications/Preprocessor/lib/gmsh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index 1c6dafe..c1d604c 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -394,7 +394,8 @@ void GmshReader::readElementData() {
     Filehandle_ >> numStringelements;
     for (size_t i = 0; i < numStringelements; i++) {
         std::string view_names;
-        Filehandle_ >> view_names;
+        // Quoted, as it may contain spaces
+        Filehandle_ >> std::quoted(view_names);
     }
     // Read  global reals (doubles)
     size_t numrealelements;
-- 
2.43.0


From bcb90c7bbfe3e3a274b6eb72d6e2d43d3c69c1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:17 +0000
Subject: [PATCH 36/56] fix: gmsh files with names for some physical tags only

With names for lower dimensional entities only, the reader accessed names
past the end; an unnamed tag gave an empty zone name, which is refused later.
---
 applications/Preprocessor/lib/gmsh.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index c1d604c..0fd7769 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -494,11 +494,17 @@ void GmshReader::convertRawElements() {
 
         if (element.physicalNameTag == Element::NO_TAG) {
             newElement.zoneName = "Main";
-        } else if (!physicalNames_.empty()) {
-            newElement.zoneName =
-                physicalNames_[dimension_][element.physicalNameTag];
         } else {
             newElement.zoneName = std::to_string(element.physicalNameTag);
+            // Not every tag needs to have a name, and the names may be for
+            // entities of a lower dimension only.
+            if (dimension_ < physicalNames_.size()) {
+                auto name =
+                    physicalNames_[dimension_].find(element.physicalNameTag);
+                if (name != physicalNames_[dimension_].end()) {
+                    newElement.zoneName = name->second;
+                }
+            }
         }
         newElement.dimension = element.dimension_;
 
-- 
2.43.0


From 5912ea175018e91e34577381944aeabb4653eb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:42 +0000
Subject: [PATCH 37/56] fix: gmsh files whose nodes are not numbered
 consecutively

Elements refer to coordinates by their position, the numbers of gmsh were used
instead. Gmsh does not guarantee a dense or an ordered numbering.
---
 applications/Preprocessor/lib/gmsh.cpp | 31 ++++++++++++++++++++++++++
 applications/Preprocessor/lib/gmsh.h   |  3 +++
 2 files changed, 34 insertions(+)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index 0fd7769..c3a6405 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -473,6 +473,36 @@ void GmshReader::readPBCs() {
     readSectionEnd("Periodic");
 }
 
+void GmshReader::resolveNodeTags() {
+    // Node tags in gmsh need not be consecutive nor ordered, while hpgem refers
+    // to coordinates by their position.
+    std::unordered_map<std::size_t, std::size_t> positions;
+    for (std::size_t i = 0; i < nodes_.size(); ++i) {
+        bool unique = positions.emplace(nodes_[i].nodeId, i).second;
+        logger.assert_always(unique, "Multiple nodes with number %",
+                             nodes_[i].nodeId + 1);
+        nodes_[i].nodeId = i;
+    }
+    auto resolve = [&positions](std::size_t nodeId) {
+        auto position = positions.find(nodeId);
+        logger.assert_always(position != positions.end(),
+                             "There is no node with number %", nodeId + 1);
+        return position->second;
+    };
+    for (auto& element : rawElements_) {
+        for (std::size_t& coordinate : element.coordinates_) {
+            coordinate = resolve(coordinate);
+        }
+    }
+    for (auto& merge : coordinateMerges_) {
+        std::map<std::size_t, std::size_t> resolved;
+        for (const auto& pair : merge) {
+            resolved[resolve(pair.first)] = resolve(pair.second);
+        }
+        merge = std::move(resolved);
+    }
+}
+
 void GmshReader::convertRawElements() {
     std::size_t elementCount =
         std::count_if(rawElements_.cbegin(), rawElements_.cend(),
@@ -615,6 +645,7 @@ GmshReader::GmshReader(std::string filename) : dimension_(0) {
     Filehandle_.clear();
     Filehandle_.seekg(0);
 
+    resolveNodeTags();
     convertRawElements();
     pruneCoordinatesToDimension();
 }
diff --git a/applications/Preprocessor/lib/gmsh.h b/applications/Preprocessor/lib/gmsh.h
index d74c45d..cc9cdbf 100644
--- a/applications/Preprocessor/lib/gmsh.h
+++ b/applications/Preprocessor/lib/gmsh.h
@@ -117,6 +117,9 @@ class GmshReader final : public MeshSource2 {
     /// \param sectionName The name of the section
     void readSectionEnd(std::string sectionName);
 
+    /// Replace the node numbers of gmsh by the positions of the nodes
+    void resolveNodeTags();
+
     /// Convert the raw gmsh elements from rawElements_ into hpgem elements
     /// in elements_. After this call rawElements_ is empty.
     void convertRawElements();
-- 
2.43.0


From 71e20d2cc53d07b08c76272cd01b1a06042ad7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:42 +0000
Subject: [PATCH 38/56] fix: zones of Centaur meshes with several element types

The offsets of a zone count the elements of one type, they were compared with
positions in the list of elements of all types.
---
 applications/Preprocessor/lib/centaur.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/applications/Preprocessor/lib/centaur.cpp b/applications/Preprocessor/lib/centaur.cpp
index 50a7c6c..5e9153c 100644
--- a/applications/Preprocessor/lib/centaur.cpp
+++ b/applications/Preprocessor/lib/centaur.cpp
@@ -515,11 +515,14 @@ void CentaurReader::readZoneInfo() {
         positions[elemType] =
             positions[elemType - 1] + elementCount[elemType - 1];
     }
+    // The offsets of the zones are relative to the start of the element type
+    const std::array<std::size_t, 4> starts = positions;
     for (const ZoneInformation& zone : zones) {
         std::string zoneName = zone.getZoneName();
         // Assign the zone for each elementtype
         for (std::size_t elemType = 0; elemType < 4; ++elemType) {
-            for (; positions[elemType] < zone.endOffsets[elemType];
+            for (; positions[elemType] <
+                   starts[elemType] + zone.endOffsets[elemType];
                  ++positions[elemType]) {
                 elements[positions[elemType]].zoneName = zoneName;
             }
-- 
2.43.0


From 1fcb3eefb686692a7607e96b781ebe03c28dbdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:42 +0000
Subject: [PATCH 39/56] fix: default zone of 2D Centaur meshes without zones

The zone was made, but the elements were left in the zone UNSET.
---
 applications/Preprocessor/lib/centaur.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/applications/Preprocessor/lib/centaur.cpp b/applications/Preprocessor/lib/centaur.cpp
index 5e9153c..d6b6d5a 100644
--- a/applications/Preprocessor/lib/centaur.cpp
+++ b/applications/Preprocessor/lib/centaur.cpp
@@ -391,6 +391,9 @@ void CentaurReader::readZoneInfo() {
         }
         zones[0].endOffsets[0] = elementCount[0];
         zones[0].endOffsets[1] = elementCount[1];
+        for (auto& element : elements) {
+            element.zoneName = zones[0].getZoneName();
+        }
         return;
     }
     GroupSize groupSize = readGroupSize(false);
-- 
2.43.0


From 725464ff78acb43b84243b9c07dcb9a04a4890ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:27 +0000
Subject: [PATCH 40/56] fix: refinement maps of the triangle that do not match
 their nodes and faces

---
 .../Mappings/RefinementMapsForTriangle.h      | 32 +++++++++++--------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/kernel/Geometry/Mappings/RefinementMapsForTriangle.h b/kernel/Geometry/Mappings/RefinementMapsForTriangle.h
index d7a6e73..44c18f5 100644
--- a/kernel/Geometry/Mappings/RefinementMapsForTriangle.h
+++ b/kernel/Geometry/Mappings/RefinementMapsForTriangle.h
@@ -259,7 +259,7 @@ class RefinementMapForTriangle1 : public RefinementMapping {
             subElementIndex < 2,
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
-        return {(p[0] + subElementIndex) / 2., p[1]};
+        return {(p[0] + subElementIndex * (1. - p[1])) / 2., p[1]};
     }
 
     LinearAlgebra::SmallMatrix<2, 2> getRefinementMappingMatrixL(
@@ -269,7 +269,8 @@ class RefinementMapForTriangle1 : public RefinementMapping {
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
         // the bonus column is probably {subElementIndex / 2, 0, 1}
-        return LinearAlgebra::SmallMatrix<2, 2>{{{{0.5, 0.}}, {{0., 1.}}}};
+        return LinearAlgebra::SmallMatrix<2, 2>{
+            {{{0.5, 0.}}, {{-0.5 * subElementIndex, 1.}}}};
     }
 
     LinearAlgebra::SmallMatrix<2, 2> getRefinementMappingMatrixR(
@@ -279,7 +280,8 @@ class RefinementMapForTriangle1 : public RefinementMapping {
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
         // the bonus column is probably {-subelementIndex, 0, 1}
-        return LinearAlgebra::SmallMatrix<2, 2>{{{{2., 0.}}, {{0., 1.}}}};
+        return LinearAlgebra::SmallMatrix<2, 2>{
+            {{{2., 0.}}, {{1. * subElementIndex, 1.}}}};
     }
 
     std::size_t getNumberOfNewNodes() const final { return 1; }
@@ -388,7 +390,7 @@ class RefinementMapForTriangle2 : public RefinementMapping {
             subElementIndex < 2,
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
-        return {p[0], (p[1] + subElementIndex) / 2.};
+        return {p[0], (p[1] + subElementIndex * (1. - p[0])) / 2.};
     }
 
     LinearAlgebra::SmallMatrix<2, 2> getRefinementMappingMatrixL(
@@ -398,7 +400,8 @@ class RefinementMapForTriangle2 : public RefinementMapping {
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
         // the bonus column is probably {0, subElementIndex / 2, 1}
-        return LinearAlgebra::SmallMatrix<2, 2>{{{{1., 0.}}, {{0., 0.5}}}};
+        return LinearAlgebra::SmallMatrix<2, 2>{
+            {{{1., -0.5 * subElementIndex}}, {{0., 0.5}}}};
     }
 
     LinearAlgebra::SmallMatrix<2, 2> getRefinementMappingMatrixR(
@@ -408,7 +411,8 @@ class RefinementMapForTriangle2 : public RefinementMapping {
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
         // the bonus column is probably {0, -subelementIndex, 1}
-        return LinearAlgebra::SmallMatrix<2, 2>{{{{1., 0.}}, {{0., 2.}}}};
+        return LinearAlgebra::SmallMatrix<2, 2>{
+            {{{1., 1. * subElementIndex}}, {{0., 2.}}}};
     }
 
     std::size_t getNumberOfNewNodes() const final { return 1; }
@@ -562,9 +566,9 @@ class RefinementMapForTriangle3 : public RefinementMapping {
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
         if (subElementIndex == 0) {
-            return std::vector<std::size_t>{0, 1, 3};
+            return std::vector<std::size_t>{0, 3, 2};
         }
-        return std::vector<std::size_t>{0, 3, 2};
+        return std::vector<std::size_t>{0, 1, 3};
     }
 
     Geometry::ReferenceGeometry* getBigElementReferenceGeometry() const final {
@@ -626,11 +630,11 @@ class RefinementMapForTriangle3 : public RefinementMapping {
             getCodim1RefinementMaps()[face]->getNumberOfSubElements());
         switch (face) {
             case 0:
-                return std::make_tuple(0, face);
-            case 1:
                 return std::make_tuple(1, face);
+            case 1:
+                return std::make_tuple(0, face);
             case 2:
-                return std::make_tuple(subFaceIndex, face);
+                return std::make_tuple(1 - subFaceIndex, face);
             default:
                 logger(ERROR, "something broke, please check the assertions");
         }
@@ -1165,7 +1169,7 @@ class RefinementMapForTriangle6 : public RefinementMapping {
             case 1:
                 return std::make_tuple(0, face);
             case 2:
-                return std::make_tuple(subFaceIndex, subFaceIndex + 2);
+                return std::make_tuple(1 - subFaceIndex, subFaceIndex + 2);
             default:
                 logger(ERROR, "something broke, please check the assertions");
         }
@@ -1462,9 +1466,9 @@ class RefinementMapForTriangle8 : public RefinementMapping {
     std::vector<const RefinementMapping*> getCodim1RefinementMaps()
         const final {
         return std::vector<const RefinementMapping*>{
-            RefinementMapForLine0::instance(),
             RefinementMapForLine1::instance(),
-            RefinementMapForLine1::instance()};
+            RefinementMapForLine1::instance(),
+            RefinementMapForLine0::instance()};
     }
 
     std::vector<std::size_t> getCodim1LocalNodeIndices(
-- 
2.43.0


From 0dce83cd90fda0d93a4ae966771a90d25ddb6ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:27 +0000
Subject: [PATCH 41/56] fix: refinement maps of the prism that do not match
 their nodes and faces

---
 .../RefinementMapsForTriangularPrism.h        | 189 ++++++------------
 1 file changed, 59 insertions(+), 130 deletions(-)

diff --git a/kernel/Geometry/Mappings/RefinementMapsForTriangularPrism.h b/kernel/Geometry/Mappings/RefinementMapsForTriangularPrism.h
index b3e409a..d5d3e83 100644
--- a/kernel/Geometry/Mappings/RefinementMapsForTriangularPrism.h
+++ b/kernel/Geometry/Mappings/RefinementMapsForTriangularPrism.h
@@ -312,7 +312,7 @@ class RefinementMapForTriangularPrism1 : public RefinementMapping {
             subElementIndex < 2,
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
-        return {(p[0] + subElementIndex) / 2., p[1], p[2]};
+        return {(p[0] + subElementIndex * (1. - p[1])) / 2., p[1], p[2]};
     }
 
     LinearAlgebra::SmallMatrix<3, 3> getRefinementMappingMatrixL(
@@ -323,7 +323,9 @@ class RefinementMapForTriangularPrism1 : public RefinementMapping {
             subElementIndex, getName(), getNumberOfSubElements());
         // the bonus column is probably {subElementIndex / 2, 0, 0, 1}
         return LinearAlgebra::SmallMatrix<3, 3>{
-            {{{0.5, 0., 0.}}, {{0., 1., 0.}}, {{0., 0., 1.}}}};
+            {{{0.5, 0., 0.}},
+             {{-0.5 * subElementIndex, 1., 0.}},
+             {{0., 0., 1.}}}};
     }
 
     LinearAlgebra::SmallMatrix<3, 3> getRefinementMappingMatrixR(
@@ -334,7 +336,9 @@ class RefinementMapForTriangularPrism1 : public RefinementMapping {
             subElementIndex, getName(), getNumberOfSubElements());
         // the bonus column is most likely {-subelementIndex, 0, 0, 1}
         return LinearAlgebra::SmallMatrix<3, 3>{
-            {{{2., 0., 0.}}, {{0., 1., 0.}}, {{0., 0., 1.}}}};
+            {{{2., 0., 0.}},
+             {{1. * subElementIndex, 1., 0.}},
+             {{0., 0., 1.}}}};
     }
 
     std::size_t getNumberOfNewNodes() const final { return 2; }
@@ -454,7 +458,7 @@ class RefinementMapForTriangularPrism2 : public RefinementMapping {
             subElementIndex < 2,
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
-        return {p[0], (p[1] + subElementIndex) / 2., p[2]};
+        return {p[0], (p[1] + subElementIndex * (1. - p[0])) / 2., p[2]};
     }
 
     LinearAlgebra::SmallMatrix<3, 3> getRefinementMappingMatrixL(
@@ -465,7 +469,9 @@ class RefinementMapForTriangularPrism2 : public RefinementMapping {
             subElementIndex, getName(), getNumberOfSubElements());
         // the bonus column is probably {subElementIndex / 2, 0, 0, 1}
         return LinearAlgebra::SmallMatrix<3, 3>{
-            {{{1., 0., 0.}}, {{0., 0.5, 0.}}, {{0., 0., 1.}}}};
+            {{{1., -0.5 * subElementIndex, 0.}},
+             {{0., 0.5, 0.}},
+             {{0., 0., 1.}}}};
     }
 
     LinearAlgebra::SmallMatrix<3, 3> getRefinementMappingMatrixR(
@@ -476,7 +482,9 @@ class RefinementMapForTriangularPrism2 : public RefinementMapping {
             subElementIndex, getName(), getNumberOfSubElements());
         // the bonus column is most likely {-subelementIndex, 0, 0, 1}
         return LinearAlgebra::SmallMatrix<3, 3>{
-            {{{1., 0., 0.}}, {{0., 2., 0.}}, {{0., 0., 1.}}}};
+            {{{1., 1. * subElementIndex, 0.}},
+             {{0., 2., 0.}},
+             {{0., 0., 1.}}}};
     }
 
     std::size_t getNumberOfNewNodes() const final { return 2; }
@@ -564,7 +572,7 @@ class RefinementMapForTriangularPrism2 : public RefinementMapping {
             case 1:
                 return std::make_tuple(subFaceIndex, face);
             case 2:
-                return std::make_tuple(subFaceIndex, face);
+                return std::make_tuple(1 - subFaceIndex, face);
             case 3:
                 return std::make_tuple(0, face);
             case 4:
@@ -715,7 +723,7 @@ class RefinementMapForTriangularPrism3 : public RefinementMapping {
             getCodim1RefinementMaps()[face]->getNumberOfSubElements());
         switch (face) {
             case 0:
-                return std::make_tuple(subFaceIndex, face);
+                return std::make_tuple(1 - subFaceIndex, face);
             case 1:
                 return std::make_tuple(subFaceIndex, face);
             case 2:
@@ -723,7 +731,7 @@ class RefinementMapForTriangularPrism3 : public RefinementMapping {
             case 3:
                 return std::make_tuple(1, face);
             case 4:
-                return std::make_tuple(subFaceIndex, face);
+                return std::make_tuple(1 - subFaceIndex, face);
             default:
                 logger(ERROR, "something broke, please check the assertions");
         }
@@ -910,26 +918,16 @@ class RefinementMapForTriangularPrism4 : public RefinementMapping {
             getCodim1RefinementMaps()[face]->getName(),
             getCodim1RefinementMaps()[face]->getNumberOfSubElements());
         switch (face) {
-            case 0:
-                return std::make_tuple(subFaceIndex, face);
+            case 0: {
+                static const std::size_t subElements[] = {0, 2, 1, 3};
+                return std::make_tuple(subElements[subFaceIndex], face);
+            }
             case 1:
                 return std::make_tuple(subFaceIndex, face);
-            case 2: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(1, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
-            }
-            case 3: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(0, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
-            }
+            case 2:
+                return std::make_tuple(2 - 2 * subFaceIndex, face);
+            case 3:
+                return std::make_tuple(subFaceIndex, face);
             case 4: {
                 std::size_t elementIndex;
                 std::size_t faceIndex;
@@ -1050,7 +1048,7 @@ class RefinementMapForTriangularPrism5 : public RefinementMapping {
 
     std::vector<Geometry::PointReference<3>> getNewNodeLocations(
         const PointReference<3>&) const final {
-        return {{0., 0., 0.}, {0., 1., 0.}, {1., 0., 0.}};
+        return {{0., 0., 0.}, {1., 0., 0.}, {0., 1., 0.}};
     }
 
     std::vector<const RefinementMapping*> getCodim1RefinementMaps()
@@ -1302,34 +1300,19 @@ class RefinementMapForTriangularPrism6 : public RefinementMapping {
             getCodim1RefinementMaps()[face]->getName(),
             getCodim1RefinementMaps()[face]->getNumberOfSubElements());
         switch (face) {
-            case 0:
-                return std::make_tuple(subFaceIndex, face);
-            case 1:
-                return std::make_tuple(subFaceIndex, face);
-            case 2: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(1, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
-            }
-            case 3: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(0, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
-            }
-            case 4: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(2, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
+            case 0: {
+                static const std::size_t subElements[] = {0, 2, 1};
+                return std::make_tuple(subElements[subFaceIndex], face);
             }
+            case 1:
+                return std::make_tuple(subFaceIndex, 5);
+            case 2:
+                return std::make_tuple(2 - 2 * subFaceIndex,
+                                       3 - 2 * subFaceIndex);
+            case 3:
+                return std::make_tuple(subFaceIndex, 3 - 2 * subFaceIndex);
+            case 4:
+                return std::make_tuple(subFaceIndex + 1, 3 - 2 * subFaceIndex);
             default:
                 logger(ERROR, "something broke, please check the assertions");
         }
@@ -1505,31 +1488,13 @@ class RefinementMapForTriangularPrism7 : public RefinementMapping {
             case 0:
                 return std::make_tuple(subFaceIndex, face);
             case 1:
-                return std::make_tuple(subFaceIndex, face);
-            case 2: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(1, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
-            }
-            case 3: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(0, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
-            }
-            case 4: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(2, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
-            }
+                return std::make_tuple(subFaceIndex, 5 - 4 * subFaceIndex);
+            case 2:
+                return std::make_tuple(0, face);
+            case 3:
+                return std::make_tuple(subFaceIndex, 2 * subFaceIndex + 1);
+            case 4:
+                return std::make_tuple(1 - subFaceIndex, face);
             default:
                 logger(ERROR, "something broke, please check the assertions");
         }
@@ -1705,31 +1670,13 @@ class RefinementMapForTriangularPrism8 : public RefinementMapping {
             case 0:
                 return std::make_tuple(subFaceIndex, face);
             case 1:
-                return std::make_tuple(subFaceIndex, face);
-            case 2: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(1, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
-            }
-            case 3: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(0, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
-            }
-            case 4: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(2, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
-            }
+                return std::make_tuple(subFaceIndex, 5 - 4 * subFaceIndex);
+            case 2:
+                return std::make_tuple(1 - subFaceIndex, face);
+            case 3:
+                return std::make_tuple(0, 1);
+            case 4:
+                return std::make_tuple(subFaceIndex, subFaceIndex + 3);
             default:
                 logger(ERROR, "something broke, please check the assertions");
         }
@@ -1906,31 +1853,13 @@ class RefinementMapForTriangularPrism9 : public RefinementMapping {
             case 0:
                 return std::make_tuple(subFaceIndex, face);
             case 1:
-                return std::make_tuple(subFaceIndex, face);
-            case 2: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(1, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
-            }
-            case 3: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(0, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
-            }
-            case 4: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(2, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
-            }
+                return std::make_tuple(subFaceIndex, 4 * subFaceIndex + 1);
+            case 2:
+                return std::make_tuple(1 - subFaceIndex, 4 - 2 * subFaceIndex);
+            case 3:
+                return std::make_tuple(subFaceIndex, 3 - 2 * subFaceIndex);
+            case 4:
+                return std::make_tuple(1, 3);
             default:
                 logger(ERROR, "something broke, please check the assertions");
         }
-- 
2.43.0


From 9ce5ef4811dde4137d612a17ca1b80edb54aa98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:27 +0000
Subject: [PATCH 42/56] fix: refinement maps of the cube that do not match
 their nodes and faces

---
 .../Geometry/Mappings/RefinementMapsForCube.h | 52 +++++++++----------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/kernel/Geometry/Mappings/RefinementMapsForCube.h b/kernel/Geometry/Mappings/RefinementMapsForCube.h
index 6a537cf..eb6bd3a 100644
--- a/kernel/Geometry/Mappings/RefinementMapsForCube.h
+++ b/kernel/Geometry/Mappings/RefinementMapsForCube.h
@@ -1191,9 +1191,9 @@ class RefinementMapForCube5 : public RefinementMapping {
 
     std::vector<PointReference<3>> getNewNodeLocations(
         const PointReference<3>&) const final {
-        return {{0., -1., -1.}, {0., -1., 1.}, {-1., -1., 0.}, {1., -1., 0.},
-                {0., -1., 0.},  {0., 1., -1.}, {0., 1., 1.},   {-1., 1., 0.},
-                {1., 1., 0.},   {0., 1., 0.}};
+        return {{0., -1., -1.}, {0., 1., -1.}, {0., -1., 1.}, {0., 1., 1.},
+                {-1., -1., 0.}, {1., -1., 0.}, {-1., 1., 0.}, {1., 1., 0.},
+                {0., -1., 0.},  {0., 1., 0.}};
     }
 
     std::vector<const RefinementMapping*> getCodim1RefinementMaps()
@@ -1211,17 +1211,17 @@ class RefinementMapForCube5 : public RefinementMapping {
         std::size_t localFaceNumber) const final {
         switch (localFaceNumber) {
             case 0:
-                return {0, 1, 2, 3, 8, 13};
+                return {0, 1, 2, 3, 8, 9};
             case 1:
-                return {0, 1, 4, 5, 8, 10, 11, 9, 12};
+                return {0, 1, 4, 5, 8, 12, 13, 10, 16};
             case 2:
-                return {0, 2, 4, 6, 10, 15};
+                return {0, 2, 4, 6, 12, 14};
             case 3:
-                return {1, 3, 5, 7, 11, 16};
+                return {1, 3, 5, 7, 13, 15};
             case 4:
-                return {2, 3, 6, 7, 9, 14};
+                return {2, 3, 6, 7, 9, 14, 15, 11, 17};
             case 5:
-                return {4, 5, 6, 7, 13, 15, 16, 14, 17};
+                return {4, 5, 6, 7, 10, 11};
             default:
                 logger(ERROR, "asked for Face %, but there are only % Faces",
                        localFaceNumber,
@@ -1384,7 +1384,7 @@ class RefinementMapForCube6 : public RefinementMapping {
     Geometry::ReferenceGeometry* getSubElementReferenceGeometry(
         std::size_t subElement) const final {
         logger.assert_debug(
-            subElement == 0,
+            subElement < getNumberOfSubElements(),
             "asked for subElement %, but the % has only % subElements",
             subElement, getName(), getNumberOfSubElements());
         return &Geometry::ReferenceCube::Instance();
@@ -1392,9 +1392,9 @@ class RefinementMapForCube6 : public RefinementMapping {
 
     std::vector<PointReference<3>> getNewNodeLocations(
         const PointReference<3>&) const final {
-        return {{-1., 0., -1.}, {-1., 0., 1.}, {-1., -1., 0.}, {-1., 1., 0.},
-                {-1., 0., 0.},  {1., 0., -1.}, {1., 0., 1.},   {1., -1., 0.},
-                {1., 1., 0.},   {1., 0., 0.}};
+        return {{-1., 0., -1.}, {1., 0., -1.}, {-1., 0., 1.}, {1., 0., 1.},
+                {-1., -1., 0.}, {1., -1., 0.}, {-1., 1., 0.}, {1., 1., 0.},
+                {-1., 0., 0.},  {1., 0., 0.}};
     }
 
     std::vector<const RefinementMapping*> getCodim1RefinementMaps()
@@ -1412,17 +1412,17 @@ class RefinementMapForCube6 : public RefinementMapping {
         std::size_t localFaceNumber) const final {
         switch (localFaceNumber) {
             case 0:
-                return {0, 1, 2, 3, 8, 13};
+                return {0, 1, 2, 3, 8, 9};
             case 1:
-                return {0, 1, 4, 5, 10, 15};
+                return {0, 1, 4, 5, 12, 13};
             case 2:
-                return {0, 2, 4, 6, 8, 10, 11, 9, 12};
+                return {0, 2, 4, 6, 8, 12, 14, 10, 16};
             case 3:
-                return {1, 3, 5, 7, 13, 15, 16, 14, 17};
+                return {1, 3, 5, 7, 9, 13, 15, 11, 17};
             case 4:
-                return {2, 3, 6, 7, 11, 16};
+                return {2, 3, 6, 7, 14, 15};
             case 5:
-                return {4, 5, 6, 7, 9, 14};
+                return {4, 5, 6, 7, 10, 11};
             default:
                 logger(ERROR, "asked for Face %, but there are only % Faces",
                        localFaceNumber,
@@ -1644,8 +1644,8 @@ class RefinementMapForCube7 : public RefinementMapping {
         return {{0., -1., -1.}, {0., 1., -1.}, {0., -1., 1.}, {0., 1., 1.},
                 {-1., 0., -1.}, {1., 0., -1.}, {-1., 0., 1.}, {1., 0., 1.},
                 {-1., -1., 0.}, {1., -1., 0.}, {-1., 1., 0.}, {1., 1., 0.},
-                {-1., 0., 0.},  {1., 0., 0.},  {0., -1., 0.}, {0., 1., 0.},
-                {0., 0., -1.},  {0., 0., 1.},  {0., 0., 0.}};
+                {0., 0., -1.},  {0., 0., 1.},  {0., -1., 0.}, {0., 1., 0.},
+                {-1., 0., 0.},  {1., 0., 0.},  {0., 0., 0.}};
     }
 
     std::vector<const RefinementMapping*> getCodim1RefinementMaps()
@@ -1663,17 +1663,17 @@ class RefinementMapForCube7 : public RefinementMapping {
         std::size_t localFaceNumber) const final {
         switch (localFaceNumber) {
             case 0:
-                return {0, 1, 2, 3, 8, 12, 13, 9, 24};
+                return {0, 1, 2, 3, 8, 12, 13, 9, 20};
             case 1:
                 return {0, 1, 4, 5, 8, 16, 17, 10, 22};
             case 2:
-                return {0, 2, 4, 6, 16, 12, 14, 18, 20};
+                return {0, 2, 4, 6, 12, 16, 18, 14, 24};
             case 3:
-                return {1, 3, 5, 7, 17, 13, 15, 19, 21};
+                return {1, 3, 5, 7, 13, 17, 19, 15, 25};
             case 4:
-                return {2, 3, 6, 7, 18, 9, 11, 19, 23};
+                return {2, 3, 6, 7, 9, 18, 19, 11, 23};
             case 5:
-                return {4, 5, 6, 7, 10, 14, 15, 11, 25};
+                return {4, 5, 6, 7, 10, 14, 15, 11, 21};
             default:
                 logger(ERROR, "asked for Face %, but there are only % Faces",
                        localFaceNumber,
-- 
2.43.0


From cd59c539f2db8984708c36a81a1b1e04d971dfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:37 +0000
Subject: [PATCH 43/56] fix: order of two quadrature rules for tetrahedra

The rules of Shunn and Ham with 35 and 56 points integrate polynomials of
degree 6 and 8, but were registered with order 7 and 9.
---
 .../QuadratureRules/GaussQuadratureRulesForTetrahedron.cpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernel/Integration/QuadratureRules/GaussQuadratureRulesForTetrahedron.cpp b/kernel/Integration/QuadratureRules/GaussQuadratureRulesForTetrahedron.cpp
index 854c283..74ecd30 100644
--- a/kernel/Integration/QuadratureRules/GaussQuadratureRulesForTetrahedron.cpp
+++ b/kernel/Integration/QuadratureRules/GaussQuadratureRulesForTetrahedron.cpp
@@ -399,7 +399,7 @@ T3_6_24::T3_6_24()
 // clang-format-off
 T3_7_31::T3_7_31()
     : StandardGaussQuadratureRule<3>(
-        "T3_7_35", 7, &Geometry::ReferenceTetrahedron::Instance(), {
+        "T3_6_35", 6, &Geometry::ReferenceTetrahedron::Instance(), {
         {0.0021900463965388 * TET_VOLUME, {0.0267367755543735,  0.0267367755543735,  0.0267367755543735}},
         {0.0021900463965388 * TET_VOLUME, {0.9197896733368800,  0.0267367755543735,  0.0267367755543735}},
         {0.0021900463965388 * TET_VOLUME, {0.0267367755543735,  0.9197896733368800,  0.0267367755543735}},
@@ -644,7 +644,7 @@ T3_8_43::T3_8_43()
 // clang-format-off
 T3_9_53::T3_9_53()
     : StandardGaussQuadratureRule<3>(
-        "T3_9_56", 9, &Geometry::ReferenceTetrahedron::Instance(),{
+        "T3_8_56", 8, &Geometry::ReferenceTetrahedron::Instance(),{
         // Source [2]
         {0.0010373112336140 * TET_VOLUME, {0.0149520651530592, 0.0149520651530592, 0.0149520651530592}},
         {0.0010373112336140 * TET_VOLUME, {0.9551438045408220, 0.0149520651530592, 0.0149520651530592}},
-- 
2.43.0


From 57331784ff45e7ca557d44f62e25cd3bbe6470c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:47 +0000
Subject: [PATCH 44/56] fix: raise the quadrature order of faces when their
 element's rule is accurate enough already

On triangular prisms the rule for first order basis functions has order 5.
Assigning second order basis functions afterwards (for example to another
unknown) left the rules of the faces at the order for first order functions.
---
 kernel/Base/Element.cpp | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/kernel/Base/Element.cpp b/kernel/Base/Element.cpp
index 6764fca..201aff7 100644
--- a/kernel/Base/Element.cpp
+++ b/kernel/Base/Element.cpp
@@ -142,33 +142,28 @@ std::size_t Element::getID() const { return id_; }
 std::size_t Element::getID() { return id_; }
 
 void Element::setQuadratureRulesWithOrder(std::size_t quadrROrder) {
-    bool changed = false;
     if (quadratureRule_ == nullptr) {
         quadratureRule_ = Geometry::ElementGeometry::referenceGeometry_
                               ->getGaussQuadratureRule(quadrROrder);
-        changed = true;
     } else if (quadrROrder > quadratureRule_->order()) {
         quadratureRule_ = Geometry::ElementGeometry::referenceGeometry_
                               ->getGaussQuadratureRule(quadrROrder);
-        changed = true;
     }
     // The quadrature orders of the faces are assigned when they are created
     // based on the current quadrature order on its neighbouring elements.
-    // If the quadrature order changes on this element it probably also has
-    // to change on the face.
-    if (changed) {
-        for (std::size_t i = 0; i < facesList_.size(); ++i) {
-            Face *face = facesList_[i];
-            if (face != nullptr) {
-                QuadratureRules::GaussQuadratureRule *rule =
-                    face->getGaussQuadratureRule();
-                std::size_t currentOrder = rule == nullptr ? 0 : rule->order();
-                if (quadrROrder > currentOrder) {
-                    face->setGaussQuadratureRule(
-                        this->getReferenceGeometry()
-                            ->getCodim1ReferenceGeometry(i)
-                            ->getGaussQuadratureRule(quadrROrder));
-                }
+    // If the requested order is higher it also has to change on the face, even
+    // if the rule of this element already was more accurate than required.
+    for (std::size_t i = 0; i < facesList_.size(); ++i) {
+        Face *face = facesList_[i];
+        if (face != nullptr) {
+            QuadratureRules::GaussQuadratureRule *rule =
+                face->getGaussQuadratureRule();
+            std::size_t currentOrder = rule == nullptr ? 0 : rule->order();
+            if (quadrROrder > currentOrder) {
+                face->setGaussQuadratureRule(
+                    this->getReferenceGeometry()
+                        ->getCodim1ReferenceGeometry(i)
+                        ->getGaussQuadratureRule(quadrROrder));
             }
         }
     }
-- 
2.43.0


From 8b8ef2e90719b23bee9d43b797a0bbf2dc172513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:09 +0000
Subject: [PATCH 45/56] fix: TVD Runge-Kutta schemes: evaluate the stages at
 the times of the stages

The intermediate times of RK2TVD and RK3TVD were all zero, so a right-hand
side that depends on time was only integrated with first order.
---
 kernel/Base/TimeIntegration/RK2TVD.cpp | 2 +-
 kernel/Base/TimeIntegration/RK3TVD.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernel/Base/TimeIntegration/RK2TVD.cpp b/kernel/Base/TimeIntegration/RK2TVD.cpp
index 30a8168..ab11efd 100644
--- a/kernel/Base/TimeIntegration/RK2TVD.cpp
+++ b/kernel/Base/TimeIntegration/RK2TVD.cpp
@@ -58,7 +58,7 @@ RK2TVD::RK2TVD() {
     b_ = {0.5, 0.5};
     // first order coefficients
     //{1., 0.}
-    c_ = {0.0, 0.0};
+    c_ = {0.0, 1.0};
     error_ = {-0.5, 0.5};
 }
 
diff --git a/kernel/Base/TimeIntegration/RK3TVD.cpp b/kernel/Base/TimeIntegration/RK3TVD.cpp
index eb826bd..a0b950a 100644
--- a/kernel/Base/TimeIntegration/RK3TVD.cpp
+++ b/kernel/Base/TimeIntegration/RK3TVD.cpp
@@ -59,7 +59,7 @@ RK3TVD::RK3TVD() {
 
     // make b_ and c_
     b_ = {1.0 / 6.0, 1.0 / 6.0, 2.0 / 3.0};
-    c_ = {0.0, 0.0, 0.0};
+    c_ = {0.0, 1.0, 0.5};
 }
 
 std::size_t RK3TVD::getOrder() const { return order_; }
-- 
2.43.0


From fd8a898988ac24ba5f8777e8accecbacc59e1fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:09 +0000
Subject: [PATCH 46/56] fix: Bogacki-Shampine: use its own intermediate times

The times were those of Dormand-Prince, so the scheme lost its order for a
right-hand side that depends on time.
---
 kernel/Base/TimeIntegration/BogackiShampine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/Base/TimeIntegration/BogackiShampine.cpp b/kernel/Base/TimeIntegration/BogackiShampine.cpp
index 79e5dc5..4c48ddf 100644
--- a/kernel/Base/TimeIntegration/BogackiShampine.cpp
+++ b/kernel/Base/TimeIntegration/BogackiShampine.cpp
@@ -59,7 +59,7 @@ TimeIntegration::BogackiShampine::BogackiShampine() {
     b_ = {2. / 9., 1. / 3., 4. / 9., 0.};
     // second-order coefficients
     //{   7./24., 1./4., 1./3., 1./8.};
-    c_ = {0., 1. / 5., 3. / 10., 4. / 5., 8. / 9., 1., 1.};
+    c_ = {0., 1. / 2., 3. / 4., 1.};
     error_ = {
         2. / 9. - 7. / 24.,
         1. / 3. - 1. / 4.,
-- 
2.43.0


From 24f6235dc5d57b53bed521135da13447d062f8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:36 +0000
Subject: [PATCH 47/56] fix: orientation of curved edges from their end points

---
 kernel/Base/Edge.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/kernel/Base/Edge.cpp b/kernel/Base/Edge.cpp
index 8e8e683..f4ed285 100644
--- a/kernel/Base/Edge.cpp
+++ b/kernel/Base/Edge.cpp
@@ -59,9 +59,12 @@ void Edge::addElement(Element* element, std::size_t edgeNumber) {
     std::vector<std::size_t> indices =
         element->getReferenceGeometry()->getCodim2EntityLocalIndices(
             edgeNumber);
-    indices[0] = element->getPhysicalGeometry()->getNodeIndex(indices[0]);
-    indices[1] = element->getPhysicalGeometry()->getNodeIndex(indices[1]);
-    orientation_.push_back((indices[0] < indices[1] ? 0 : 1));
+    // Compare the end points, curved edges have additional nodes in between
+    const std::size_t first =
+        element->getPhysicalGeometry()->getNodeIndex(indices.front());
+    const std::size_t last =
+        element->getPhysicalGeometry()->getNodeIndex(indices.back());
+    orientation_.push_back(first < last ? 0 : 1);
 
     if (numberOfConformingDOFOnTheEdge_.size() == 0) {
         numberOfConformingDOFOnTheEdge_.resize(element->getNumberOfUnknowns(),
-- 
2.43.0


From a24113055b90016d268826263343e5b13db677bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:23 +0000
Subject: [PATCH 48/56] fix: DGMaxDiscretization::computeFields: curl of the
 field's own unknown

With the projector there is a second unknown with another number of basis
functions, for which the number of functions without an unknown is not
defined: writing the fields failed in builds with assertions.
---
 applications/DG-Max/Algorithms/DGMaxDiscretization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
index 42eec90..750ff8c 100644
--- a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
@@ -539,7 +539,7 @@ typename DGMaxDiscretization<DIM>::Fields
         physicalElement.basisFunction(i, phi, 0);
         result.electricField += coefficients[i] * phi;
         result.electricFieldCurl +=
-            coefficients[i] * physicalElement.basisFunctionCurl(i);
+            coefficients[i] * physicalElement.basisFunctionCurl(i, 0);
     }
     const ElementInfos& userData = ElementInfos::get(*element);
 
-- 
2.43.0


From d461859846cab250797213e6cac93319e038da02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:29 +0000
Subject: [PATCH 49/56] fix: DGMaxDiscretization::computeEnergyFluxes with
 orthogonalisation on internal faces

The coefficients of the left element were copied, but the solve was done
with those of both elements; those of the right element start after the
coefficients of the left one.
---
 applications/DG-Max/Algorithms/DGMaxDiscretization.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
index 750ff8c..58dac7a 100644
--- a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
@@ -655,7 +655,7 @@ LinearAlgebra::SmallVector<4> DGMaxDiscretization<DIM>::computeEnergyFluxes(
         face.getPtrElementLeft()
             ->getElementMatrix(MASS_MATRIX_ID)
             .solveLowerTriangular(
-                coefficients, hpgem::LinearAlgebra::Side::OP_LEFT,
+                solveCoefs, hpgem::LinearAlgebra::Side::OP_LEFT,
                 hpgem::LinearAlgebra::Transpose::HERMITIAN_TRANSPOSE);
 
         if (face.isInternal()) {
@@ -669,7 +669,7 @@ LinearAlgebra::SmallVector<4> DGMaxDiscretization<DIM>::computeEnergyFluxes(
                 face.getPtrElementRight()->getNumberOfBasisFunctions();
             temp.resize(rightDoFs);
             for (std::size_t i = 0; i < rightDoFs; ++i) {
-                temp[i] = coefficients[i + rightDoFs];
+                temp[i] = coefficients[i + leftDoFs];
             }
             face.getPtrElementRight()
                 ->getElementMatrix(MASS_MATRIX_ID)
@@ -677,7 +677,7 @@ LinearAlgebra::SmallVector<4> DGMaxDiscretization<DIM>::computeEnergyFluxes(
                     temp, hpgem::LinearAlgebra::Side::OP_LEFT,
                     hpgem::LinearAlgebra::Transpose::HERMITIAN_TRANSPOSE);
             for (std::size_t i = 0; i < rightDoFs; ++i) {
-                coefficients[i + rightDoFs] = temp[i];
+                coefficients[i + leftDoFs] = temp[i];
             }
         }
     }
-- 
2.43.0


From e40c5833ed0357526ad2d5fd7f25ed83eda2d3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:15 +0000
Subject: [PATCH 50/56] fix: DivDGMaxDiscretization::computeEnergyFluxes:
 coefficients of the right element

---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index 3ad3e4e..36b6449 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -382,11 +382,9 @@ LinearAlgebra::SmallVector<4> DivDGMaxDiscretization<DIM>::computeEnergyFluxes(
             VecC avgField;
             LinearAlgebra::SmallVector<DIM> phi;
             VecC normal = pface.getUnitNormalVector();
-            std::size_t leftDoFs = dofInfo.leftUDoFs + dofInfo.leftPDoFs;
             for (std::size_t i = 0; i < dofInfo.totalUDoFs(); ++i) {
-                const auto& coefficient = i < dofInfo.leftUDoFs
-                                              ? coefficients[i]
-                                              : coefficients[i + leftDoFs];
+                // Coefficients of the field (unknown 0) on both sides
+                const auto& coefficient = coefficients[i];
                 avgCurl += factor * coefficient * pface.basisFunctionCurl(i, 0);
                 pface.basisFunction(i, phi, 0);
                 avgField += factor * coefficient * normal.crossProduct(phi);
-- 
2.43.0


From 29a0bd2d410763dc5b02ce2e490eb4dc9523b19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:26 +0000
Subject: [PATCH 51/56] fix: computeFieldL2Integral: offset of the right
 element's field with more than one unknown

---
 applications/DG-Max/Algorithms/DGMaxDiscretization.cpp    | 2 +-
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
index 58dac7a..a066c15 100644
--- a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
@@ -740,7 +740,7 @@ double DGMaxDiscretization<DIM>::computeFieldL2Integral(Base::Face& face,
     std::size_t dofOffset =
         side == Base::Side::LEFT
             ? 0
-            : face.getPtrElementLeft()->getTotalNumberOfBasisFunctions();
+            : face.getPtrElementLeft()->getNumberOfBasisFunctions(0);
     std::size_t numDoFs =
         side == Base::Side::LEFT
             ? face.getPtrElementLeft()->getNumberOfBasisFunctions(0)
diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index 36b6449..a88a495 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -422,7 +422,7 @@ double DivDGMaxDiscretization<DIM>::computeFieldL2Integral(
     std::size_t dofOffset =
         side == Base::Side::LEFT
             ? 0
-            : face.getPtrElementLeft()->getTotalNumberOfBasisFunctions();
+            : face.getPtrElementLeft()->getNumberOfBasisFunctions(0);
     std::size_t numDoFs =
         side == Base::Side::LEFT
             ? face.getPtrElementLeft()->getNumberOfBasisFunctions(0)
-- 
2.43.0


From 19f0d3439018924aed6eef31c8dc54aa1f13950a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:44 +0000
Subject: [PATCH 52/56] fix: DivDGMaxDiscretization: interior penalty of the
 normal jump with both functions

---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index a88a495..9ed2808 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -643,7 +643,7 @@ void DivDGMaxDiscretization<DIM>::faceStiffnessMatrixFieldIntegrand(
                 // Test functions are conjugated as an inner product is
                 // computed. This is not done by * for complex<double> so we do
                 // it manually.
-                phiUj = std::conj(phiUi);
+                phiUj = std::conj(phiUj);
                 std::complex<double> value = stab2 * phiUi * phiUj;
                 ret(jIndex, iIndex) += value;
                 if (i != j) {
-- 
2.43.0


From 04bdbe71d588f2a8acac9e13f9f187086565f38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:10 +0000
Subject: [PATCH 53/56] fix: DivDGMaxDiscretization: lifted boundary vector
 only with the lifted flux of the field

---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index 9ed2808..c396d40 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -209,7 +209,7 @@ void DivDGMaxDiscretization<DIM>::computeFaceIntegralsImpl(
                                            bct);
                         return result;
                     });
-                if (stab_.hasFlux(FluxType::BREZZI) &&
+                if (stab_.fluxType1 == FluxType::BREZZI &&
                     bct == DGMax::BoundaryConditionType::DIRICHLET) {
                     vec += brezziFluxBoundaryVector(face, boundaryVec.second);
                 }
-- 
2.43.0


From e3c64db97d069f55047581b49ee9242c4d6a222e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:35 +0000
Subject: [PATCH 54/56] fix: DivDGMaxDiscretization: permittivity of the right
 element in the lifted normal jump

---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index c396d40..3d3eaeb 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -961,7 +961,7 @@ LinearAlgebra::MiddleSizeMatrix
         const auto materialDivLeft = materialLeft.getMaterialConstantDiv(point);
         const auto materialDivRight =
             materialRight != nullptr
-                ? materialRight->getMaterialConstantCurl(point)
+                ? materialRight->getMaterialConstantDiv(point)
                 : DGMax::MaterialTensor();
 
         normal = face.getUnitNormalVector();
-- 
2.43.0


From 79c58bc42e67aaaa1b03bddf910ddc5650828eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:42 +0000
Subject: [PATCH 55/56] fix: PMLTransmission: sum the field over the faces of
 all processes

The surface area is that of the faces on all processes, but only the faces
of the process itself contributed to the integral of the field. With more
than one process the transmissions were too small and differed between the
processes.
---
 applications/DG-Max/Utils/PMLTransmission.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/applications/DG-Max/Utils/PMLTransmission.cpp b/applications/DG-Max/Utils/PMLTransmission.cpp
index 2f0f9cc..7b2e6b1 100644
--- a/applications/DG-Max/Utils/PMLTransmission.cpp
+++ b/applications/DG-Max/Utils/PMLTransmission.cpp
@@ -106,7 +106,15 @@ std::vector<double> PMLTransmission<dim>::pmlTransmission(
             totalField +=
                 result.computeFieldL2Integral(*face, Base::Side::LEFT);
         }
-        transmission[i] = std::sqrt(totalField / surfaceArea_[i]);
+        transmission[i] = totalField;
+    }
+#ifdef HPGEM_USE_MPI
+    // The surface area is that of the faces on all processes
+    MPI_Allreduce(MPI_IN_PLACE, transmission.data(), transmission.size(),
+                  MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
+#endif
+    for (std::size_t i = 0; i < facetNames_.size(); ++i) {
+        transmission[i] = std::sqrt(transmission[i] / surfaceArea_[i]);
     }
     return transmission;
 }
-- 
2.43.0


From 236ed2b4d2665c3613de5a1202b3f288c40abf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:45 +0000
Subject: [PATCH 56/56] fix: SavageHutter1D: sign of the flux at interior faces
 whose normal points backwards

hllcFlux already returns the flux along the normal of the left element;
multiplying with the normal again reversed the exchange over faces with
normal -1, such as the periodic face of every periodic line.
---
 .../SavageHutter/SavageHutter1DBase.cpp         | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/applications/SavageHutter/SavageHutter1DBase.cpp b/applications/SavageHutter/SavageHutter1DBase.cpp
index 42e0e72..a41ceac 100644
--- a/applications/SavageHutter/SavageHutter1DBase.cpp
+++ b/applications/SavageHutter/SavageHutter1DBase.cpp
@@ -98,9 +98,15 @@ const LinearAlgebra::MiddleSizeVector
         Helpers::getSolution<1>(face.getPhysicalElement(Base::Side::RIGHT),
                                 solutionCoefficientsRight, numberOfVariables_);
 
-    const LinearAlgebra::MiddleSizeVector flux = hllcFlux(
+    LinearAlgebra::MiddleSizeVector flux = hllcFlux(
         solutionLeft, solutionRight, face.getUnitNormalVector()[0], face);
 
+    if (iSide == Base::Side::RIGHT)  // the normal is defined for the left
+                                     // element
+    {
+        flux *= -1;
+    }
+
     LinearAlgebra::MiddleSizeVector &integrand = face.getResultVector(
         iSide);  // Integrand value based on n number of testbasisfunctions from
                  // element corresponding to side iSide
@@ -108,8 +114,7 @@ const LinearAlgebra::MiddleSizeVector
     for (std::size_t iFun = 0; iFun < numberOfTestBasisFunctions; ++iFun) {
         for (std::size_t iVar = 0; iVar < numberOfVariables_; ++iVar) {
             std::size_t iVarFun = face.convertToSingleIndex(iSide, iFun, iVar);
-            integrand(iVarFun) =
-                -flux(iVar) * face.basisFunctionNormal(iSide, iFun)(0);
+            integrand(iVarFun) = -flux(iVar) * face.basisFunction(iSide, iFun);
         }
     }
 
@@ -149,8 +154,7 @@ std::pair<LinearAlgebra::MiddleSizeVector, LinearAlgebra::MiddleSizeVector>
                 face.getPhysicalElement(Base::Side::LEFT)
                     .convertToSingleIndex(iFun, iVar);
             integrands.first(iVarFunLeft) =
-                -flux(iVar) *
-                face.basisFunctionNormal(Base::Side::LEFT, iFun)(0);
+                -flux(iVar) * face.basisFunction(Base::Side::LEFT, iFun);
         }
         for (std::size_t iFun = 0; iFun < numOfTestBasisFunctionsRight;
              ++iFun) {
@@ -158,8 +162,7 @@ std::pair<LinearAlgebra::MiddleSizeVector, LinearAlgebra::MiddleSizeVector>
                 face.getPhysicalElement(Base::Side::RIGHT)
                     .convertToSingleIndex(iFun, iVar);
             integrands.second(iVarFunRight) =
-                -flux(iVar) *
-                face.basisFunctionNormal(Base::Side::RIGHT, iFun)(0);
+                flux(iVar) * face.basisFunction(Base::Side::RIGHT, iFun);
         }
     }
     return integrands;
-- 
2.43.0

