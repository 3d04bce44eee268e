From 4c7d27ed83e2b385429be9ee836769033cab7333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 01/42] fix: keep the requested type of bulk current outputs

A bulkCurrentMagnetic request was turned into a bulkCurrentElectric one
because BulkCurrent hard-coded its type.
---
 src/core/outputRequest/BulkCurrent.cpp | 5 +++--
 src/core/outputRequest/BulkCurrent.h   | 3 ++-
 src/parser/json/Parser.cpp             | 6 +++---
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/core/outputRequest/BulkCurrent.cpp b/src/core/outputRequest/BulkCurrent.cpp
index 74a71a4..1fe13d9 100755
--- a/src/core/outputRequest/BulkCurrent.cpp
+++ b/src/core/outputRequest/BulkCurrent.cpp
@@ -29,8 +29,9 @@ BulkCurrent::BulkCurrent(
         const std::string& name,
         const Geometry::Element::Group<const Geometry::Elem>& elem,
         const Math::Constants::CartesianAxis& dir,
-        const Math::UInt& skip)
-:   SEMBA::OutputRequest::Base(bulkCurrentElectric, name, domain),
+        const Math::UInt& skip,
+        const Type type)
+:   SEMBA::OutputRequest::Base(type, name, domain),
     Geometry::Element::Group<const Geometry::Elem>(elem) {
 
     dir_ = dir;
diff --git a/src/core/outputRequest/BulkCurrent.h b/src/core/outputRequest/BulkCurrent.h
index bf7be2d..1dfe936 100755
--- a/src/core/outputRequest/BulkCurrent.h
+++ b/src/core/outputRequest/BulkCurrent.h
@@ -33,7 +33,8 @@ public:
                 const std::string& name,
                 const Geometry::Element::Group<const Geometry::Elem>& box,
                 const Math::Constants::CartesianAxis& dir,
-                const Math::UInt& skip);
+                const Math::UInt& skip,
+                const Type type = bulkCurrentElectric);
     BulkCurrent(const BulkCurrent& rhs);
     virtual ~BulkCurrent();
 
diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 8bac27e..c91934f 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -392,18 +392,18 @@ OutputRequest::Base* Parser::readOutputRequest(
 			return new OutputRequest::BulkCurrent(domain, name,
 				boxToElemGroup(mesh, j.at("box").get<std::string>()),
 				strToCartesianAxis(j.at("direction").get<std::string>()),
-				j.at("skip").get<int>());
+				j.at("skip").get<int>(), type);
 		} else if (gidOutputType.compare("OutRq_on_point") == 0) {
 			return new OutputRequest::BulkCurrent(domain, name,
 				readCoordIdAsNodes(mesh, j.at("elemIds").get<json>()),
 				strToCartesianAxis(j.at("direction").get<std::string>()),
-				j.at("skip").get<int>());
+				j.at("skip").get<int>(), type);
 		} else {
 			return new OutputRequest::BulkCurrent(domain, name,
 				readElemIdsAsGroupOf<const Geometry::Elem>(
 					mesh, j.at("elemIds").get<json>()),
 				strToCartesianAxis(j.at("direction").get<std::string>()),
-				j.at("skip").get<int>());
+				j.at("skip").get<int>(), type);
 		}
 	}
 
-- 
2.43.0


From 245b85b702212c4a61257a6bc29f0866c4d7aa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:52 +0000
Subject: [PATCH 02/42] fix: keep the option names when copying a multiple
 switch argument

---
 src/core/argument/MultiSwitch.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/argument/MultiSwitch.cpp b/src/core/argument/MultiSwitch.cpp
index 02653e2..69951f8 100755
--- a/src/core/argument/MultiSwitch.cpp
+++ b/src/core/argument/MultiSwitch.cpp
@@ -58,6 +58,7 @@ MultiSwitch::MultiSwitch(const std::string& name,
 
 MultiSwitch::MultiSwitch(const MultiSwitch& rhs)
 :   Argument(rhs),
+    OptionBase(rhs),
     SwitchBase(rhs) {
     hasDefault_ = rhs.hasDefault_;
     default_    = rhs.default_;
-- 
2.43.0


From a13659d843fcb6b8eb8a27491c7b0460838a5a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:40 +0000
Subject: [PATCH 03/42] fix: enlarge a grid bound using the size of the cell at
 that bound

---
 src/core/geometry/Grid.hpp | 1386 ++++++++++++++++++------------------
 1 file changed, 693 insertions(+), 693 deletions(-)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index a3bcb1b..6f3c30e 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -1,693 +1,693 @@
-// OpenSEMBA
-// Copyright (C) 2015 Salvador Gonzalez Garcia        (salva@ugr.es)
-//                    Luis Manuel Diaz Angulo         (lmdiazangulo@semba.guru)
-//                    Miguel David Ruiz-Cabello Nuñez (miguel@semba.guru)
-//                    Daniel Mateos Romero            (damarro@semba.guru)
-//
-// This file is part of OpenSEMBA.
-//
-// OpenSEMBA is free software: you can redistribute it and/or modify it under
-// the terms of the GNU Lesser General Public License as published by the Free
-// Software Foundation, either version 3 of the License, or (at your option)
-// any later version.
-//
-// OpenSEMBA is distributed in the hope that it will be useful, but WITHOUT ANY
-// WARRANTY; without even the implied warranty of MERCHANTABILITY or FITNESS
-// FOR A PARTICULAR PURPOSE. See the GNU Lesser General Public License for more
-// details.
-//
-// You should have received a copy of the GNU Lesser General Public License
-// along with OpenSEMBA. If not, see <http://www.gnu.org/licenses/>.
-
-#include "Grid.h"
-
-#include <stdexcept>
-
-namespace SEMBA {
-namespace Geometry {
-
-template<std::size_t D>
-const Math::Real Grid<D>::tolerance = 1e-2;
-
-template<std::size_t D>
-Grid<D>::Grid() {
-
-}
-
-template<std::size_t D>
-Grid<D>::Grid(const BoxRD& box,
-              const CVecRD& dxyz) {
-    CVecRD origin = box.getMin();
-    for (std::size_t i = 0; i < D; i++) {
-        Math::Real boxLength = box.getMax()(i) - box.getMin()(i);
-        std::size_t nCells;
-        if (dxyz(i) == (Math::Real) 0.0) {
-            nCells = 1;
-        } else {
-            nCells = ceil(boxLength / dxyz(i));
-            if (Math::Util::greater(boxLength, nCells*dxyz(i),
-                    dxyz(i), tolerance)) {
-                nCells++;
-            }
-        }
-        pos_[i].resize(nCells+1);
-        for (std::size_t j = 0; j < nCells+1; j++) {
-            pos_[i][j] = origin(i) + j * dxyz(i);
-        }
-    }
-}
-
-template<std::size_t D>
-Grid<D>::Grid(const BoxRD &boundingBox,
-              const CVecID& dims) {
-    CVecRD origin = boundingBox.getMin();
-    for (std::size_t i = 0; i < D; i++) {
-        Math::Real step =
-                (boundingBox.getMax()(i) - boundingBox.getMin()(i)) / dims(i);
-        std::size_t nCells = dims(i);
-        pos_[i].resize(nCells+1);
-        for (std::size_t j = 0; j < nCells+1; j++) {
-            pos_[i][j] = origin(i) + j * step;
-        }
-    }
-}
-
-template<std::size_t D>
-Grid<D>::Grid(const std::vector<Math::Real> pos[D]) {
-    for(std::size_t d = 0; d < D; d++) {
-        pos_[d] = pos[d];
-    }
-}
-
-
-template<std::size_t D>
-Grid<D>::Grid(const Grid<D>& grid) {
-    for (std::size_t i = 0; i < D; i++) {
-        pos_[i] = grid.pos_[i];
-    }
-}
-
-template<std::size_t D>
-Grid<D>::~Grid() {
-
-}
-
-template<std::size_t D>
-Grid<D>& Grid<D>::operator=(const Grid<D>& rhs) {
-    if (this == &rhs) {
-        return *this;
-    }
-    for (std::size_t i = 0; i < D; i++) {
-        pos_[i] = rhs.pos_[i];
-    }
-    return *this;
-}
-
-template<std::size_t D>
-void Grid<D>::setPos(const std::vector<Math::Real> pos[D]) {
-    for(std::size_t d = 0; d < D; d++) {
-        if (pos[d].size() == 0) {
-            throw std::out_of_range(
-                      "Grid positions must contain at least one value");
-        }
-        pos_[d] = pos[d];
-        if (pos_[d].size() == 1) {
-            pos_[d].push_back(pos_[d][0]);
-        }
-    }
-}
-
-template<std::size_t D>
-void Grid<D>::setAdditionalSteps(
-        const Math::Constants::CartesianAxis d,
-        const Math::Constants::CartesianBound b,
-        const std::vector<Math::Real>& step) {
-    const std::size_t nCells = step.size();
-    std::vector<Math::Real> newPos(nCells);
-    if (b == Math::Constants::U) {
-        newPos[0] = pos_[d].back() + step[0];
-        for (std::size_t i = 1; i < nCells; i++) {
-            newPos[i] = newPos[i-1] + step[i];
-        }
-        pos_[d].insert(pos_[d].end(), newPos.begin(), newPos.end());
-    } else {
-        newPos[0] = pos_[d].front() - step[0];
-        for (std::size_t i = 1; i < nCells; i++) {
-            newPos[i] = newPos[i-1] - step[i];
-        }
-        std::reverse(newPos.begin(), newPos.end());
-        newPos.insert(newPos.end(), pos_[d].begin(), pos_[d].end());
-        pos_[d] = newPos;
-    }
-}
-
-template<std::size_t D>
-bool Grid<D>::hasZeroSize() const {
-    bool res = true;
-    for (std::size_t i = 0; i < D; i++) {
-        res &= (pos_[i].size() <= 1);
-    }
-    return res;
-}
-
-template<std::size_t D>
-bool Grid<D>::isInto(const std::size_t dir, const Math::Real pos) const {
-    if (pos >= getPos(dir)[0] && pos <= getPos(dir).back()) {
-        return true;
-    }
-    return false;
-}
-
-template<std::size_t D>
-bool Grid<D>::getNaturalCell(
-        const Math::Constants::CartesianAxis dir,
-        const Math::Real& x,
-        long int& i,
-        Math::Real& relativeLen) const {
-    size_t n = 0;
-    relativeLen = -1.0;
-    if (x < getPos(dir,0)) {
-        i = 0;
-        return false;
-    } else if (getPos(dir, getNumCells()(dir)) <= x) {
-        i = getNumCells()(dir);
-        return false;
-    }
-    while (getPos(dir)[n] <=x ){
-        n++;
-    }  /*mod this: use sort*/
-    i = n-1;
-    relativeLen = (x - getPos(dir)[i])/
-                  getStep(dir,i);
-    return true;
-}
-
-template<std::size_t D>
-bool Grid<D>::isInto(const CVecRD& pos) const {
-    for (std::size_t i = 0; i < D; i++) {
-        if (!isInto(i, pos(i))) {
-            return false;
-        }
-    }
-    return true;
-}
-
-template<std::size_t D>
-bool Grid<D>::isRegular() const {
-    for (std::size_t i = 0; i < D; i++) {
-        if (!isRegular(i)) {
-            return false;
-        }
-    }
-    return true;
-}
-
-template<std::size_t D>
-bool Grid<D>::isRegular(const std::size_t d) const {
-    std::vector<Math::Real> step = getStep(d);
-    for (std::size_t n = 1; n < step.size(); n++) {
-        if (Math::Util::notEqual(step[n], step[0], step[0], tolerance)) {
-            return false;
-        }
-    }
-    return true;
-}
-
-template<std::size_t D>
-bool Grid<D>::isCartesian() const {
-    Math::Real canon = getStep(Math::Constants::x)[0];
-    for (std::size_t i = 0; i < D; i++) {
-        std::vector<Math::Real> step = getStep(i);
-        for (std::size_t n = 1; n < step.size(); n++) {
-            if (Math::Util::notEqual(step[n], canon, canon, tolerance)) {
-                return false;
-            }
-        }
-    }
-    return true;
-}
-
-template<std::size_t D>
-bool Grid<D>::isCell(const CVecRD& position, const Math::Real tol) const {
-    std::pair<CVecID, CVecRD> natCell = getCellPair(position, true, tol);
-    return natCell.second == CVecRD(0.0);
-}
-
-template<std::size_t D>
-bool Grid<D>::isCell(const std::vector<CVecRD>& pos,
-                     const Math::Real tol) const {
-    for (std::size_t i = 0; i < pos.size(); i++) {
-        if (!isCell(pos[i], tol)) {
-            return false;
-        }
-    }
-    return true;
-}
-
-template<std::size_t D>
-Math::Vector::Cartesian<Math::Int,D> Grid<D>::getNumCells() const {
-    CVecID res;
-    for (std::size_t d = 0; d < D; d++) {
-        res(d) = getPos(d).size() - 1; // Minimum size of pos is 2.
-    }
-    return res;
-}
-
-template<std::size_t D>
-Math::Vector::Cartesian<Math::Int,D> Grid<D>::getOffset() const {
-    return CVecID(0,0,0);
-}
-
-template<std::size_t D>
-Math::Vector::Cartesian<Math::Real,D> Grid<D>::getOrigin() const {
-    CVecRD res;
-    for (std::size_t d = 0; d < D; d++) {
-        if (pos_[d].size() == 0) {
-            throw std::out_of_range("Positions are not initialized.");
-        }
-        res(d) = pos_[d][0];
-    }
-    return res;
-}
-
-template<std::size_t D>
-std::vector<Math::Real> Grid<D>::getStep(const std::size_t dir) const {
-    assert(dir >= 0 && dir < D);
-    if (pos_[dir].size() == 0) {
-        return std::vector<Math::Real>();
-    }
-    std::vector<Math::Real> res(pos_[dir].size()-1);
-    for (std::size_t i = 0; i < pos_[dir].size()-1; i++) {
-        res[i] = pos_[dir][i+1] - pos_[dir][i];
-    }
-    return res;
-}
-
-
-template<std::size_t D>
-Math::Real Grid<D>::getStep(const std::size_t dir, const Math::Int& n) const {
-    assert(dir >= 0 && dir < D);
-    assert(n   >= 0 && n < (Math::Int(pos_[dir].size()) - 1));
-
-    if (pos_[dir].empty()) {
-        return 0.0;
-    }
-    return pos_[dir][n+1] - pos_[dir][n];
-}
-
-
-
-template<std::size_t D>
-Math::Real Grid<D>::getMinimumSpaceStep() const {
-    Math::Real minStep = std::numeric_limits<Math::Real>::infinity();
-    for (std::size_t i = 0; i < D; i++) {
-        std::vector<Math::Real> step = getStep(i);
-        for (std::size_t n = 0; n < step.size(); n++) {
-            if (step[n] < minStep) {
-                minStep = step[n];
-            }
-        }
-    }
-    return minStep;
-}
-
-template<std::size_t D>
-Box<Math::Real,D> Grid<D>::getFullDomainBoundingBox() const {
-    return getBoundingBox(
-            std::pair<CVecID,CVecID> (CVecID(0,0,0), getNumCells()));
-}
-
-template<std::size_t D>
-Box<Math::Int,D> Grid<D>::getFullDomainBoundingCellBox() const {
-    CVecID min, max, dims;
-    for (std::size_t n=0; n<D; n++){
-        dims[n] = pos_[n].size();
-    }
-
-    return BoxID(CVecID(0,0,0), dims);
-}
-
-template<std::size_t D>
-Box<Math::Real,D> Grid<D>::getBoundingBox(const BoxID& bound) const {
-    BoxRD res(getPos(bound.getMin()), getPos(bound.getMax()));
-    return res;
-}
-
-template<std::size_t D>
-Box<Math::Real,D> Grid<D>::getBoxRContaining(const CVecRD& point) const {
-    BoxID boxI = getBoxIContaining(point);
-    return getBoundingBox(boxI);
-}
-
-
-template<std::size_t D>
-Box<Math::Int,D> Grid<D>::getBoxIContaining(const CVecRD& point) const {
-    CVecID min = getCell(point, false);
-    CVecID max = min + 1;
-    return BoxID(min, max);
-}
-
-template<std::size_t D>
-std::vector< Math::Vector::Cartesian<Math::Real,D> >
-    Grid<D>::getCenterOfCellsInside(const BoxRD& bound) const {
-    // Determines centers of cells.
-    std::vector<Math::Real> center[D];
-    for (std::size_t dir = 0; dir < D; dir++) {
-        std::vector<Math::Real> pos = getPosInRange(dir,
-                bound.getMin()(dir),
-                bound.getMax()(dir));
-        if (pos.size() > 0) {
-            center[dir].reserve(pos.size()-1);
-        }
-        for (std::size_t i = 1; i < pos.size(); i++) {
-            Math::Real auxCenter = (pos[i-1] + pos[i]) / 2.0;
-            center[dir].push_back(auxCenter);
-        }
-    }
-    // Combines centers in a std::vector of CVecRD positions.
-    std::vector<CVecRD> res;
-    res.reserve(center[Math::Constants::x].size() *
-                center[Math::Constants::y].size() *
-                center[Math::Constants::z].size());
-    for (std::size_t i = 0; i < center[Math::Constants::x].size(); i++) {
-        for (std::size_t j = 0; j < center[Math::Constants::y].size(); j++) {
-            for (std::size_t k = 0; k < center[Math::Constants::z].size();
-                 k++) {
-                res.push_back(CVecRD(center[Math::Constants::x][i],
-                                     center[Math::Constants::y][j],
-                                     center[Math::Constants::z][k]));
-            }
-        }
-    }
-    return res;
-}
-
-template<std::size_t D>
-std::vector<Math::Real> Grid<D>::getPosInRange(const std::size_t dir,
-        const Math::Real min,
-        const Math::Real max) const {
-    std::vector<Math::Real> pos   = getPos (dir);
-    std::vector<Math::Real> steps = getStep(dir);
-    std::vector<Math::Real> res;
-    res.reserve(pos.size());
-    for (std::size_t i = 0; i < pos.size(); i++) {
-        Math::Real step;
-        if (i < steps.size()) {
-            step = steps[i];
-        } else {
-            step = steps.back();
-        }
-        const bool inMin = Math::Util::equal(pos[i], min, step, tolerance);
-        const bool inMax = Math::Util::equal(pos[i], max, step, tolerance);
-        const bool inRange = (pos[i] >= min && pos[i] <= max);
-        if (inMin || inMax || inRange) {
-            res.push_back(pos[i]);
-        }
-    }
-    return res;
-}
-
-template<std::size_t D>
-std::vector< Math::Vector::Cartesian<Math::Real,D> > Grid<D>::getPos() const {
-    // Combines positions in a std::vector of CVecRD positions.
-    std::vector<CVecRD> res;
-    res.reserve(pos_[Math::Constants::x].size() *
-                pos_[Math::Constants::y].size() *
-                pos_[Math::Constants::z].size());
-    for (std::size_t i = 0; i < pos_[Math::Constants::x].size(); i++) {
-        for (std::size_t j = 0; j < pos_[Math::Constants::y].size(); j++) {
-            for (std::size_t k = 0; k < pos_[Math::Constants::z].size(); k++) {
-                res.push_back(CVecRD(pos_[Math::Constants::x][i],
-                                     pos_[Math::Constants::y][j],
-                                     pos_[Math::Constants::z][k]));
-            }
-        }
-    }
-    return res;
-}
-
-template<std::size_t D>
-std::vector<Math::Real> Grid<D>::getPos(const std::size_t direction) const {
-    assert(direction >= 0 && direction < D);
-    return pos_[direction];
-};
-
-template<std::size_t D>
-Math::Vector::Cartesian<Math::Real,D> Grid<D>::getPos(
-        const CVecID& ijk) const {
-    CVecRD res;
-    for (std::size_t i = 0; i < D; i++) {
-        res(i) = pos_[i][ijk(i)];
-    }
-    return res;
-};
-
-template<std::size_t D>
-Math::Real Grid<D>::getPos(const std::size_t dir, const Math::Int i) const {
-    return  pos_[dir][i];
-}
-
-template<std::size_t D>
-std::pair<Math::Int, Math::Real> Grid<D>::getCellPair(const std::size_t dir,
-                                                      const Math::Real x,
-                                                      const bool approx,
-                                                      const Math::Real tol,
-                                                      bool* err) const {
-    if (err != nullptr) {
-        *err = false;
-    }
-
-    Math::Int  cell;
-    Math::Real dist;
-    std::vector<Math::Real> pos   = getPos (dir);
-    std::vector<Math::Real> steps = getStep(dir);
-    assert(pos_[dir].size() >= 1);
-    // Checks if it is below the grid.
-    if (Math::Util::lower(x, pos[0], steps[0], tol)) {
-        cell = 0;
-        dist = (x-pos[0])/steps[0];
-        if (err != nullptr) {
-            *err = true;
-        }
-        return std::make_pair(cell, dist);
-    }
-    for(std::size_t i = 0; i < pos.size(); i++) {
-        Math::Real step;
-        if (i == 0) {
-            step = steps.front();
-        } else if (i <= steps.size()) {
-            step = steps[i-1];
-        } else {
-            step = steps.back();
-        }
-        if (Math::Util::equal(x, pos[i], step, tol)) {
-            cell = i;
-            dist = 0.0;
-            if (err != nullptr) {
-                *err = false;
-            }
-            return std::make_pair(cell, dist);
-        } else if (Math::Util::lower(x, pos[i], step, tol)) {
-            cell = i - 1;
-            dist = (x - pos[i-1])/step;
-            if(Math::Util::equal(Math::Util::round(dist),1.0) && approx) {
-                cell++;
-                dist -= 1.0;
-            }
-            if (err != nullptr) {
-                *err = false;
-            }
-            return std::make_pair(cell, dist);
-        }
-    }
-    cell = getNumCells()(dir);
-    dist = (x - pos.back())/steps.back();
-    if (err != nullptr) {
-        *err = true;
-    }
-    return std::make_pair(cell, dist);
-}
-
-template<std::size_t D>
-std::pair<Math::Vector::Cartesian<Math::Int,D>,
-          Math::Vector::Cartesian<Math::Real,D>>
-          Grid<D>::getCellPair(const CVecRD& xyz,
-                               const bool approx,
-                               const Math::Real tol,
-                               bool* err) const {
-    if (err != nullptr) {
-        *err = false;
-    }
-    bool stepErr = false;
-
-    CVecID cell;
-    CVecRD dist;
-    for (std::size_t dir = 0; dir < D; dir++) {
-        std::pair<Math::Int, Math::Real> res =
-            getCellPair(dir,xyz(dir),approx,tol,&stepErr);
-        cell(dir) = res.first;
-        dist(dir) = res.second;
-        if (err != nullptr) {
-            *err = *err || stepErr;
-        }
-    }
-    return std::make_pair(cell, dist);
-}
-
-template<std::size_t D>
-Math::CVecI3Fractional Grid<D>::getCVecI3Fractional (const CVecRD& xyz,
-                                                     bool& isInto) const{
-    Math::CVecI3 ijk   ;
-    Math::CVecR3 length;
-    isInto = true  ;
-    for(std::size_t dir=0; dir<D; ++dir){
-         if(!pos_[dir].empty()){
-            if(xyz(dir) <= pos_[dir].front()){
-                if(Math::Util::equal(pos_[dir].front(),xyz(dir))){
-                    ijk(dir) = 0;
-                    length(dir) = 0.0;
-                }else{
-                    isInto = false;
-                    break;
-                }
-            }else if(pos_[dir].back()<=xyz(dir)) {
-                if(Math::Util::equal(pos_[dir].back(),xyz(dir))){
-                    ijk(dir) = pos_[dir].size()-1;
-                    length(dir) = 0.0;
-                }else{
-                    isInto = false;
-                    break;
-                }
-            }else{
-                long int n = 0;
-                while(pos_[dir][n] <= xyz(dir)){
-                    ++n;
-                }
-                ijk(dir) = n-1;
-                length(dir) = (xyz(dir)-pos_[dir][ijk(dir)])
-                               /getStep(dir,ijk(dir));
-            }
-        }
-    }
-    return Math::CVecI3Fractional (ijk,length);
-}
-
-template<std::size_t D>
-Math::Int Grid<D>::getCell(const std::size_t dir,
-                           const Math::Real x,
-                           const bool approx,
-                           const Math::Real tol,
-                           bool* err) const {
-    return getCellPair(dir, x, approx, tol, err).first;
-}
-
-template<std::size_t D>
-Math::Vector::Cartesian<Math::Int,D> Grid<D>::getCell(const CVecRD &coords,
-        const bool approx,
-        const Math::Real tol,
-        bool* err) const {
-    return getCellPair(coords, approx, tol, err).first;
-}
-
-template<std::size_t D>
-void Grid<D>::applyScalingFactor(const Math::Real factor) {
-    for (std::size_t d = 0; d < D; d++) {
-        for (std::size_t i = 0; i < pos_[d].size(); i++) {
-            pos_[d][i] *= factor;
-        }
-    }
-}
-
-template<std::size_t D>
-void Grid<D>::enlarge(const std::pair<CVecRD, CVecRD>& pad,
-                      const std::pair<CVecRD, CVecRD>& sizes) {
-    for (std::size_t d = 0; d < D; d++) {
-        for (std::size_t b = 0; b < 2; b++) {
-            if (b == Math::Constants::L) {
-                enlargeBound(Math::Constants::CartesianAxis(d),
-                             Math::Constants::CartesianBound(b),
-                             pad.first(d), sizes.first(d));
-            } else {
-                enlargeBound(Math::Constants::CartesianAxis(d),
-                             Math::Constants::CartesianBound(b),
-                             pad.second(d), sizes.second(d));
-            }
-        }
-    }
-}
-
-template<std::size_t D>
-void Grid<D>::enlargeBound(Math::Constants::CartesianAxis d,
-                           Math::Constants::CartesianBound b,
-                           Math::Real pad, Math::Real siz) {
-    assert(getNumCells()(d) > 0);
-    if (std::abs(siz) > std::abs(pad)) {
-        std::cerr << "WARNING @ Grid enlarge bound: "
-                << "std::size_t was larger than padding. Ignoring padding in "
-                << "axis " << d << " and bound " << b << "." << std::endl;
-        return;
-    }
-    if (pad == 0.0) {
-        return;
-    }
-    Math::Int boundCell;
-    if (b == Math::Constants::L) {
-        boundCell = 0;
-    } else {
-        boundCell = this->getNumCells()(d) - 1;
-    }
-    std::vector<Math::Real> newSteps;
-    if (Math::Util::greaterEqual(getStep(d,b), siz) || siz == 0.0) {
-        siz = getStep(d,boundCell);
-        // Computes enlargement for a padding with same size.
-        Math::Real nCellsFrac = std::abs(pad/siz);
-        const Math::Real tol = 0.01;
-        std::size_t nCells = (std::size_t) Math::Util::ceil(nCellsFrac, tol);
-        newSteps.resize(nCells, siz);
-    } else {
-        // Computes enlargement for padding with different size.
-        // Taken from AutoCAD interface programmed in LISP (2001).
-        Math::Real d12 = getStep(d,boundCell);
-        Math::Real d14 = std::abs(pad) + d12 + std::abs(siz);
-        Math::Real d34 = std::abs(siz);
-        Math::Real d13 = d14 - d34;
-        Math::Real t0 = d12;
-        Math::Real r0 = (d14-d12) / (d14-d34);
-        Math::Real r = r0;
-        Math::Int n = Math::Util::ceil(log(d34/d12)/log(r0),
-                                       (Math::Real) 0.01) - 1;
-        if (n > 1) {
-            // Newton method to adjust the sum of available space.
-            Math::Real f = 1;
-            const Math::Real threshold =
-                    std::numeric_limits<Math::Real>::epsilon()*1.0e6;
-            while (std::abs(f) >= threshold) {
-                f = t0 * (1-pow(r,n)) / (1-r) - d13;
-                Math::Real df = t0*(1-pow(r,n))/pow(1-r,2) - 
-                                t0*n*pow(r,n-1)/(1-r);
-                r = r - f / df;
-            }
-            newSteps.resize(n-1);
-            for (Math::Int i = 0; i < n-2; i++) {
-                newSteps[i] = t0 * pow(r,(i+1));
-            }
-            newSteps[n-2] = d34;
-        } else {
-            newSteps.resize(1, d34);
-        }
-    }
-    setAdditionalSteps(d, b, newSteps);
-}
-
-template<std::size_t D>
-void Grid<D>::printInfo() const {
-    CVecID numCells = getNumCells();
-    BoxRD bound = getFullDomainBoundingBox();
-    std::cout << "-- Cartesian Grid<" << D << "> --" << std::endl;
-    std::cout << "Dims: " << numCells.toStr() << std::endl;
-    std::cout << "Min val: " << bound.getMin().toStr() << std::endl;
-    std::cout << "Max val: " << bound.getMax().toStr() << std::endl;
-}
-
-} /* namespace Geometry */
-} /* namespace SEMBA */
+// OpenSEMBA
+// Copyright (C) 2015 Salvador Gonzalez Garcia        (salva@ugr.es)
+//                    Luis Manuel Diaz Angulo         (lmdiazangulo@semba.guru)
+//                    Miguel David Ruiz-Cabello Nuñez (miguel@semba.guru)
+//                    Daniel Mateos Romero            (damarro@semba.guru)
+//
+// This file is part of OpenSEMBA.
+//
+// OpenSEMBA is free software: you can redistribute it and/or modify it under
+// the terms of the GNU Lesser General Public License as published by the Free
+// Software Foundation, either version 3 of the License, or (at your option)
+// any later version.
+//
+// OpenSEMBA is distributed in the hope that it will be useful, but WITHOUT ANY
+// WARRANTY; without even the implied warranty of MERCHANTABILITY or FITNESS
+// FOR A PARTICULAR PURPOSE. See the GNU Lesser General Public License for more
+// details.
+//
+// You should have received a copy of the GNU Lesser General Public License
+// along with OpenSEMBA. If not, see <http://www.gnu.org/licenses/>.
+
+#include "Grid.h"
+
+#include <stdexcept>
+
+namespace SEMBA {
+namespace Geometry {
+
+template<std::size_t D>
+const Math::Real Grid<D>::tolerance = 1e-2;
+
+template<std::size_t D>
+Grid<D>::Grid() {
+
+}
+
+template<std::size_t D>
+Grid<D>::Grid(const BoxRD& box,
+              const CVecRD& dxyz) {
+    CVecRD origin = box.getMin();
+    for (std::size_t i = 0; i < D; i++) {
+        Math::Real boxLength = box.getMax()(i) - box.getMin()(i);
+        std::size_t nCells;
+        if (dxyz(i) == (Math::Real) 0.0) {
+            nCells = 1;
+        } else {
+            nCells = ceil(boxLength / dxyz(i));
+            if (Math::Util::greater(boxLength, nCells*dxyz(i),
+                    dxyz(i), tolerance)) {
+                nCells++;
+            }
+        }
+        pos_[i].resize(nCells+1);
+        for (std::size_t j = 0; j < nCells+1; j++) {
+            pos_[i][j] = origin(i) + j * dxyz(i);
+        }
+    }
+}
+
+template<std::size_t D>
+Grid<D>::Grid(const BoxRD &boundingBox,
+              const CVecID& dims) {
+    CVecRD origin = boundingBox.getMin();
+    for (std::size_t i = 0; i < D; i++) {
+        Math::Real step =
+                (boundingBox.getMax()(i) - boundingBox.getMin()(i)) / dims(i);
+        std::size_t nCells = dims(i);
+        pos_[i].resize(nCells+1);
+        for (std::size_t j = 0; j < nCells+1; j++) {
+            pos_[i][j] = origin(i) + j * step;
+        }
+    }
+}
+
+template<std::size_t D>
+Grid<D>::Grid(const std::vector<Math::Real> pos[D]) {
+    for(std::size_t d = 0; d < D; d++) {
+        pos_[d] = pos[d];
+    }
+}
+
+
+template<std::size_t D>
+Grid<D>::Grid(const Grid<D>& grid) {
+    for (std::size_t i = 0; i < D; i++) {
+        pos_[i] = grid.pos_[i];
+    }
+}
+
+template<std::size_t D>
+Grid<D>::~Grid() {
+
+}
+
+template<std::size_t D>
+Grid<D>& Grid<D>::operator=(const Grid<D>& rhs) {
+    if (this == &rhs) {
+        return *this;
+    }
+    for (std::size_t i = 0; i < D; i++) {
+        pos_[i] = rhs.pos_[i];
+    }
+    return *this;
+}
+
+template<std::size_t D>
+void Grid<D>::setPos(const std::vector<Math::Real> pos[D]) {
+    for(std::size_t d = 0; d < D; d++) {
+        if (pos[d].size() == 0) {
+            throw std::out_of_range(
+                      "Grid positions must contain at least one value");
+        }
+        pos_[d] = pos[d];
+        if (pos_[d].size() == 1) {
+            pos_[d].push_back(pos_[d][0]);
+        }
+    }
+}
+
+template<std::size_t D>
+void Grid<D>::setAdditionalSteps(
+        const Math::Constants::CartesianAxis d,
+        const Math::Constants::CartesianBound b,
+        const std::vector<Math::Real>& step) {
+    const std::size_t nCells = step.size();
+    std::vector<Math::Real> newPos(nCells);
+    if (b == Math::Constants::U) {
+        newPos[0] = pos_[d].back() + step[0];
+        for (std::size_t i = 1; i < nCells; i++) {
+            newPos[i] = newPos[i-1] + step[i];
+        }
+        pos_[d].insert(pos_[d].end(), newPos.begin(), newPos.end());
+    } else {
+        newPos[0] = pos_[d].front() - step[0];
+        for (std::size_t i = 1; i < nCells; i++) {
+            newPos[i] = newPos[i-1] - step[i];
+        }
+        std::reverse(newPos.begin(), newPos.end());
+        newPos.insert(newPos.end(), pos_[d].begin(), pos_[d].end());
+        pos_[d] = newPos;
+    }
+}
+
+template<std::size_t D>
+bool Grid<D>::hasZeroSize() const {
+    bool res = true;
+    for (std::size_t i = 0; i < D; i++) {
+        res &= (pos_[i].size() <= 1);
+    }
+    return res;
+}
+
+template<std::size_t D>
+bool Grid<D>::isInto(const std::size_t dir, const Math::Real pos) const {
+    if (pos >= getPos(dir)[0] && pos <= getPos(dir).back()) {
+        return true;
+    }
+    return false;
+}
+
+template<std::size_t D>
+bool Grid<D>::getNaturalCell(
+        const Math::Constants::CartesianAxis dir,
+        const Math::Real& x,
+        long int& i,
+        Math::Real& relativeLen) const {
+    size_t n = 0;
+    relativeLen = -1.0;
+    if (x < getPos(dir,0)) {
+        i = 0;
+        return false;
+    } else if (getPos(dir, getNumCells()(dir)) <= x) {
+        i = getNumCells()(dir);
+        return false;
+    }
+    while (getPos(dir)[n] <=x ){
+        n++;
+    }  /*mod this: use sort*/
+    i = n-1;
+    relativeLen = (x - getPos(dir)[i])/
+                  getStep(dir,i);
+    return true;
+}
+
+template<std::size_t D>
+bool Grid<D>::isInto(const CVecRD& pos) const {
+    for (std::size_t i = 0; i < D; i++) {
+        if (!isInto(i, pos(i))) {
+            return false;
+        }
+    }
+    return true;
+}
+
+template<std::size_t D>
+bool Grid<D>::isRegular() const {
+    for (std::size_t i = 0; i < D; i++) {
+        if (!isRegular(i)) {
+            return false;
+        }
+    }
+    return true;
+}
+
+template<std::size_t D>
+bool Grid<D>::isRegular(const std::size_t d) const {
+    std::vector<Math::Real> step = getStep(d);
+    for (std::size_t n = 1; n < step.size(); n++) {
+        if (Math::Util::notEqual(step[n], step[0], step[0], tolerance)) {
+            return false;
+        }
+    }
+    return true;
+}
+
+template<std::size_t D>
+bool Grid<D>::isCartesian() const {
+    Math::Real canon = getStep(Math::Constants::x)[0];
+    for (std::size_t i = 0; i < D; i++) {
+        std::vector<Math::Real> step = getStep(i);
+        for (std::size_t n = 1; n < step.size(); n++) {
+            if (Math::Util::notEqual(step[n], canon, canon, tolerance)) {
+                return false;
+            }
+        }
+    }
+    return true;
+}
+
+template<std::size_t D>
+bool Grid<D>::isCell(const CVecRD& position, const Math::Real tol) const {
+    std::pair<CVecID, CVecRD> natCell = getCellPair(position, true, tol);
+    return natCell.second == CVecRD(0.0);
+}
+
+template<std::size_t D>
+bool Grid<D>::isCell(const std::vector<CVecRD>& pos,
+                     const Math::Real tol) const {
+    for (std::size_t i = 0; i < pos.size(); i++) {
+        if (!isCell(pos[i], tol)) {
+            return false;
+        }
+    }
+    return true;
+}
+
+template<std::size_t D>
+Math::Vector::Cartesian<Math::Int,D> Grid<D>::getNumCells() const {
+    CVecID res;
+    for (std::size_t d = 0; d < D; d++) {
+        res(d) = getPos(d).size() - 1; // Minimum size of pos is 2.
+    }
+    return res;
+}
+
+template<std::size_t D>
+Math::Vector::Cartesian<Math::Int,D> Grid<D>::getOffset() const {
+    return CVecID(0,0,0);
+}
+
+template<std::size_t D>
+Math::Vector::Cartesian<Math::Real,D> Grid<D>::getOrigin() const {
+    CVecRD res;
+    for (std::size_t d = 0; d < D; d++) {
+        if (pos_[d].size() == 0) {
+            throw std::out_of_range("Positions are not initialized.");
+        }
+        res(d) = pos_[d][0];
+    }
+    return res;
+}
+
+template<std::size_t D>
+std::vector<Math::Real> Grid<D>::getStep(const std::size_t dir) const {
+    assert(dir >= 0 && dir < D);
+    if (pos_[dir].size() == 0) {
+        return std::vector<Math::Real>();
+    }
+    std::vector<Math::Real> res(pos_[dir].size()-1);
+    for (std::size_t i = 0; i < pos_[dir].size()-1; i++) {
+        res[i] = pos_[dir][i+1] - pos_[dir][i];
+    }
+    return res;
+}
+
+
+template<std::size_t D>
+Math::Real Grid<D>::getStep(const std::size_t dir, const Math::Int& n) const {
+    assert(dir >= 0 && dir < D);
+    assert(n   >= 0 && n < (Math::Int(pos_[dir].size()) - 1));
+
+    if (pos_[dir].empty()) {
+        return 0.0;
+    }
+    return pos_[dir][n+1] - pos_[dir][n];
+}
+
+
+
+template<std::size_t D>
+Math::Real Grid<D>::getMinimumSpaceStep() const {
+    Math::Real minStep = std::numeric_limits<Math::Real>::infinity();
+    for (std::size_t i = 0; i < D; i++) {
+        std::vector<Math::Real> step = getStep(i);
+        for (std::size_t n = 0; n < step.size(); n++) {
+            if (step[n] < minStep) {
+                minStep = step[n];
+            }
+        }
+    }
+    return minStep;
+}
+
+template<std::size_t D>
+Box<Math::Real,D> Grid<D>::getFullDomainBoundingBox() const {
+    return getBoundingBox(
+            std::pair<CVecID,CVecID> (CVecID(0,0,0), getNumCells()));
+}
+
+template<std::size_t D>
+Box<Math::Int,D> Grid<D>::getFullDomainBoundingCellBox() const {
+    CVecID min, max, dims;
+    for (std::size_t n=0; n<D; n++){
+        dims[n] = pos_[n].size();
+    }
+
+    return BoxID(CVecID(0,0,0), dims);
+}
+
+template<std::size_t D>
+Box<Math::Real,D> Grid<D>::getBoundingBox(const BoxID& bound) const {
+    BoxRD res(getPos(bound.getMin()), getPos(bound.getMax()));
+    return res;
+}
+
+template<std::size_t D>
+Box<Math::Real,D> Grid<D>::getBoxRContaining(const CVecRD& point) const {
+    BoxID boxI = getBoxIContaining(point);
+    return getBoundingBox(boxI);
+}
+
+
+template<std::size_t D>
+Box<Math::Int,D> Grid<D>::getBoxIContaining(const CVecRD& point) const {
+    CVecID min = getCell(point, false);
+    CVecID max = min + 1;
+    return BoxID(min, max);
+}
+
+template<std::size_t D>
+std::vector< Math::Vector::Cartesian<Math::Real,D> >
+    Grid<D>::getCenterOfCellsInside(const BoxRD& bound) const {
+    // Determines centers of cells.
+    std::vector<Math::Real> center[D];
+    for (std::size_t dir = 0; dir < D; dir++) {
+        std::vector<Math::Real> pos = getPosInRange(dir,
+                bound.getMin()(dir),
+                bound.getMax()(dir));
+        if (pos.size() > 0) {
+            center[dir].reserve(pos.size()-1);
+        }
+        for (std::size_t i = 1; i < pos.size(); i++) {
+            Math::Real auxCenter = (pos[i-1] + pos[i]) / 2.0;
+            center[dir].push_back(auxCenter);
+        }
+    }
+    // Combines centers in a std::vector of CVecRD positions.
+    std::vector<CVecRD> res;
+    res.reserve(center[Math::Constants::x].size() *
+                center[Math::Constants::y].size() *
+                center[Math::Constants::z].size());
+    for (std::size_t i = 0; i < center[Math::Constants::x].size(); i++) {
+        for (std::size_t j = 0; j < center[Math::Constants::y].size(); j++) {
+            for (std::size_t k = 0; k < center[Math::Constants::z].size();
+                 k++) {
+                res.push_back(CVecRD(center[Math::Constants::x][i],
+                                     center[Math::Constants::y][j],
+                                     center[Math::Constants::z][k]));
+            }
+        }
+    }
+    return res;
+}
+
+template<std::size_t D>
+std::vector<Math::Real> Grid<D>::getPosInRange(const std::size_t dir,
+        const Math::Real min,
+        const Math::Real max) const {
+    std::vector<Math::Real> pos   = getPos (dir);
+    std::vector<Math::Real> steps = getStep(dir);
+    std::vector<Math::Real> res;
+    res.reserve(pos.size());
+    for (std::size_t i = 0; i < pos.size(); i++) {
+        Math::Real step;
+        if (i < steps.size()) {
+            step = steps[i];
+        } else {
+            step = steps.back();
+        }
+        const bool inMin = Math::Util::equal(pos[i], min, step, tolerance);
+        const bool inMax = Math::Util::equal(pos[i], max, step, tolerance);
+        const bool inRange = (pos[i] >= min && pos[i] <= max);
+        if (inMin || inMax || inRange) {
+            res.push_back(pos[i]);
+        }
+    }
+    return res;
+}
+
+template<std::size_t D>
+std::vector< Math::Vector::Cartesian<Math::Real,D> > Grid<D>::getPos() const {
+    // Combines positions in a std::vector of CVecRD positions.
+    std::vector<CVecRD> res;
+    res.reserve(pos_[Math::Constants::x].size() *
+                pos_[Math::Constants::y].size() *
+                pos_[Math::Constants::z].size());
+    for (std::size_t i = 0; i < pos_[Math::Constants::x].size(); i++) {
+        for (std::size_t j = 0; j < pos_[Math::Constants::y].size(); j++) {
+            for (std::size_t k = 0; k < pos_[Math::Constants::z].size(); k++) {
+                res.push_back(CVecRD(pos_[Math::Constants::x][i],
+                                     pos_[Math::Constants::y][j],
+                                     pos_[Math::Constants::z][k]));
+            }
+        }
+    }
+    return res;
+}
+
+template<std::size_t D>
+std::vector<Math::Real> Grid<D>::getPos(const std::size_t direction) const {
+    assert(direction >= 0 && direction < D);
+    return pos_[direction];
+};
+
+template<std::size_t D>
+Math::Vector::Cartesian<Math::Real,D> Grid<D>::getPos(
+        const CVecID& ijk) const {
+    CVecRD res;
+    for (std::size_t i = 0; i < D; i++) {
+        res(i) = pos_[i][ijk(i)];
+    }
+    return res;
+};
+
+template<std::size_t D>
+Math::Real Grid<D>::getPos(const std::size_t dir, const Math::Int i) const {
+    return  pos_[dir][i];
+}
+
+template<std::size_t D>
+std::pair<Math::Int, Math::Real> Grid<D>::getCellPair(const std::size_t dir,
+                                                      const Math::Real x,
+                                                      const bool approx,
+                                                      const Math::Real tol,
+                                                      bool* err) const {
+    if (err != nullptr) {
+        *err = false;
+    }
+
+    Math::Int  cell;
+    Math::Real dist;
+    std::vector<Math::Real> pos   = getPos (dir);
+    std::vector<Math::Real> steps = getStep(dir);
+    assert(pos_[dir].size() >= 1);
+    // Checks if it is below the grid.
+    if (Math::Util::lower(x, pos[0], steps[0], tol)) {
+        cell = 0;
+        dist = (x-pos[0])/steps[0];
+        if (err != nullptr) {
+            *err = true;
+        }
+        return std::make_pair(cell, dist);
+    }
+    for(std::size_t i = 0; i < pos.size(); i++) {
+        Math::Real step;
+        if (i == 0) {
+            step = steps.front();
+        } else if (i <= steps.size()) {
+            step = steps[i-1];
+        } else {
+            step = steps.back();
+        }
+        if (Math::Util::equal(x, pos[i], step, tol)) {
+            cell = i;
+            dist = 0.0;
+            if (err != nullptr) {
+                *err = false;
+            }
+            return std::make_pair(cell, dist);
+        } else if (Math::Util::lower(x, pos[i], step, tol)) {
+            cell = i - 1;
+            dist = (x - pos[i-1])/step;
+            if(Math::Util::equal(Math::Util::round(dist),1.0) && approx) {
+                cell++;
+                dist -= 1.0;
+            }
+            if (err != nullptr) {
+                *err = false;
+            }
+            return std::make_pair(cell, dist);
+        }
+    }
+    cell = getNumCells()(dir);
+    dist = (x - pos.back())/steps.back();
+    if (err != nullptr) {
+        *err = true;
+    }
+    return std::make_pair(cell, dist);
+}
+
+template<std::size_t D>
+std::pair<Math::Vector::Cartesian<Math::Int,D>,
+          Math::Vector::Cartesian<Math::Real,D>>
+          Grid<D>::getCellPair(const CVecRD& xyz,
+                               const bool approx,
+                               const Math::Real tol,
+                               bool* err) const {
+    if (err != nullptr) {
+        *err = false;
+    }
+    bool stepErr = false;
+
+    CVecID cell;
+    CVecRD dist;
+    for (std::size_t dir = 0; dir < D; dir++) {
+        std::pair<Math::Int, Math::Real> res =
+            getCellPair(dir,xyz(dir),approx,tol,&stepErr);
+        cell(dir) = res.first;
+        dist(dir) = res.second;
+        if (err != nullptr) {
+            *err = *err || stepErr;
+        }
+    }
+    return std::make_pair(cell, dist);
+}
+
+template<std::size_t D>
+Math::CVecI3Fractional Grid<D>::getCVecI3Fractional (const CVecRD& xyz,
+                                                     bool& isInto) const{
+    Math::CVecI3 ijk   ;
+    Math::CVecR3 length;
+    isInto = true  ;
+    for(std::size_t dir=0; dir<D; ++dir){
+         if(!pos_[dir].empty()){
+            if(xyz(dir) <= pos_[dir].front()){
+                if(Math::Util::equal(pos_[dir].front(),xyz(dir))){
+                    ijk(dir) = 0;
+                    length(dir) = 0.0;
+                }else{
+                    isInto = false;
+                    break;
+                }
+            }else if(pos_[dir].back()<=xyz(dir)) {
+                if(Math::Util::equal(pos_[dir].back(),xyz(dir))){
+                    ijk(dir) = pos_[dir].size()-1;
+                    length(dir) = 0.0;
+                }else{
+                    isInto = false;
+                    break;
+                }
+            }else{
+                long int n = 0;
+                while(pos_[dir][n] <= xyz(dir)){
+                    ++n;
+                }
+                ijk(dir) = n-1;
+                length(dir) = (xyz(dir)-pos_[dir][ijk(dir)])
+                               /getStep(dir,ijk(dir));
+            }
+        }
+    }
+    return Math::CVecI3Fractional (ijk,length);
+}
+
+template<std::size_t D>
+Math::Int Grid<D>::getCell(const std::size_t dir,
+                           const Math::Real x,
+                           const bool approx,
+                           const Math::Real tol,
+                           bool* err) const {
+    return getCellPair(dir, x, approx, tol, err).first;
+}
+
+template<std::size_t D>
+Math::Vector::Cartesian<Math::Int,D> Grid<D>::getCell(const CVecRD &coords,
+        const bool approx,
+        const Math::Real tol,
+        bool* err) const {
+    return getCellPair(coords, approx, tol, err).first;
+}
+
+template<std::size_t D>
+void Grid<D>::applyScalingFactor(const Math::Real factor) {
+    for (std::size_t d = 0; d < D; d++) {
+        for (std::size_t i = 0; i < pos_[d].size(); i++) {
+            pos_[d][i] *= factor;
+        }
+    }
+}
+
+template<std::size_t D>
+void Grid<D>::enlarge(const std::pair<CVecRD, CVecRD>& pad,
+                      const std::pair<CVecRD, CVecRD>& sizes) {
+    for (std::size_t d = 0; d < D; d++) {
+        for (std::size_t b = 0; b < 2; b++) {
+            if (b == Math::Constants::L) {
+                enlargeBound(Math::Constants::CartesianAxis(d),
+                             Math::Constants::CartesianBound(b),
+                             pad.first(d), sizes.first(d));
+            } else {
+                enlargeBound(Math::Constants::CartesianAxis(d),
+                             Math::Constants::CartesianBound(b),
+                             pad.second(d), sizes.second(d));
+            }
+        }
+    }
+}
+
+template<std::size_t D>
+void Grid<D>::enlargeBound(Math::Constants::CartesianAxis d,
+                           Math::Constants::CartesianBound b,
+                           Math::Real pad, Math::Real siz) {
+    assert(getNumCells()(d) > 0);
+    if (std::abs(siz) > std::abs(pad)) {
+        std::cerr << "WARNING @ Grid enlarge bound: "
+                << "std::size_t was larger than padding. Ignoring padding in "
+                << "axis " << d << " and bound " << b << "." << std::endl;
+        return;
+    }
+    if (pad == 0.0) {
+        return;
+    }
+    Math::Int boundCell;
+    if (b == Math::Constants::L) {
+        boundCell = 0;
+    } else {
+        boundCell = this->getNumCells()(d) - 1;
+    }
+    std::vector<Math::Real> newSteps;
+    if (Math::Util::greaterEqual(getStep(d,boundCell), siz) || siz == 0.0) {
+        siz = getStep(d,boundCell);
+        // Computes enlargement for a padding with same size.
+        Math::Real nCellsFrac = std::abs(pad/siz);
+        const Math::Real tol = 0.01;
+        std::size_t nCells = (std::size_t) Math::Util::ceil(nCellsFrac, tol);
+        newSteps.resize(nCells, siz);
+    } else {
+        // Computes enlargement for padding with different size.
+        // Taken from AutoCAD interface programmed in LISP (2001).
+        Math::Real d12 = getStep(d,boundCell);
+        Math::Real d14 = std::abs(pad) + d12 + std::abs(siz);
+        Math::Real d34 = std::abs(siz);
+        Math::Real d13 = d14 - d34;
+        Math::Real t0 = d12;
+        Math::Real r0 = (d14-d12) / (d14-d34);
+        Math::Real r = r0;
+        Math::Int n = Math::Util::ceil(log(d34/d12)/log(r0),
+                                       (Math::Real) 0.01) - 1;
+        if (n > 1) {
+            // Newton method to adjust the sum of available space.
+            Math::Real f = 1;
+            const Math::Real threshold =
+                    std::numeric_limits<Math::Real>::epsilon()*1.0e6;
+            while (std::abs(f) >= threshold) {
+                f = t0 * (1-pow(r,n)) / (1-r) - d13;
+                Math::Real df = t0*(1-pow(r,n))/pow(1-r,2) - 
+                                t0*n*pow(r,n-1)/(1-r);
+                r = r - f / df;
+            }
+            newSteps.resize(n-1);
+            for (Math::Int i = 0; i < n-2; i++) {
+                newSteps[i] = t0 * pow(r,(i+1));
+            }
+            newSteps[n-2] = d34;
+        } else {
+            newSteps.resize(1, d34);
+        }
+    }
+    setAdditionalSteps(d, b, newSteps);
+}
+
+template<std::size_t D>
+void Grid<D>::printInfo() const {
+    CVecID numCells = getNumCells();
+    BoxRD bound = getFullDomainBoundingBox();
+    std::cout << "-- Cartesian Grid<" << D << "> --" << std::endl;
+    std::cout << "Dims: " << numCells.toStr() << std::endl;
+    std::cout << "Min val: " << bound.getMin().toStr() << std::endl;
+    std::cout << "Max val: " << bound.getMax().toStr() << std::endl;
+}
+
+} /* namespace Geometry */
+} /* namespace SEMBA */
-- 
2.43.0


From 1f72bea0ee57664894ba1863d649088aafb5aa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:09 +0000
Subject: [PATCH 04/42] fix: compare the first cell of every axis when asking
 if a grid is Cartesian

---
 src/core/geometry/Grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index 6f3c30e..03c8f43 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -218,7 +218,7 @@ bool Grid<D>::isCartesian() const {
     Math::Real canon = getStep(Math::Constants::x)[0];
     for (std::size_t i = 0; i < D; i++) {
         std::vector<Math::Real> step = getStep(i);
-        for (std::size_t n = 1; n < step.size(); n++) {
+        for (std::size_t n = 0; n < step.size(); n++) {
             if (Math::Util::notEqual(step[n], canon, canon, tolerance)) {
                 return false;
             }
-- 
2.43.0


From 1b971de6874622c4303c89d1c46c3b304fa59ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:25 +0000
Subject: [PATCH 05/42] fix: position the boxes of a chopped real box by the
 grid lines, not by their indices

---
 src/core/geometry/Box.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/Box.hpp b/src/core/geometry/Box.hpp
index 800f16c..5e858f2 100755
--- a/src/core/geometry/Box.hpp
+++ b/src/core/geometry/Box.hpp
@@ -421,8 +421,10 @@ std::vector<Box<T,D>> Box<T,D>::chop(const Grid<D>& grid) const {
     for (Math::Int i = 0; i < numBoxes(Math::Constants::x); i++) {
         for (Math::Int j = 0; j < numBoxes(Math::Constants::y); j++) {
             for (Math::Int k = 0; k < numBoxes(Math::Constants::z); k++) {
-                CVecTD minP = subGrid.getPos(CVecTD(i,j,k));
-                CVecTD maxP = subGrid.getPos(CVecTD(i+1,j+1,k+1));
+                CVecTD minP = subGrid.getPos(
+                        Math::Vector::Cartesian<Math::Int,D>(i,j,k));
+                CVecTD maxP = subGrid.getPos(
+                        Math::Vector::Cartesian<Math::Int,D>(i+1,j+1,k+1));
                 CVecTD minT, maxT;
                 for (std::size_t d = 0; d < D; d++) {
                     if (minP(d) >= min_(d)) {
-- 
2.43.0


From ccfceeb0e9c21a4dd71b4b5c5ee2c12fe6c741ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:12 +0000
Subject: [PATCH 06/42] fix: sorting the rows of a matrix read out of its
 bounds

A partition whose pivot is the least row recursed on (0, -1) in unsigned
arithmetic, and sorts by all columns compared one column past the end
(the last column is inclusive).
---
 src/core/math/matrix/Dynamic.hpp | 4 ++--
 src/core/math/matrix/Matrix.hpp  | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index be8d999..7a30b97 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -192,7 +192,7 @@ Dynamic<T>::copy(
 template<class T>
 Dynamic<T>&
 Dynamic<T>::sortAndRemoveRepeatedRows_omp() {
-   sortRows_omp(0, nCols());
+   sortRows_omp(0, nCols() - 1);
    removeRepeatedSortedRows();
    return *this;
 }
@@ -200,7 +200,7 @@ Dynamic<T>::sortAndRemoveRepeatedRows_omp() {
 template<class T>
 void
 Dynamic<T>::sortAndRemoveRepeatedRows() {
-   this->sortRows(0, nCols());
+   this->sortRows(0, nCols() - 1);
    removeRepeatedSortedRows();
 }
 
diff --git a/src/core/math/matrix/Matrix.hpp b/src/core/math/matrix/Matrix.hpp
index dc4d0ab..7b500ad 100755
--- a/src/core/math/matrix/Matrix.hpp
+++ b/src/core/math/matrix/Matrix.hpp
@@ -224,7 +224,7 @@ template <class T>
 void Matrix<T>::sortRows() {
     // Orders array a with nr rows and nc columns. Ordering is performed
     // using column indicated in orCol as reference. In ascending order.
-    sortRows(0, nCols());
+    sortRows(0, nCols() - 1);
 }
 
 template <class T>
@@ -308,7 +308,9 @@ void Matrix<T>::QSRows_(std::size_t p, std::size_t r,
                         const std::size_t iCol, const std::size_t lCol) {
     if (p < r) {
         std::size_t q = partitionRows_(p, r, iCol, lCol);
-        QSRows_(p, q - 1, iCol, lCol);
+        if (q > p) {
+            QSRows_(p, q - 1, iCol, lCol);
+        }
         QSRows_(q + 1, r, iCol, lCol);
     }
 }
-- 
2.43.0


From ab2cdf6cb641160b3c7ddd458b1e890c52e34f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:12 +0000
Subject: [PATCH 07/42] fix: removing the repeated rows of a matrix of one row
 emptied it

---
 src/core/math/matrix/Dynamic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index 7a30b97..0e5bbec 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -212,7 +212,7 @@ Dynamic<T>::removeRepeatedSortedRows() {
    std::size_t nonRepeated = 0;
    std::size_t nCompared;
    if (nRows() <= 1 ) {
-      nCompared = 0;
+      return;
    } else {
       nCompared = nRows() - 1;
    }
-- 
2.43.0


From 5cd907a85b472d71df8fd52f8fd16bd4324063c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:12 +0000
Subject: [PATCH 08/42] fix: Kronecker product of matrices of different sizes

---
 src/core/math/matrix/Dynamic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index 0e5bbec..23f8a5f 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -548,12 +548,12 @@ Dynamic<T> Dynamic<T>::reshape(std::size_t rows, std::size_t cols, Int order) {
 
 template<class T>
 Dynamic<T> Dynamic<T>::kron(Dynamic<T>& rhs) const {
-   Dynamic<T> res(_nRows + rhs._nRows, _nCols + rhs._nCols);
+   Dynamic<T> res(_nRows * rhs._nRows, _nCols * rhs._nCols);
    for (std::size_t i = 0; i < _nRows; i++) {
       for (std::size_t j = 0; j < rhs._nRows; j++) {
          for (std::size_t k = 0; k < _nCols; k++) {
             for (std::size_t l = 0; l < rhs._nCols; l++) {
-               res(i*_nRows + j, k*_nCols + l) = val(i,k) * rhs(j,l);
+               res(i*rhs._nRows + j, k*rhs._nCols + l) = val(i,k) * rhs(j,l);
             }
          }
       }
-- 
2.43.0


From bd52ae484a4dddbb132af5905338a6860a0f8c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:12 +0000
Subject: [PATCH 09/42] fix: convolution lost its first terms when the second
 vector is longer

j + 1 - param._nRows is unsigned and was never lower than 1.
---
 src/core/math/matrix/Dynamic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index 23f8a5f..af975ab 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -472,7 +472,7 @@ Dynamic<T> Dynamic<T>::convolute(const Dynamic<T> &param) const {
    for (j = 1; j <= _nRows + param._nRows - 1; j++) {
       if (j <= _nRows)
          min = j;
-      if (j + 1 - param._nRows >= 1)
+      if (j >= param._nRows)
          max = j + 1 - param._nRows;
       for (i = max; i <= min; i++)
          res(j-1,0) += val(i-1,0) * param(j-i,0);
-- 
2.43.0


From c77cf33109733edbfc03047a8cefca1ef9ebdd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 10/42] fix: restore the line endings of Grid.hpp

The previous repairs of this file converted them by accident; with this the
repairs touch only the lines they need.
---
 src/core/geometry/Grid.hpp | 1386 ++++++++++++++++++------------------
 1 file changed, 693 insertions(+), 693 deletions(-)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index 03c8f43..67ce535 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -1,693 +1,693 @@
-// OpenSEMBA
-// Copyright (C) 2015 Salvador Gonzalez Garcia        (salva@ugr.es)
-//                    Luis Manuel Diaz Angulo         (lmdiazangulo@semba.guru)
-//                    Miguel David Ruiz-Cabello Nuñez (miguel@semba.guru)
-//                    Daniel Mateos Romero            (damarro@semba.guru)
-//
-// This file is part of OpenSEMBA.
-//
-// OpenSEMBA is free software: you can redistribute it and/or modify it under
-// the terms of the GNU Lesser General Public License as published by the Free
-// Software Foundation, either version 3 of the License, or (at your option)
-// any later version.
-//
-// OpenSEMBA is distributed in the hope that it will be useful, but WITHOUT ANY
-// WARRANTY; without even the implied warranty of MERCHANTABILITY or FITNESS
-// FOR A PARTICULAR PURPOSE. See the GNU Lesser General Public License for more
-// details.
-//
-// You should have received a copy of the GNU Lesser General Public License
-// along with OpenSEMBA. If not, see <http://www.gnu.org/licenses/>.
-
-#include "Grid.h"
-
-#include <stdexcept>
-
-namespace SEMBA {
-namespace Geometry {
-
-template<std::size_t D>
-const Math::Real Grid<D>::tolerance = 1e-2;
-
-template<std::size_t D>
-Grid<D>::Grid() {
-
-}
-
-template<std::size_t D>
-Grid<D>::Grid(const BoxRD& box,
-              const CVecRD& dxyz) {
-    CVecRD origin = box.getMin();
-    for (std::size_t i = 0; i < D; i++) {
-        Math::Real boxLength = box.getMax()(i) - box.getMin()(i);
-        std::size_t nCells;
-        if (dxyz(i) == (Math::Real) 0.0) {
-            nCells = 1;
-        } else {
-            nCells = ceil(boxLength / dxyz(i));
-            if (Math::Util::greater(boxLength, nCells*dxyz(i),
-                    dxyz(i), tolerance)) {
-                nCells++;
-            }
-        }
-        pos_[i].resize(nCells+1);
-        for (std::size_t j = 0; j < nCells+1; j++) {
-            pos_[i][j] = origin(i) + j * dxyz(i);
-        }
-    }
-}
-
-template<std::size_t D>
-Grid<D>::Grid(const BoxRD &boundingBox,
-              const CVecID& dims) {
-    CVecRD origin = boundingBox.getMin();
-    for (std::size_t i = 0; i < D; i++) {
-        Math::Real step =
-                (boundingBox.getMax()(i) - boundingBox.getMin()(i)) / dims(i);
-        std::size_t nCells = dims(i);
-        pos_[i].resize(nCells+1);
-        for (std::size_t j = 0; j < nCells+1; j++) {
-            pos_[i][j] = origin(i) + j * step;
-        }
-    }
-}
-
-template<std::size_t D>
-Grid<D>::Grid(const std::vector<Math::Real> pos[D]) {
-    for(std::size_t d = 0; d < D; d++) {
-        pos_[d] = pos[d];
-    }
-}
-
-
-template<std::size_t D>
-Grid<D>::Grid(const Grid<D>& grid) {
-    for (std::size_t i = 0; i < D; i++) {
-        pos_[i] = grid.pos_[i];
-    }
-}
-
-template<std::size_t D>
-Grid<D>::~Grid() {
-
-}
-
-template<std::size_t D>
-Grid<D>& Grid<D>::operator=(const Grid<D>& rhs) {
-    if (this == &rhs) {
-        return *this;
-    }
-    for (std::size_t i = 0; i < D; i++) {
-        pos_[i] = rhs.pos_[i];
-    }
-    return *this;
-}
-
-template<std::size_t D>
-void Grid<D>::setPos(const std::vector<Math::Real> pos[D]) {
-    for(std::size_t d = 0; d < D; d++) {
-        if (pos[d].size() == 0) {
-            throw std::out_of_range(
-                      "Grid positions must contain at least one value");
-        }
-        pos_[d] = pos[d];
-        if (pos_[d].size() == 1) {
-            pos_[d].push_back(pos_[d][0]);
-        }
-    }
-}
-
-template<std::size_t D>
-void Grid<D>::setAdditionalSteps(
-        const Math::Constants::CartesianAxis d,
-        const Math::Constants::CartesianBound b,
-        const std::vector<Math::Real>& step) {
-    const std::size_t nCells = step.size();
-    std::vector<Math::Real> newPos(nCells);
-    if (b == Math::Constants::U) {
-        newPos[0] = pos_[d].back() + step[0];
-        for (std::size_t i = 1; i < nCells; i++) {
-            newPos[i] = newPos[i-1] + step[i];
-        }
-        pos_[d].insert(pos_[d].end(), newPos.begin(), newPos.end());
-    } else {
-        newPos[0] = pos_[d].front() - step[0];
-        for (std::size_t i = 1; i < nCells; i++) {
-            newPos[i] = newPos[i-1] - step[i];
-        }
-        std::reverse(newPos.begin(), newPos.end());
-        newPos.insert(newPos.end(), pos_[d].begin(), pos_[d].end());
-        pos_[d] = newPos;
-    }
-}
-
-template<std::size_t D>
-bool Grid<D>::hasZeroSize() const {
-    bool res = true;
-    for (std::size_t i = 0; i < D; i++) {
-        res &= (pos_[i].size() <= 1);
-    }
-    return res;
-}
-
-template<std::size_t D>
-bool Grid<D>::isInto(const std::size_t dir, const Math::Real pos) const {
-    if (pos >= getPos(dir)[0] && pos <= getPos(dir).back()) {
-        return true;
-    }
-    return false;
-}
-
-template<std::size_t D>
-bool Grid<D>::getNaturalCell(
-        const Math::Constants::CartesianAxis dir,
-        const Math::Real& x,
-        long int& i,
-        Math::Real& relativeLen) const {
-    size_t n = 0;
-    relativeLen = -1.0;
-    if (x < getPos(dir,0)) {
-        i = 0;
-        return false;
-    } else if (getPos(dir, getNumCells()(dir)) <= x) {
-        i = getNumCells()(dir);
-        return false;
-    }
-    while (getPos(dir)[n] <=x ){
-        n++;
-    }  /*mod this: use sort*/
-    i = n-1;
-    relativeLen = (x - getPos(dir)[i])/
-                  getStep(dir,i);
-    return true;
-}
-
-template<std::size_t D>
-bool Grid<D>::isInto(const CVecRD& pos) const {
-    for (std::size_t i = 0; i < D; i++) {
-        if (!isInto(i, pos(i))) {
-            return false;
-        }
-    }
-    return true;
-}
-
-template<std::size_t D>
-bool Grid<D>::isRegular() const {
-    for (std::size_t i = 0; i < D; i++) {
-        if (!isRegular(i)) {
-            return false;
-        }
-    }
-    return true;
-}
-
-template<std::size_t D>
-bool Grid<D>::isRegular(const std::size_t d) const {
-    std::vector<Math::Real> step = getStep(d);
-    for (std::size_t n = 1; n < step.size(); n++) {
-        if (Math::Util::notEqual(step[n], step[0], step[0], tolerance)) {
-            return false;
-        }
-    }
-    return true;
-}
-
-template<std::size_t D>
-bool Grid<D>::isCartesian() const {
-    Math::Real canon = getStep(Math::Constants::x)[0];
-    for (std::size_t i = 0; i < D; i++) {
-        std::vector<Math::Real> step = getStep(i);
-        for (std::size_t n = 0; n < step.size(); n++) {
-            if (Math::Util::notEqual(step[n], canon, canon, tolerance)) {
-                return false;
-            }
-        }
-    }
-    return true;
-}
-
-template<std::size_t D>
-bool Grid<D>::isCell(const CVecRD& position, const Math::Real tol) const {
-    std::pair<CVecID, CVecRD> natCell = getCellPair(position, true, tol);
-    return natCell.second == CVecRD(0.0);
-}
-
-template<std::size_t D>
-bool Grid<D>::isCell(const std::vector<CVecRD>& pos,
-                     const Math::Real tol) const {
-    for (std::size_t i = 0; i < pos.size(); i++) {
-        if (!isCell(pos[i], tol)) {
-            return false;
-        }
-    }
-    return true;
-}
-
-template<std::size_t D>
-Math::Vector::Cartesian<Math::Int,D> Grid<D>::getNumCells() const {
-    CVecID res;
-    for (std::size_t d = 0; d < D; d++) {
-        res(d) = getPos(d).size() - 1; // Minimum size of pos is 2.
-    }
-    return res;
-}
-
-template<std::size_t D>
-Math::Vector::Cartesian<Math::Int,D> Grid<D>::getOffset() const {
-    return CVecID(0,0,0);
-}
-
-template<std::size_t D>
-Math::Vector::Cartesian<Math::Real,D> Grid<D>::getOrigin() const {
-    CVecRD res;
-    for (std::size_t d = 0; d < D; d++) {
-        if (pos_[d].size() == 0) {
-            throw std::out_of_range("Positions are not initialized.");
-        }
-        res(d) = pos_[d][0];
-    }
-    return res;
-}
-
-template<std::size_t D>
-std::vector<Math::Real> Grid<D>::getStep(const std::size_t dir) const {
-    assert(dir >= 0 && dir < D);
-    if (pos_[dir].size() == 0) {
-        return std::vector<Math::Real>();
-    }
-    std::vector<Math::Real> res(pos_[dir].size()-1);
-    for (std::size_t i = 0; i < pos_[dir].size()-1; i++) {
-        res[i] = pos_[dir][i+1] - pos_[dir][i];
-    }
-    return res;
-}
-
-
-template<std::size_t D>
-Math::Real Grid<D>::getStep(const std::size_t dir, const Math::Int& n) const {
-    assert(dir >= 0 && dir < D);
-    assert(n   >= 0 && n < (Math::Int(pos_[dir].size()) - 1));
-
-    if (pos_[dir].empty()) {
-        return 0.0;
-    }
-    return pos_[dir][n+1] - pos_[dir][n];
-}
-
-
-
-template<std::size_t D>
-Math::Real Grid<D>::getMinimumSpaceStep() const {
-    Math::Real minStep = std::numeric_limits<Math::Real>::infinity();
-    for (std::size_t i = 0; i < D; i++) {
-        std::vector<Math::Real> step = getStep(i);
-        for (std::size_t n = 0; n < step.size(); n++) {
-            if (step[n] < minStep) {
-                minStep = step[n];
-            }
-        }
-    }
-    return minStep;
-}
-
-template<std::size_t D>
-Box<Math::Real,D> Grid<D>::getFullDomainBoundingBox() const {
-    return getBoundingBox(
-            std::pair<CVecID,CVecID> (CVecID(0,0,0), getNumCells()));
-}
-
-template<std::size_t D>
-Box<Math::Int,D> Grid<D>::getFullDomainBoundingCellBox() const {
-    CVecID min, max, dims;
-    for (std::size_t n=0; n<D; n++){
-        dims[n] = pos_[n].size();
-    }
-
-    return BoxID(CVecID(0,0,0), dims);
-}
-
-template<std::size_t D>
-Box<Math::Real,D> Grid<D>::getBoundingBox(const BoxID& bound) const {
-    BoxRD res(getPos(bound.getMin()), getPos(bound.getMax()));
-    return res;
-}
-
-template<std::size_t D>
-Box<Math::Real,D> Grid<D>::getBoxRContaining(const CVecRD& point) const {
-    BoxID boxI = getBoxIContaining(point);
-    return getBoundingBox(boxI);
-}
-
-
-template<std::size_t D>
-Box<Math::Int,D> Grid<D>::getBoxIContaining(const CVecRD& point) const {
-    CVecID min = getCell(point, false);
-    CVecID max = min + 1;
-    return BoxID(min, max);
-}
-
-template<std::size_t D>
-std::vector< Math::Vector::Cartesian<Math::Real,D> >
-    Grid<D>::getCenterOfCellsInside(const BoxRD& bound) const {
-    // Determines centers of cells.
-    std::vector<Math::Real> center[D];
-    for (std::size_t dir = 0; dir < D; dir++) {
-        std::vector<Math::Real> pos = getPosInRange(dir,
-                bound.getMin()(dir),
-                bound.getMax()(dir));
-        if (pos.size() > 0) {
-            center[dir].reserve(pos.size()-1);
-        }
-        for (std::size_t i = 1; i < pos.size(); i++) {
-            Math::Real auxCenter = (pos[i-1] + pos[i]) / 2.0;
-            center[dir].push_back(auxCenter);
-        }
-    }
-    // Combines centers in a std::vector of CVecRD positions.
-    std::vector<CVecRD> res;
-    res.reserve(center[Math::Constants::x].size() *
-                center[Math::Constants::y].size() *
-                center[Math::Constants::z].size());
-    for (std::size_t i = 0; i < center[Math::Constants::x].size(); i++) {
-        for (std::size_t j = 0; j < center[Math::Constants::y].size(); j++) {
-            for (std::size_t k = 0; k < center[Math::Constants::z].size();
-                 k++) {
-                res.push_back(CVecRD(center[Math::Constants::x][i],
-                                     center[Math::Constants::y][j],
-                                     center[Math::Constants::z][k]));
-            }
-        }
-    }
-    return res;
-}
-
-template<std::size_t D>
-std::vector<Math::Real> Grid<D>::getPosInRange(const std::size_t dir,
-        const Math::Real min,
-        const Math::Real max) const {
-    std::vector<Math::Real> pos   = getPos (dir);
-    std::vector<Math::Real> steps = getStep(dir);
-    std::vector<Math::Real> res;
-    res.reserve(pos.size());
-    for (std::size_t i = 0; i < pos.size(); i++) {
-        Math::Real step;
-        if (i < steps.size()) {
-            step = steps[i];
-        } else {
-            step = steps.back();
-        }
-        const bool inMin = Math::Util::equal(pos[i], min, step, tolerance);
-        const bool inMax = Math::Util::equal(pos[i], max, step, tolerance);
-        const bool inRange = (pos[i] >= min && pos[i] <= max);
-        if (inMin || inMax || inRange) {
-            res.push_back(pos[i]);
-        }
-    }
-    return res;
-}
-
-template<std::size_t D>
-std::vector< Math::Vector::Cartesian<Math::Real,D> > Grid<D>::getPos() const {
-    // Combines positions in a std::vector of CVecRD positions.
-    std::vector<CVecRD> res;
-    res.reserve(pos_[Math::Constants::x].size() *
-                pos_[Math::Constants::y].size() *
-                pos_[Math::Constants::z].size());
-    for (std::size_t i = 0; i < pos_[Math::Constants::x].size(); i++) {
-        for (std::size_t j = 0; j < pos_[Math::Constants::y].size(); j++) {
-            for (std::size_t k = 0; k < pos_[Math::Constants::z].size(); k++) {
-                res.push_back(CVecRD(pos_[Math::Constants::x][i],
-                                     pos_[Math::Constants::y][j],
-                                     pos_[Math::Constants::z][k]));
-            }
-        }
-    }
-    return res;
-}
-
-template<std::size_t D>
-std::vector<Math::Real> Grid<D>::getPos(const std::size_t direction) const {
-    assert(direction >= 0 && direction < D);
-    return pos_[direction];
-};
-
-template<std::size_t D>
-Math::Vector::Cartesian<Math::Real,D> Grid<D>::getPos(
-        const CVecID& ijk) const {
-    CVecRD res;
-    for (std::size_t i = 0; i < D; i++) {
-        res(i) = pos_[i][ijk(i)];
-    }
-    return res;
-};
-
-template<std::size_t D>
-Math::Real Grid<D>::getPos(const std::size_t dir, const Math::Int i) const {
-    return  pos_[dir][i];
-}
-
-template<std::size_t D>
-std::pair<Math::Int, Math::Real> Grid<D>::getCellPair(const std::size_t dir,
-                                                      const Math::Real x,
-                                                      const bool approx,
-                                                      const Math::Real tol,
-                                                      bool* err) const {
-    if (err != nullptr) {
-        *err = false;
-    }
-
-    Math::Int  cell;
-    Math::Real dist;
-    std::vector<Math::Real> pos   = getPos (dir);
-    std::vector<Math::Real> steps = getStep(dir);
-    assert(pos_[dir].size() >= 1);
-    // Checks if it is below the grid.
-    if (Math::Util::lower(x, pos[0], steps[0], tol)) {
-        cell = 0;
-        dist = (x-pos[0])/steps[0];
-        if (err != nullptr) {
-            *err = true;
-        }
-        return std::make_pair(cell, dist);
-    }
-    for(std::size_t i = 0; i < pos.size(); i++) {
-        Math::Real step;
-        if (i == 0) {
-            step = steps.front();
-        } else if (i <= steps.size()) {
-            step = steps[i-1];
-        } else {
-            step = steps.back();
-        }
-        if (Math::Util::equal(x, pos[i], step, tol)) {
-            cell = i;
-            dist = 0.0;
-            if (err != nullptr) {
-                *err = false;
-            }
-            return std::make_pair(cell, dist);
-        } else if (Math::Util::lower(x, pos[i], step, tol)) {
-            cell = i - 1;
-            dist = (x - pos[i-1])/step;
-            if(Math::Util::equal(Math::Util::round(dist),1.0) && approx) {
-                cell++;
-                dist -= 1.0;
-            }
-            if (err != nullptr) {
-                *err = false;
-            }
-            return std::make_pair(cell, dist);
-        }
-    }
-    cell = getNumCells()(dir);
-    dist = (x - pos.back())/steps.back();
-    if (err != nullptr) {
-        *err = true;
-    }
-    return std::make_pair(cell, dist);
-}
-
-template<std::size_t D>
-std::pair<Math::Vector::Cartesian<Math::Int,D>,
-          Math::Vector::Cartesian<Math::Real,D>>
-          Grid<D>::getCellPair(const CVecRD& xyz,
-                               const bool approx,
-                               const Math::Real tol,
-                               bool* err) const {
-    if (err != nullptr) {
-        *err = false;
-    }
-    bool stepErr = false;
-
-    CVecID cell;
-    CVecRD dist;
-    for (std::size_t dir = 0; dir < D; dir++) {
-        std::pair<Math::Int, Math::Real> res =
-            getCellPair(dir,xyz(dir),approx,tol,&stepErr);
-        cell(dir) = res.first;
-        dist(dir) = res.second;
-        if (err != nullptr) {
-            *err = *err || stepErr;
-        }
-    }
-    return std::make_pair(cell, dist);
-}
-
-template<std::size_t D>
-Math::CVecI3Fractional Grid<D>::getCVecI3Fractional (const CVecRD& xyz,
-                                                     bool& isInto) const{
-    Math::CVecI3 ijk   ;
-    Math::CVecR3 length;
-    isInto = true  ;
-    for(std::size_t dir=0; dir<D; ++dir){
-         if(!pos_[dir].empty()){
-            if(xyz(dir) <= pos_[dir].front()){
-                if(Math::Util::equal(pos_[dir].front(),xyz(dir))){
-                    ijk(dir) = 0;
-                    length(dir) = 0.0;
-                }else{
-                    isInto = false;
-                    break;
-                }
-            }else if(pos_[dir].back()<=xyz(dir)) {
-                if(Math::Util::equal(pos_[dir].back(),xyz(dir))){
-                    ijk(dir) = pos_[dir].size()-1;
-                    length(dir) = 0.0;
-                }else{
-                    isInto = false;
-                    break;
-                }
-            }else{
-                long int n = 0;
-                while(pos_[dir][n] <= xyz(dir)){
-                    ++n;
-                }
-                ijk(dir) = n-1;
-                length(dir) = (xyz(dir)-pos_[dir][ijk(dir)])
-                               /getStep(dir,ijk(dir));
-            }
-        }
-    }
-    return Math::CVecI3Fractional (ijk,length);
-}
-
-template<std::size_t D>
-Math::Int Grid<D>::getCell(const std::size_t dir,
-                           const Math::Real x,
-                           const bool approx,
-                           const Math::Real tol,
-                           bool* err) const {
-    return getCellPair(dir, x, approx, tol, err).first;
-}
-
-template<std::size_t D>
-Math::Vector::Cartesian<Math::Int,D> Grid<D>::getCell(const CVecRD &coords,
-        const bool approx,
-        const Math::Real tol,
-        bool* err) const {
-    return getCellPair(coords, approx, tol, err).first;
-}
-
-template<std::size_t D>
-void Grid<D>::applyScalingFactor(const Math::Real factor) {
-    for (std::size_t d = 0; d < D; d++) {
-        for (std::size_t i = 0; i < pos_[d].size(); i++) {
-            pos_[d][i] *= factor;
-        }
-    }
-}
-
-template<std::size_t D>
-void Grid<D>::enlarge(const std::pair<CVecRD, CVecRD>& pad,
-                      const std::pair<CVecRD, CVecRD>& sizes) {
-    for (std::size_t d = 0; d < D; d++) {
-        for (std::size_t b = 0; b < 2; b++) {
-            if (b == Math::Constants::L) {
-                enlargeBound(Math::Constants::CartesianAxis(d),
-                             Math::Constants::CartesianBound(b),
-                             pad.first(d), sizes.first(d));
-            } else {
-                enlargeBound(Math::Constants::CartesianAxis(d),
-                             Math::Constants::CartesianBound(b),
-                             pad.second(d), sizes.second(d));
-            }
-        }
-    }
-}
-
-template<std::size_t D>
-void Grid<D>::enlargeBound(Math::Constants::CartesianAxis d,
-                           Math::Constants::CartesianBound b,
-                           Math::Real pad, Math::Real siz) {
-    assert(getNumCells()(d) > 0);
-    if (std::abs(siz) > std::abs(pad)) {
-        std::cerr << "WARNING @ Grid enlarge bound: "
-                << "std::size_t was larger than padding. Ignoring padding in "
-                << "axis " << d << " and bound " << b << "." << std::endl;
-        return;
-    }
-    if (pad == 0.0) {
-        return;
-    }
-    Math::Int boundCell;
-    if (b == Math::Constants::L) {
-        boundCell = 0;
-    } else {
-        boundCell = this->getNumCells()(d) - 1;
-    }
-    std::vector<Math::Real> newSteps;
-    if (Math::Util::greaterEqual(getStep(d,boundCell), siz) || siz == 0.0) {
-        siz = getStep(d,boundCell);
-        // Computes enlargement for a padding with same size.
-        Math::Real nCellsFrac = std::abs(pad/siz);
-        const Math::Real tol = 0.01;
-        std::size_t nCells = (std::size_t) Math::Util::ceil(nCellsFrac, tol);
-        newSteps.resize(nCells, siz);
-    } else {
-        // Computes enlargement for padding with different size.
-        // Taken from AutoCAD interface programmed in LISP (2001).
-        Math::Real d12 = getStep(d,boundCell);
-        Math::Real d14 = std::abs(pad) + d12 + std::abs(siz);
-        Math::Real d34 = std::abs(siz);
-        Math::Real d13 = d14 - d34;
-        Math::Real t0 = d12;
-        Math::Real r0 = (d14-d12) / (d14-d34);
-        Math::Real r = r0;
-        Math::Int n = Math::Util::ceil(log(d34/d12)/log(r0),
-                                       (Math::Real) 0.01) - 1;
-        if (n > 1) {
-            // Newton method to adjust the sum of available space.
-            Math::Real f = 1;
-            const Math::Real threshold =
-                    std::numeric_limits<Math::Real>::epsilon()*1.0e6;
-            while (std::abs(f) >= threshold) {
-                f = t0 * (1-pow(r,n)) / (1-r) - d13;
-                Math::Real df = t0*(1-pow(r,n))/pow(1-r,2) - 
-                                t0*n*pow(r,n-1)/(1-r);
-                r = r - f / df;
-            }
-            newSteps.resize(n-1);
-            for (Math::Int i = 0; i < n-2; i++) {
-                newSteps[i] = t0 * pow(r,(i+1));
-            }
-            newSteps[n-2] = d34;
-        } else {
-            newSteps.resize(1, d34);
-        }
-    }
-    setAdditionalSteps(d, b, newSteps);
-}
-
-template<std::size_t D>
-void Grid<D>::printInfo() const {
-    CVecID numCells = getNumCells();
-    BoxRD bound = getFullDomainBoundingBox();
-    std::cout << "-- Cartesian Grid<" << D << "> --" << std::endl;
-    std::cout << "Dims: " << numCells.toStr() << std::endl;
-    std::cout << "Min val: " << bound.getMin().toStr() << std::endl;
-    std::cout << "Max val: " << bound.getMax().toStr() << std::endl;
-}
-
-} /* namespace Geometry */
-} /* namespace SEMBA */
+// OpenSEMBA
+// Copyright (C) 2015 Salvador Gonzalez Garcia        (salva@ugr.es)
+//                    Luis Manuel Diaz Angulo         (lmdiazangulo@semba.guru)
+//                    Miguel David Ruiz-Cabello Nuñez (miguel@semba.guru)
+//                    Daniel Mateos Romero            (damarro@semba.guru)
+//
+// This file is part of OpenSEMBA.
+//
+// OpenSEMBA is free software: you can redistribute it and/or modify it under
+// the terms of the GNU Lesser General Public License as published by the Free
+// Software Foundation, either version 3 of the License, or (at your option)
+// any later version.
+//
+// OpenSEMBA is distributed in the hope that it will be useful, but WITHOUT ANY
+// WARRANTY; without even the implied warranty of MERCHANTABILITY or FITNESS
+// FOR A PARTICULAR PURPOSE. See the GNU Lesser General Public License for more
+// details.
+//
+// You should have received a copy of the GNU Lesser General Public License
+// along with OpenSEMBA. If not, see <http://www.gnu.org/licenses/>.
+
+#include "Grid.h"
+
+#include <stdexcept>
+
+namespace SEMBA {
+namespace Geometry {
+
+template<std::size_t D>
+const Math::Real Grid<D>::tolerance = 1e-2;
+
+template<std::size_t D>
+Grid<D>::Grid() {
+
+}
+
+template<std::size_t D>
+Grid<D>::Grid(const BoxRD& box,
+              const CVecRD& dxyz) {
+    CVecRD origin = box.getMin();
+    for (std::size_t i = 0; i < D; i++) {
+        Math::Real boxLength = box.getMax()(i) - box.getMin()(i);
+        std::size_t nCells;
+        if (dxyz(i) == (Math::Real) 0.0) {
+            nCells = 1;
+        } else {
+            nCells = ceil(boxLength / dxyz(i));
+            if (Math::Util::greater(boxLength, nCells*dxyz(i),
+                    dxyz(i), tolerance)) {
+                nCells++;
+            }
+        }
+        pos_[i].resize(nCells+1);
+        for (std::size_t j = 0; j < nCells+1; j++) {
+            pos_[i][j] = origin(i) + j * dxyz(i);
+        }
+    }
+}
+
+template<std::size_t D>
+Grid<D>::Grid(const BoxRD &boundingBox,
+              const CVecID& dims) {
+    CVecRD origin = boundingBox.getMin();
+    for (std::size_t i = 0; i < D; i++) {
+        Math::Real step =
+                (boundingBox.getMax()(i) - boundingBox.getMin()(i)) / dims(i);
+        std::size_t nCells = dims(i);
+        pos_[i].resize(nCells+1);
+        for (std::size_t j = 0; j < nCells+1; j++) {
+            pos_[i][j] = origin(i) + j * step;
+        }
+    }
+}
+
+template<std::size_t D>
+Grid<D>::Grid(const std::vector<Math::Real> pos[D]) {
+    for(std::size_t d = 0; d < D; d++) {
+        pos_[d] = pos[d];
+    }
+}
+
+
+template<std::size_t D>
+Grid<D>::Grid(const Grid<D>& grid) {
+    for (std::size_t i = 0; i < D; i++) {
+        pos_[i] = grid.pos_[i];
+    }
+}
+
+template<std::size_t D>
+Grid<D>::~Grid() {
+
+}
+
+template<std::size_t D>
+Grid<D>& Grid<D>::operator=(const Grid<D>& rhs) {
+    if (this == &rhs) {
+        return *this;
+    }
+    for (std::size_t i = 0; i < D; i++) {
+        pos_[i] = rhs.pos_[i];
+    }
+    return *this;
+}
+
+template<std::size_t D>
+void Grid<D>::setPos(const std::vector<Math::Real> pos[D]) {
+    for(std::size_t d = 0; d < D; d++) {
+        if (pos[d].size() == 0) {
+            throw std::out_of_range(
+                      "Grid positions must contain at least one value");
+        }
+        pos_[d] = pos[d];
+        if (pos_[d].size() == 1) {
+            pos_[d].push_back(pos_[d][0]);
+        }
+    }
+}
+
+template<std::size_t D>
+void Grid<D>::setAdditionalSteps(
+        const Math::Constants::CartesianAxis d,
+        const Math::Constants::CartesianBound b,
+        const std::vector<Math::Real>& step) {
+    const std::size_t nCells = step.size();
+    std::vector<Math::Real> newPos(nCells);
+    if (b == Math::Constants::U) {
+        newPos[0] = pos_[d].back() + step[0];
+        for (std::size_t i = 1; i < nCells; i++) {
+            newPos[i] = newPos[i-1] + step[i];
+        }
+        pos_[d].insert(pos_[d].end(), newPos.begin(), newPos.end());
+    } else {
+        newPos[0] = pos_[d].front() - step[0];
+        for (std::size_t i = 1; i < nCells; i++) {
+            newPos[i] = newPos[i-1] - step[i];
+        }
+        std::reverse(newPos.begin(), newPos.end());
+        newPos.insert(newPos.end(), pos_[d].begin(), pos_[d].end());
+        pos_[d] = newPos;
+    }
+}
+
+template<std::size_t D>
+bool Grid<D>::hasZeroSize() const {
+    bool res = true;
+    for (std::size_t i = 0; i < D; i++) {
+        res &= (pos_[i].size() <= 1);
+    }
+    return res;
+}
+
+template<std::size_t D>
+bool Grid<D>::isInto(const std::size_t dir, const Math::Real pos) const {
+    if (pos >= getPos(dir)[0] && pos <= getPos(dir).back()) {
+        return true;
+    }
+    return false;
+}
+
+template<std::size_t D>
+bool Grid<D>::getNaturalCell(
+        const Math::Constants::CartesianAxis dir,
+        const Math::Real& x,
+        long int& i,
+        Math::Real& relativeLen) const {
+    size_t n = 0;
+    relativeLen = -1.0;
+    if (x < getPos(dir,0)) {
+        i = 0;
+        return false;
+    } else if (getPos(dir, getNumCells()(dir)) <= x) {
+        i = getNumCells()(dir);
+        return false;
+    }
+    while (getPos(dir)[n] <=x ){
+        n++;
+    }  /*mod this: use sort*/
+    i = n-1;
+    relativeLen = (x - getPos(dir)[i])/
+                  getStep(dir,i);
+    return true;
+}
+
+template<std::size_t D>
+bool Grid<D>::isInto(const CVecRD& pos) const {
+    for (std::size_t i = 0; i < D; i++) {
+        if (!isInto(i, pos(i))) {
+            return false;
+        }
+    }
+    return true;
+}
+
+template<std::size_t D>
+bool Grid<D>::isRegular() const {
+    for (std::size_t i = 0; i < D; i++) {
+        if (!isRegular(i)) {
+            return false;
+        }
+    }
+    return true;
+}
+
+template<std::size_t D>
+bool Grid<D>::isRegular(const std::size_t d) const {
+    std::vector<Math::Real> step = getStep(d);
+    for (std::size_t n = 1; n < step.size(); n++) {
+        if (Math::Util::notEqual(step[n], step[0], step[0], tolerance)) {
+            return false;
+        }
+    }
+    return true;
+}
+
+template<std::size_t D>
+bool Grid<D>::isCartesian() const {
+    Math::Real canon = getStep(Math::Constants::x)[0];
+    for (std::size_t i = 0; i < D; i++) {
+        std::vector<Math::Real> step = getStep(i);
+        for (std::size_t n = 0; n < step.size(); n++) {
+            if (Math::Util::notEqual(step[n], canon, canon, tolerance)) {
+                return false;
+            }
+        }
+    }
+    return true;
+}
+
+template<std::size_t D>
+bool Grid<D>::isCell(const CVecRD& position, const Math::Real tol) const {
+    std::pair<CVecID, CVecRD> natCell = getCellPair(position, true, tol);
+    return natCell.second == CVecRD(0.0);
+}
+
+template<std::size_t D>
+bool Grid<D>::isCell(const std::vector<CVecRD>& pos,
+                     const Math::Real tol) const {
+    for (std::size_t i = 0; i < pos.size(); i++) {
+        if (!isCell(pos[i], tol)) {
+            return false;
+        }
+    }
+    return true;
+}
+
+template<std::size_t D>
+Math::Vector::Cartesian<Math::Int,D> Grid<D>::getNumCells() const {
+    CVecID res;
+    for (std::size_t d = 0; d < D; d++) {
+        res(d) = getPos(d).size() - 1; // Minimum size of pos is 2.
+    }
+    return res;
+}
+
+template<std::size_t D>
+Math::Vector::Cartesian<Math::Int,D> Grid<D>::getOffset() const {
+    return CVecID(0,0,0);
+}
+
+template<std::size_t D>
+Math::Vector::Cartesian<Math::Real,D> Grid<D>::getOrigin() const {
+    CVecRD res;
+    for (std::size_t d = 0; d < D; d++) {
+        if (pos_[d].size() == 0) {
+            throw std::out_of_range("Positions are not initialized.");
+        }
+        res(d) = pos_[d][0];
+    }
+    return res;
+}
+
+template<std::size_t D>
+std::vector<Math::Real> Grid<D>::getStep(const std::size_t dir) const {
+    assert(dir >= 0 && dir < D);
+    if (pos_[dir].size() == 0) {
+        return std::vector<Math::Real>();
+    }
+    std::vector<Math::Real> res(pos_[dir].size()-1);
+    for (std::size_t i = 0; i < pos_[dir].size()-1; i++) {
+        res[i] = pos_[dir][i+1] - pos_[dir][i];
+    }
+    return res;
+}
+
+
+template<std::size_t D>
+Math::Real Grid<D>::getStep(const std::size_t dir, const Math::Int& n) const {
+    assert(dir >= 0 && dir < D);
+    assert(n   >= 0 && n < (Math::Int(pos_[dir].size()) - 1));
+
+    if (pos_[dir].empty()) {
+        return 0.0;
+    }
+    return pos_[dir][n+1] - pos_[dir][n];
+}
+
+
+
+template<std::size_t D>
+Math::Real Grid<D>::getMinimumSpaceStep() const {
+    Math::Real minStep = std::numeric_limits<Math::Real>::infinity();
+    for (std::size_t i = 0; i < D; i++) {
+        std::vector<Math::Real> step = getStep(i);
+        for (std::size_t n = 0; n < step.size(); n++) {
+            if (step[n] < minStep) {
+                minStep = step[n];
+            }
+        }
+    }
+    return minStep;
+}
+
+template<std::size_t D>
+Box<Math::Real,D> Grid<D>::getFullDomainBoundingBox() const {
+    return getBoundingBox(
+            std::pair<CVecID,CVecID> (CVecID(0,0,0), getNumCells()));
+}
+
+template<std::size_t D>
+Box<Math::Int,D> Grid<D>::getFullDomainBoundingCellBox() const {
+    CVecID min, max, dims;
+    for (std::size_t n=0; n<D; n++){
+        dims[n] = pos_[n].size();
+    }
+
+    return BoxID(CVecID(0,0,0), dims);
+}
+
+template<std::size_t D>
+Box<Math::Real,D> Grid<D>::getBoundingBox(const BoxID& bound) const {
+    BoxRD res(getPos(bound.getMin()), getPos(bound.getMax()));
+    return res;
+}
+
+template<std::size_t D>
+Box<Math::Real,D> Grid<D>::getBoxRContaining(const CVecRD& point) const {
+    BoxID boxI = getBoxIContaining(point);
+    return getBoundingBox(boxI);
+}
+
+
+template<std::size_t D>
+Box<Math::Int,D> Grid<D>::getBoxIContaining(const CVecRD& point) const {
+    CVecID min = getCell(point, false);
+    CVecID max = min + 1;
+    return BoxID(min, max);
+}
+
+template<std::size_t D>
+std::vector< Math::Vector::Cartesian<Math::Real,D> >
+    Grid<D>::getCenterOfCellsInside(const BoxRD& bound) const {
+    // Determines centers of cells.
+    std::vector<Math::Real> center[D];
+    for (std::size_t dir = 0; dir < D; dir++) {
+        std::vector<Math::Real> pos = getPosInRange(dir,
+                bound.getMin()(dir),
+                bound.getMax()(dir));
+        if (pos.size() > 0) {
+            center[dir].reserve(pos.size()-1);
+        }
+        for (std::size_t i = 1; i < pos.size(); i++) {
+            Math::Real auxCenter = (pos[i-1] + pos[i]) / 2.0;
+            center[dir].push_back(auxCenter);
+        }
+    }
+    // Combines centers in a std::vector of CVecRD positions.
+    std::vector<CVecRD> res;
+    res.reserve(center[Math::Constants::x].size() *
+                center[Math::Constants::y].size() *
+                center[Math::Constants::z].size());
+    for (std::size_t i = 0; i < center[Math::Constants::x].size(); i++) {
+        for (std::size_t j = 0; j < center[Math::Constants::y].size(); j++) {
+            for (std::size_t k = 0; k < center[Math::Constants::z].size();
+                 k++) {
+                res.push_back(CVecRD(center[Math::Constants::x][i],
+                                     center[Math::Constants::y][j],
+                                     center[Math::Constants::z][k]));
+            }
+        }
+    }
+    return res;
+}
+
+template<std::size_t D>
+std::vector<Math::Real> Grid<D>::getPosInRange(const std::size_t dir,
+        const Math::Real min,
+        const Math::Real max) const {
+    std::vector<Math::Real> pos   = getPos (dir);
+    std::vector<Math::Real> steps = getStep(dir);
+    std::vector<Math::Real> res;
+    res.reserve(pos.size());
+    for (std::size_t i = 0; i < pos.size(); i++) {
+        Math::Real step;
+        if (i < steps.size()) {
+            step = steps[i];
+        } else {
+            step = steps.back();
+        }
+        const bool inMin = Math::Util::equal(pos[i], min, step, tolerance);
+        const bool inMax = Math::Util::equal(pos[i], max, step, tolerance);
+        const bool inRange = (pos[i] >= min && pos[i] <= max);
+        if (inMin || inMax || inRange) {
+            res.push_back(pos[i]);
+        }
+    }
+    return res;
+}
+
+template<std::size_t D>
+std::vector< Math::Vector::Cartesian<Math::Real,D> > Grid<D>::getPos() const {
+    // Combines positions in a std::vector of CVecRD positions.
+    std::vector<CVecRD> res;
+    res.reserve(pos_[Math::Constants::x].size() *
+                pos_[Math::Constants::y].size() *
+                pos_[Math::Constants::z].size());
+    for (std::size_t i = 0; i < pos_[Math::Constants::x].size(); i++) {
+        for (std::size_t j = 0; j < pos_[Math::Constants::y].size(); j++) {
+            for (std::size_t k = 0; k < pos_[Math::Constants::z].size(); k++) {
+                res.push_back(CVecRD(pos_[Math::Constants::x][i],
+                                     pos_[Math::Constants::y][j],
+                                     pos_[Math::Constants::z][k]));
+            }
+        }
+    }
+    return res;
+}
+
+template<std::size_t D>
+std::vector<Math::Real> Grid<D>::getPos(const std::size_t direction) const {
+    assert(direction >= 0 && direction < D);
+    return pos_[direction];
+};
+
+template<std::size_t D>
+Math::Vector::Cartesian<Math::Real,D> Grid<D>::getPos(
+        const CVecID& ijk) const {
+    CVecRD res;
+    for (std::size_t i = 0; i < D; i++) {
+        res(i) = pos_[i][ijk(i)];
+    }
+    return res;
+};
+
+template<std::size_t D>
+Math::Real Grid<D>::getPos(const std::size_t dir, const Math::Int i) const {
+    return  pos_[dir][i];
+}
+
+template<std::size_t D>
+std::pair<Math::Int, Math::Real> Grid<D>::getCellPair(const std::size_t dir,
+                                                      const Math::Real x,
+                                                      const bool approx,
+                                                      const Math::Real tol,
+                                                      bool* err) const {
+    if (err != nullptr) {
+        *err = false;
+    }
+
+    Math::Int  cell;
+    Math::Real dist;
+    std::vector<Math::Real> pos   = getPos (dir);
+    std::vector<Math::Real> steps = getStep(dir);
+    assert(pos_[dir].size() >= 1);
+    // Checks if it is below the grid.
+    if (Math::Util::lower(x, pos[0], steps[0], tol)) {
+        cell = 0;
+        dist = (x-pos[0])/steps[0];
+        if (err != nullptr) {
+            *err = true;
+        }
+        return std::make_pair(cell, dist);
+    }
+    for(std::size_t i = 0; i < pos.size(); i++) {
+        Math::Real step;
+        if (i == 0) {
+            step = steps.front();
+        } else if (i <= steps.size()) {
+            step = steps[i-1];
+        } else {
+            step = steps.back();
+        }
+        if (Math::Util::equal(x, pos[i], step, tol)) {
+            cell = i;
+            dist = 0.0;
+            if (err != nullptr) {
+                *err = false;
+            }
+            return std::make_pair(cell, dist);
+        } else if (Math::Util::lower(x, pos[i], step, tol)) {
+            cell = i - 1;
+            dist = (x - pos[i-1])/step;
+            if(Math::Util::equal(Math::Util::round(dist),1.0) && approx) {
+                cell++;
+                dist -= 1.0;
+            }
+            if (err != nullptr) {
+                *err = false;
+            }
+            return std::make_pair(cell, dist);
+        }
+    }
+    cell = getNumCells()(dir);
+    dist = (x - pos.back())/steps.back();
+    if (err != nullptr) {
+        *err = true;
+    }
+    return std::make_pair(cell, dist);
+}
+
+template<std::size_t D>
+std::pair<Math::Vector::Cartesian<Math::Int,D>,
+          Math::Vector::Cartesian<Math::Real,D>>
+          Grid<D>::getCellPair(const CVecRD& xyz,
+                               const bool approx,
+                               const Math::Real tol,
+                               bool* err) const {
+    if (err != nullptr) {
+        *err = false;
+    }
+    bool stepErr = false;
+
+    CVecID cell;
+    CVecRD dist;
+    for (std::size_t dir = 0; dir < D; dir++) {
+        std::pair<Math::Int, Math::Real> res =
+            getCellPair(dir,xyz(dir),approx,tol,&stepErr);
+        cell(dir) = res.first;
+        dist(dir) = res.second;
+        if (err != nullptr) {
+            *err = *err || stepErr;
+        }
+    }
+    return std::make_pair(cell, dist);
+}
+
+template<std::size_t D>
+Math::CVecI3Fractional Grid<D>::getCVecI3Fractional (const CVecRD& xyz,
+                                                     bool& isInto) const{
+    Math::CVecI3 ijk   ;
+    Math::CVecR3 length;
+    isInto = true  ;
+    for(std::size_t dir=0; dir<D; ++dir){
+         if(!pos_[dir].empty()){
+            if(xyz(dir) <= pos_[dir].front()){
+                if(Math::Util::equal(pos_[dir].front(),xyz(dir))){
+                    ijk(dir) = 0;
+                    length(dir) = 0.0;
+                }else{
+                    isInto = false;
+                    break;
+                }
+            }else if(pos_[dir].back()<=xyz(dir)) {
+                if(Math::Util::equal(pos_[dir].back(),xyz(dir))){
+                    ijk(dir) = pos_[dir].size()-1;
+                    length(dir) = 0.0;
+                }else{
+                    isInto = false;
+                    break;
+                }
+            }else{
+                long int n = 0;
+                while(pos_[dir][n] <= xyz(dir)){
+                    ++n;
+                }
+                ijk(dir) = n-1;
+                length(dir) = (xyz(dir)-pos_[dir][ijk(dir)])
+                               /getStep(dir,ijk(dir));
+            }
+        }
+    }
+    return Math::CVecI3Fractional (ijk,length);
+}
+
+template<std::size_t D>
+Math::Int Grid<D>::getCell(const std::size_t dir,
+                           const Math::Real x,
+                           const bool approx,
+                           const Math::Real tol,
+                           bool* err) const {
+    return getCellPair(dir, x, approx, tol, err).first;
+}
+
+template<std::size_t D>
+Math::Vector::Cartesian<Math::Int,D> Grid<D>::getCell(const CVecRD &coords,
+        const bool approx,
+        const Math::Real tol,
+        bool* err) const {
+    return getCellPair(coords, approx, tol, err).first;
+}
+
+template<std::size_t D>
+void Grid<D>::applyScalingFactor(const Math::Real factor) {
+    for (std::size_t d = 0; d < D; d++) {
+        for (std::size_t i = 0; i < pos_[d].size(); i++) {
+            pos_[d][i] *= factor;
+        }
+    }
+}
+
+template<std::size_t D>
+void Grid<D>::enlarge(const std::pair<CVecRD, CVecRD>& pad,
+                      const std::pair<CVecRD, CVecRD>& sizes) {
+    for (std::size_t d = 0; d < D; d++) {
+        for (std::size_t b = 0; b < 2; b++) {
+            if (b == Math::Constants::L) {
+                enlargeBound(Math::Constants::CartesianAxis(d),
+                             Math::Constants::CartesianBound(b),
+                             pad.first(d), sizes.first(d));
+            } else {
+                enlargeBound(Math::Constants::CartesianAxis(d),
+                             Math::Constants::CartesianBound(b),
+                             pad.second(d), sizes.second(d));
+            }
+        }
+    }
+}
+
+template<std::size_t D>
+void Grid<D>::enlargeBound(Math::Constants::CartesianAxis d,
+                           Math::Constants::CartesianBound b,
+                           Math::Real pad, Math::Real siz) {
+    assert(getNumCells()(d) > 0);
+    if (std::abs(siz) > std::abs(pad)) {
+        std::cerr << "WARNING @ Grid enlarge bound: "
+                << "std::size_t was larger than padding. Ignoring padding in "
+                << "axis " << d << " and bound " << b << "." << std::endl;
+        return;
+    }
+    if (pad == 0.0) {
+        return;
+    }
+    Math::Int boundCell;
+    if (b == Math::Constants::L) {
+        boundCell = 0;
+    } else {
+        boundCell = this->getNumCells()(d) - 1;
+    }
+    std::vector<Math::Real> newSteps;
+    if (Math::Util::greaterEqual(getStep(d,boundCell), siz) || siz == 0.0) {
+        siz = getStep(d,boundCell);
+        // Computes enlargement for a padding with same size.
+        Math::Real nCellsFrac = std::abs(pad/siz);
+        const Math::Real tol = 0.01;
+        std::size_t nCells = (std::size_t) Math::Util::ceil(nCellsFrac, tol);
+        newSteps.resize(nCells, siz);
+    } else {
+        // Computes enlargement for padding with different size.
+        // Taken from AutoCAD interface programmed in LISP (2001).
+        Math::Real d12 = getStep(d,boundCell);
+        Math::Real d14 = std::abs(pad) + d12 + std::abs(siz);
+        Math::Real d34 = std::abs(siz);
+        Math::Real d13 = d14 - d34;
+        Math::Real t0 = d12;
+        Math::Real r0 = (d14-d12) / (d14-d34);
+        Math::Real r = r0;
+        Math::Int n = Math::Util::ceil(log(d34/d12)/log(r0),
+                                       (Math::Real) 0.01) - 1;
+        if (n > 1) {
+            // Newton method to adjust the sum of available space.
+            Math::Real f = 1;
+            const Math::Real threshold =
+                    std::numeric_limits<Math::Real>::epsilon()*1.0e6;
+            while (std::abs(f) >= threshold) {
+                f = t0 * (1-pow(r,n)) / (1-r) - d13;
+                Math::Real df = t0*(1-pow(r,n))/pow(1-r,2) - 
+                                t0*n*pow(r,n-1)/(1-r);
+                r = r - f / df;
+            }
+            newSteps.resize(n-1);
+            for (Math::Int i = 0; i < n-2; i++) {
+                newSteps[i] = t0 * pow(r,(i+1));
+            }
+            newSteps[n-2] = d34;
+        } else {
+            newSteps.resize(1, d34);
+        }
+    }
+    setAdditionalSteps(d, b, newSteps);
+}
+
+template<std::size_t D>
+void Grid<D>::printInfo() const {
+    CVecID numCells = getNumCells();
+    BoxRD bound = getFullDomainBoundingBox();
+    std::cout << "-- Cartesian Grid<" << D << "> --" << std::endl;
+    std::cout << "Dims: " << numCells.toStr() << std::endl;
+    std::cout << "Min val: " << bound.getMin().toStr() << std::endl;
+    std::cout << "Max val: " << bound.getMax().toStr() << std::endl;
+}
+
+} /* namespace Geometry */
+} /* namespace SEMBA */
-- 
2.43.0


From ad1ef1062f839547479d0648c6deb4514969c847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 11/42] fix: add up repeated powers when a polynomial becomes a
 matrix

---
 src/core/math/function/Polynomial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/function/Polynomial.hpp b/src/core/math/function/Polynomial.hpp
index 6610c6f..16738db 100755
--- a/src/core/math/function/Polynomial.hpp
+++ b/src/core/math/function/Polynomial.hpp
@@ -274,7 +274,7 @@ Matrix::Dynamic<T> Polynomial<T>::polynomialToMatrix() const {
     Matrix::Dynamic<T>  res(maxPower() + 1, 1);
     // Copies monomials to vector positions.
     for (std::size_t i = 0; i < nm_; i++)
-        res(mp_[i][0], 0) = mv_[i];
+        res(mp_[i][0], 0) += mv_[i];
     return res;
 }
 
-- 
2.43.0


From 96b1ae8027deb62b0a64544ed95d85429ea3bea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 12/42] fix: store only complete points when reading an
 interpolation table

---
 src/core/math/function/LinearInterpolation.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/math/function/LinearInterpolation.hpp b/src/core/math/function/LinearInterpolation.hpp
index 7149542..8e60c3a 100755
--- a/src/core/math/function/LinearInterpolation.hpp
+++ b/src/core/math/function/LinearInterpolation.hpp
@@ -112,9 +112,8 @@ void LinearInterpolation<S, T>::initFromFile(
                                      std::string(" does not exist"));
     }
 
-    while (!iStream.eof()) {
-        std::pair<Real, Real> value;
-        iStream >> value.first >> value.second;
+    std::pair<Real, Real> value;
+    while (iStream >> value.first >> value.second) {
         value_.insert(value);
     }
 
-- 
2.43.0


From 5b736685b21c0a1163bb3a23795eceb59888443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 13/42] fix: remove consecutive vanishing monomials of a
 polynomial

---
 src/core/math/function/Polynomial.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/math/function/Polynomial.hpp b/src/core/math/function/Polynomial.hpp
index 16738db..7c6f4db 100755
--- a/src/core/math/function/Polynomial.hpp
+++ b/src/core/math/function/Polynomial.hpp
@@ -149,11 +149,13 @@ void Polynomial<T>::derive(std::size_t coord) {
 
 template<class T>
 void Polynomial<T>::removeZeros() {
-    for (std::size_t i = 0; i < nm_; i++)
+    for (std::size_t i = 0; i < nm_;)
         if (mv_[i] == 0) {
             nm_--;
             mv_.erase(mv_.begin() + i);
             mp_.erase(mp_.begin() + i);
+        } else {
+            i++;
         }
 }
 
-- 
2.43.0


From 8dee55c1f3f52df7880177f210cfff8b0f3bf0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 14/42] fix: keep the given coordinates in every conformal line

---
 src/core/geometry/element/LineConformal.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/geometry/element/LineConformal.cpp b/src/core/geometry/element/LineConformal.cpp
index 25dff46..5e713c5 100755
--- a/src/core/geometry/element/LineConformal.cpp
+++ b/src/core/geometry/element/LineConformal.cpp
@@ -26,7 +26,7 @@ namespace Geometry {
 namespace Element {
 
 LineConformal::LineConformal() {
-    checkCoordinates();
+
 }
 
 LineConformal::LineConformal(const Id id,
@@ -47,7 +47,8 @@ LineConformal::LineConformal(const CoordI3* v[2],
                              const Math::CVecR3& norm,
                              const Layer* lay,
                              const Model* mat)
-:   Elem(lay, mat) {
+:   Elem(lay, mat),
+    LinI2(v) {
     checkCoordinates();
     norm_  = norm;
 }
@@ -85,8 +86,9 @@ void LineConformal::printInfo() const {
 
 void LineConformal::checkCoordinates() {
     for(std::size_t i = 0; i < this->numberOfCoordinates(); i++) {
-        if (!this->getV(i)->is<CoordConf>()) {
-            throw Error::Coord::NotConf(this->getV(i)->getId());
+        const CoordI3* coord = LinI2::getV(i);
+        if (!coord->is<CoordConf>()) {
+            throw Error::Coord::NotConf(coord->getId());
         }
     }
 }
-- 
2.43.0


From 30369ebe7f700ec916022f43c2c452f64b1210e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 15/42] fix: compare vertices lexicographically when looking
 for the extreme ones

---
 src/core/geometry/element/Element.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/geometry/element/Element.hpp b/src/core/geometry/element/Element.hpp
index d9347e1..f364cdb 100755
--- a/src/core/geometry/element/Element.hpp
+++ b/src/core/geometry/element/Element.hpp
@@ -99,6 +99,9 @@ const Coordinate::Coordinate<T,3>* Element<T>::getMinV() const {
                 res = getVertex(i);
                 break;
             }
+            if(Math::Util::greater(val1, val2, res->pos().norm())) {
+                break;
+            }
         }
     }
     return res;
@@ -119,6 +122,9 @@ const Coordinate::Coordinate<T,3>* Element<T>::getMaxV() const {
                 res = getVertex(i);
                 break;
             }
+            if(Math::Util::lower(val1, val2, res->pos().norm())) {
+                break;
+            }
         }
     }
     return res;
-- 
2.43.0


From 30f1c1ab4185a6f1b06d91d0f17c4d57ceafe85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 16/42] fix: use the size of the given face of an element

---
 src/core/geometry/element/Element.hpp | 8 ++++----
 src/core/geometry/element/Volume.hpp  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/geometry/element/Element.hpp b/src/core/geometry/element/Element.hpp
index f364cdb..f0dd157 100755
--- a/src/core/geometry/element/Element.hpp
+++ b/src/core/geometry/element/Element.hpp
@@ -154,8 +154,8 @@ template<class T>
 std::vector<const Coordinate::Coordinate<T,3>*> Element<T>::getSideCoordinates(
         const std::size_t face) const {
     std::vector<const Coordinate::Coordinate<T,3>*>
-        res(numberOfSideCoordinates());
-    for (std::size_t i = 0; i < numberOfSideCoordinates(); i++) {
+        res(numberOfSideCoordinates(face));
+    for (std::size_t i = 0; i < numberOfSideCoordinates(face); i++) {
         res[i] = getSideV(face,i);
     }
     return res;
@@ -165,8 +165,8 @@ template<class T>
 std::vector<const Coordinate::Coordinate<T,3>*> Element<T>::getSideVertices(
         const std::size_t face) const {
     std::vector<const Coordinate::Coordinate<T, 3>*> res;
-    res.resize(numberOfSideVertices());
-    for (std::size_t i = 0; i < numberOfSideVertices(); i++) {
+    res.resize(numberOfSideVertices(face));
+    for (std::size_t i = 0; i < numberOfSideVertices(face); i++) {
         res[i] = getSideVertex(face,i);
     }
     return res;
diff --git a/src/core/geometry/element/Volume.hpp b/src/core/geometry/element/Volume.hpp
index a0578dc..03dfa40 100755
--- a/src/core/geometry/element/Volume.hpp
+++ b/src/core/geometry/element/Volume.hpp
@@ -63,7 +63,7 @@ Math::Vector::Cartesian<T,3> Volume<T>::getSideNormal(
 template<class T>
 Box<T,3> Volume<T>::getBoundOfFace(const std::size_t face) const {
     Box<T,3> res;
-   for (std::size_t i = 0; i < this->numberOfSideCoordinates(); i++) {
+   for (std::size_t i = 0; i < this->numberOfSideCoordinates(face); i++) {
       res << this->getSideV(face,i)->pos();
    }
    return res;
-- 
2.43.0


From 3dd4d90ce4f20bb5f7db8aca89a6dbb91f2a6965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 17/42] fix: return the node at the given end of a line

---
 src/core/geometry/element/Line2.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/element/Line2.hpp b/src/core/geometry/element/Line2.hpp
index 13d7bd9..7325e8c 100755
--- a/src/core/geometry/element/Line2.hpp
+++ b/src/core/geometry/element/Line2.hpp
@@ -118,7 +118,7 @@ template<class T>
 const Coordinate::Coordinate<T,3>* Line2<T>::getSideV(
         const std::size_t f,
         const std::size_t i) const {
-    return v_[i];
+    return v_[f];
 }
 
 template<class T>
@@ -131,7 +131,7 @@ template<class T>
 const Coordinate::Coordinate<T,3>* Line2<T>::getSideVertex(
         const std::size_t f,
         const std::size_t i) const {
-    return v_[i];
+    return v_[f];
 }
 
 template<class T>
-- 
2.43.0


From 5f192011e9946d0f47d4bb10e55ac487abb9fd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 18/42] fix: tell regular hexahedra from skewed ones

---
 src/core/geometry/element/Hexahedron8.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/core/geometry/element/Hexahedron8.hpp b/src/core/geometry/element/Hexahedron8.hpp
index e8ec60f..59d202d 100755
--- a/src/core/geometry/element/Hexahedron8.hpp
+++ b/src/core/geometry/element/Hexahedron8.hpp
@@ -101,19 +101,20 @@ bool Hexahedron8<T>::isStructured(const Grid3& grid,
 template<class T>
 bool Hexahedron8<T>::isRegular() const {
     // Checks that all edges are aligned with one of the axis.
-    static const Math::Vector::Cartesian<T,3> xAxe(1.0, 0.0, 0.0);
-    static const Math::Vector::Cartesian<T,3> yAxe(0.0, 1.0, 0.0);
-    static const Math::Vector::Cartesian<T,3> zAxe(1.0, 0.0, 1.0);
+    static const Math::CVecR3 xAxe(1.0, 0.0, 0.0);
+    static const Math::CVecR3 yAxe(0.0, 1.0, 0.0);
+    static const Math::CVecR3 zAxe(0.0, 0.0, 1.0);
     for (std::size_t f = 0; f < numberOfFaces(); f++) {
         Math::Vector::Cartesian<T,3> first, second;
-        Math::Vector::Cartesian<T,3> inc;
+        Math::CVecR3 inc;
         for (std::size_t i = 0; i < numberOfSideVertices(); i++) {
             first = *getSideV(f, i);
             second = *getSideV(f, (i+1) % numberOfSideVertices());
-            inc = (second - first).normalize();
-            if (!((std::abs(inc.dot(xAxe))-1.0) <= tolerance ||
-            (std::abs(inc.dot(yAxe))-1.0) <= tolerance ||
-            (std::abs(inc.dot(zAxe))-1.0) <= tolerance)) {
+            inc = second - first;
+            inc.normalize();
+            if (!(std::abs(std::abs(inc.dot(xAxe))-1.0) <= tolerance ||
+            std::abs(std::abs(inc.dot(yAxe))-1.0) <= tolerance ||
+            std::abs(std::abs(inc.dot(zAxe))-1.0) <= tolerance)) {
 
                 return false;
             }
-- 
2.43.0


From 62143312f87d8a79d09a01cf7af8647a9635c863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 19/42] fix: add up both halves of the face of a hexahedron

---
 src/core/geometry/element/Hexahedron8.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/element/Hexahedron8.hpp b/src/core/geometry/element/Hexahedron8.hpp
index 59d202d..1c1da06 100755
--- a/src/core/geometry/element/Hexahedron8.hpp
+++ b/src/core/geometry/element/Hexahedron8.hpp
@@ -162,8 +162,8 @@ const std::size_t i) const {
 template<class T>
 Math::Real Hexahedron8<T>::getAreaOfFace(const std::size_t f) const {
     Math::Vector::Cartesian<T,3> v1, v2;
-    v1 = getSideV(f,1)->pos() - getSideV(f,0)->pos();
-    v2 = getSideV(f,2)->pos() - getSideV(f,0)->pos();
+    v1 = getSideV(f,2)->pos() - getSideV(f,0)->pos();
+    v2 = getSideV(f,3)->pos() - getSideV(f,1)->pos();
     return ((Math::Real) 0.5 * (v1 ^ v2).norm());
 }
 
-- 
2.43.0


From 780bcceebdfcd7e3ec9adb902578f28b474e9283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 20/42] fix: return the second end of the side of a triangle as
 its vertex

---
 src/core/math/simplex/Triangle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/simplex/Triangle.hpp b/src/core/math/simplex/Triangle.hpp
index 68d7b4d..4674c83 100755
--- a/src/core/math/simplex/Triangle.hpp
+++ b/src/core/math/simplex/Triangle.hpp
@@ -105,7 +105,7 @@ inline std::size_t Triangle<N>::vertex(std::size_t i) const {
 template<size_t N>
 inline std::size_t Triangle<N>::sideVertex(const std::size_t f,
                                                    const std::size_t i) const {
-    return sideNode(f,i);
+    return sideNode(f,i*N);
 }
 
 template <size_t N>
-- 
2.43.0


From a147116a71fde97a05f9e8bbf81a122bea820d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 21/42] fix: report as open a polyhedron with an odd number of
 sides

---
 src/core/geometry/element/Polyhedron.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/geometry/element/Polyhedron.cpp b/src/core/geometry/element/Polyhedron.cpp
index f7f5ba9..a1556ad 100755
--- a/src/core/geometry/element/Polyhedron.cpp
+++ b/src/core/geometry/element/Polyhedron.cpp
@@ -160,7 +160,8 @@ void Polyhedron::checkClosedness() const {
     }
     list.sortRows(0,1);
     for (std::size_t i = 0; i < nSidesInFaces; i += 2) {
-        if (list(i,0) != list(i+1,0) || list(i,1) != list(i+1,1)) {
+        if (i + 1 == nSidesInFaces ||
+            list(i,0) != list(i+1,0) || list(i,1) != list(i+1,1)) {
             throw Error::NotClosed();
         }
     }
-- 
2.43.0


From e35a1fb7e42c05123fcd2253a5746946630251c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 22/42] fix: name the volume and the surface in their order
 when a face is not found

---
 src/core/geometry/element/Volume.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geometry/element/Volume.hpp b/src/core/geometry/element/Volume.hpp
index 03dfa40..e4f1f71 100755
--- a/src/core/geometry/element/Volume.hpp
+++ b/src/core/geometry/element/Volume.hpp
@@ -85,7 +85,7 @@ std::size_t Volume<T>::getFaceNumber(const Surface<T>* surf) const {
             }
         }
     }
-    throw Error::SurfNotFound(surf->getId(), this->getId());
+    throw Error::SurfNotFound(this->getId(), surf->getId());
 }
 
 } /* namespace Element */
-- 
2.43.0


From 7cc60845f649b7c4b965b2a6fd313fea04a19b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 23/42] fix: release the face of a tetrahedron after using it

---
 src/core/geometry/element/Tetrahedron4.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/geometry/element/Tetrahedron4.cpp b/src/core/geometry/element/Tetrahedron4.cpp
index 2974111..c1090c8 100755
--- a/src/core/geometry/element/Tetrahedron4.cpp
+++ b/src/core/geometry/element/Tetrahedron4.cpp
@@ -21,6 +21,8 @@
 
 #include "Tetrahedron4.h"
 
+#include <memory>
+
 namespace SEMBA {
 namespace Geometry {
 namespace Element {
@@ -103,7 +105,8 @@ bool Tetrahedron4::isCurvedFace(const std::size_t face) const {
 bool Tetrahedron4::isFaceContainedInPlane(
         const std::size_t face,
         const Math::Constants::CartesianPlane plane) const {
-    return getTri3Face(face)->isContainedInPlane(plane);
+    std::unique_ptr<const Triangle3> tri(getTri3Face(face));
+    return tri->isContainedInPlane(plane);
 }
 
 const CoordR3* Tetrahedron4::getSideV(const std::size_t f,
-- 
2.43.0


From 374040e4a1ccd544bb2dd0f541cd11025f72da19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 24/42] fix: tell elements with different numbers of
 coordinates apart

---
 src/core/geometry/element/Element.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/geometry/element/Element.hpp b/src/core/geometry/element/Element.hpp
index f0dd157..401b48f 100755
--- a/src/core/geometry/element/Element.hpp
+++ b/src/core/geometry/element/Element.hpp
@@ -43,6 +43,9 @@ bool Element<T>::operator==(const Base& rhs) const {
         return false;
     }
     const Element<T>* rhsPtr = rhs.castTo<Element<T>>();
+    if (this->numberOfCoordinates() != rhsPtr->numberOfCoordinates()) {
+        return false;
+    }
     bool res = true;
     res &= (this->getId() == rhsPtr->getId());
     for (std::size_t i = 0; i < this->numberOfCoordinates(); i++) {
-- 
2.43.0


From 81a115c879147e84cecce77c632e858afbac4e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:15 +0000
Subject: [PATCH 25/42] fix: do not take a skewed quadrilateral for a rectangle

---
 src/core/geometry/element/Surface.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geometry/element/Surface.hpp b/src/core/geometry/element/Surface.hpp
index 8ec523b..8ea7bee 100755
--- a/src/core/geometry/element/Surface.hpp
+++ b/src/core/geometry/element/Surface.hpp
@@ -48,7 +48,7 @@ bool Surface<T>::isRectangular() const {
         Math::Vector::Cartesian<T,3> p2 = 
             this->getSideVertex((f+1)%4,1)->pos();
         Math::Real sProd = (Math::Real)(p2-p1).dot(p1 - p0);
-        if (Math::Util::greater(sProd, 0.0, 1.0)) {
+        if (Math::Util::notEqual(sProd, 0.0, 1.0)) {
             return false;
         }
     }
-- 
2.43.0


From 43ed0f01b524b4a65bcdbd0de14609bd86cc4c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:35 +0000
Subject: [PATCH 26/42] fix: keep the conductivity of a dispersive material
 besides its poles

---
 src/core/physicalModel/volume/Dispersive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/physicalModel/volume/Dispersive.cpp b/src/core/physicalModel/volume/Dispersive.cpp
index 4e1973c..0246cf0 100755
--- a/src/core/physicalModel/volume/Dispersive.cpp
+++ b/src/core/physicalModel/volume/Dispersive.cpp
@@ -36,6 +36,7 @@ Dispersive::Dispersive(const Id id,
     PhysicalModel(name) {
     rEpsInfty_ = rEps;
     rMuInfty_ = rMu;
+    poleResidue_ = poleResidue;
     // Adds conductivity as a permittivity pole.
     if (elecCond != 0.0) {
         std::complex<Math::Real> pole(0.0);
@@ -47,7 +48,6 @@ Dispersive::Dispersive(const Id id,
     if (magnCond != 0.0) {
         throw std::logic_error("Dispersive magnetic materials not implemented");
     }
-    poleResidue_ = poleResidue;
 }
 
 Dispersive::Dispersive(const Id id,
-- 
2.43.0


From 2b53124d454e16befabe344a6e3659e365d61aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:35 +0000
Subject: [PATCH 27/42] fix: do not read the first pole of a material without
 poles

---
 src/core/physicalModel/volume/Dispersive.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/physicalModel/volume/Dispersive.cpp b/src/core/physicalModel/volume/Dispersive.cpp
index 0246cf0..3c9b4ed 100755
--- a/src/core/physicalModel/volume/Dispersive.cpp
+++ b/src/core/physicalModel/volume/Dispersive.cpp
@@ -104,7 +104,8 @@ bool Dispersive::isSimplyConductive() const {
     if (!file_.empty()) {
         return false;
     }
-    return (poleResidue_.size() <= 1 && std::abs(getPole(0)) == 0);
+    return poleResidue_.empty() ||
+           (poleResidue_.size() == 1 && std::abs(getPole(0)) == 0);
 }
 
 Math::Real Dispersive::getElectricConductivity() const {
-- 
2.43.0


From f5cd98590daa50d738ad257c555b24f42b5313b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:35 +0000
Subject: [PATCH 28/42] fix: center the current weights of a coaxial port at
 its origin

---
 src/core/source/port/TEMCoaxial.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/source/port/TEMCoaxial.cpp b/src/core/source/port/TEMCoaxial.cpp
index 4d3c5d8..f1d19b5 100755
--- a/src/core/source/port/TEMCoaxial.cpp
+++ b/src/core/source/port/TEMCoaxial.cpp
@@ -74,7 +74,8 @@ Math::CVecR3 TEMCoaxial::getWeight(
     }
     case ExcitationMode::current:
     {
-        const Math::CVecR3 phiHat = (Math::CVecR3(0,0,1) ^ pos).normalize();
+        const Math::CVecR3 phiHat =
+                (Math::CVecR3(0,0,1) ^ (pos - getOrigin())).normalize();
         return phiHat / (2.0 * Math::Constants::pi * rho);
     }
     default:
-- 
2.43.0


From d14abf9bbc63016e2a3c4778292aafebd26b00b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:35 +0000
Subject: [PATCH 29/42] fix: excite the waveguide modes with the right field
 components

---
 src/core/source/port/WaveguideRectangular.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/source/port/WaveguideRectangular.cpp b/src/core/source/port/WaveguideRectangular.cpp
index 9f6b991..b343e94 100755
--- a/src/core/source/port/WaveguideRectangular.cpp
+++ b/src/core/source/port/WaveguideRectangular.cpp
@@ -72,7 +72,7 @@ Math::CVecR3 WaveguideRectangular::getWeight(
     }
     //const Math::Real betaC = sqrt(pow(m,2) + pow(n,2));
     if (getExcitationMode() == Waveguide::TE) {
-        res(Math::Constants::x) =   n * cos(m * rPos(Math::Constants::x)) *
+        res(Math::Constants::x) = - n * cos(m * rPos(Math::Constants::x)) *
                                         sin(n * rPos(Math::Constants::y)) /
                                         normFactor;
         res(Math::Constants::y) =   m * sin(m * rPos(Math::Constants::x)) *
@@ -83,7 +83,7 @@ Math::CVecR3 WaveguideRectangular::getWeight(
         res(Math::Constants::x) = - m * cos(m * rPos(Math::Constants::x)) *
                                         sin(n * rPos(Math::Constants::y)) /
                                         normFactor;
-        res(Math::Constants::y) = - m * sin(m * rPos(Math::Constants::x)) *
+        res(Math::Constants::y) = - n * sin(m * rPos(Math::Constants::x)) *
                                         cos(n * rPos(Math::Constants::y)) /
                                         normFactor;
         res(Math::Constants::z) = (Math::Real) 0.0;
-- 
2.43.0


From c66e1cb6b59904d5eecc5b9f0fffade45f9e7415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:35 +0000
Subject: [PATCH 30/42] fix: describe the hardness of a source by its hardness

---
 src/core/source/OnLine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/source/OnLine.cpp b/src/core/source/OnLine.cpp
index 1fb47d0..902745c 100755
--- a/src/core/source/OnLine.cpp
+++ b/src/core/source/OnLine.cpp
@@ -77,7 +77,7 @@ std::string OnLine::getTypeStr() const {
 }
 
 std::string OnLine::getHardnessStr() const {
-    switch (type_) {
+    switch (hardness_) {
     case hard:
         return "Hard";
     default:
-- 
2.43.0


From e2dce0030ec0155b42c05f30cd4cb3b7617f8758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 31/42] fix: copy and assign undefined magnitudes, and release
 the replaced function

---
 src/core/source/magnitude/Magnitude.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/core/source/magnitude/Magnitude.cpp b/src/core/source/magnitude/Magnitude.cpp
index 4f3b63c..edccf3a 100755
--- a/src/core/source/magnitude/Magnitude.cpp
+++ b/src/core/source/magnitude/Magnitude.cpp
@@ -34,8 +34,11 @@ Magnitude::Magnitude(Math::FunctionRR* mathFunction) {
 }
 
 Magnitude::Magnitude(const Magnitude& rhs) {
-    mathFunction_ =
-        dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    mathFunction_ = nullptr;
+    if (rhs.mathFunction_ != nullptr) {
+        mathFunction_ =
+            dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    }
 }
 
 Magnitude::~Magnitude() {
@@ -48,8 +51,12 @@ Magnitude& Magnitude::operator=(const Magnitude& rhs) {
     if (this == &rhs) {
         return *this;
     }
-    mathFunction_ =
-        dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    delete mathFunction_;
+    mathFunction_ = nullptr;
+    if (rhs.mathFunction_ != nullptr) {
+        mathFunction_ =
+            dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    }
     return *this;
 }
 
-- 
2.43.0


From b71f3541e2cd2268b4e852df54f555d1d189c323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 32/42] fix: set an extreme of a wire to itself

---
 src/core/physicalModel/wire/Extremes.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/physicalModel/wire/Extremes.cpp b/src/core/physicalModel/wire/Extremes.cpp
index ab96df8..0a95d1b 100755
--- a/src/core/physicalModel/wire/Extremes.cpp
+++ b/src/core/physicalModel/wire/Extremes.cpp
@@ -65,13 +65,12 @@ Extremes::~Extremes() {
 
 void Extremes::setExtreme(const std::size_t i,
                           const Multiport::Multiport* extreme) {
-    if (extreme_[i] != nullptr) {
-        delete extreme_[i];
-    }
+    const Multiport::Multiport* previous = extreme_[i];
     extreme_[i] = nullptr;
     if (extreme != nullptr) {
         extreme_[i] = extreme->cloneTo<Multiport::Multiport>();
     }
+    delete previous;
 }
 
 void Extremes::swapExtremes() {
-- 
2.43.0


From 07c26d4300c29a27db45c890c2fde0f1f4684485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 33/42] fix: find the vertex closest to a point

---
 src/core/geometry/element/Group.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/geometry/element/Group.hpp b/src/core/geometry/element/Group.hpp
index 8245c67..95165a1 100755
--- a/src/core/geometry/element/Group.hpp
+++ b/src/core/geometry/element/Group.hpp
@@ -219,11 +219,11 @@ const CoordR3* Group<E>::getClosestVertex(const Math::CVecR3 pos) const {
     Math::Real minDist = std::numeric_limits<Math::Real>::infinity();
     Group<const ElemR> elems = this->template getOf<ElemR>();
     for (std::size_t b = 0; b < elems.size(); b++) {
-        for (std::size_t i = 0; i < elems(i)->numberOfCoordinates(); i++) {
-            const CoordR3* candidate = elems(i)->getV(i);
-            if ((candidate->pos() - res->pos()).norm() < minDist) {
+        for (std::size_t i = 0; i < elems(b)->numberOfCoordinates(); i++) {
+            const CoordR3* candidate = elems(b)->getV(i);
+            if ((candidate->pos() - pos).norm() < minDist) {
                 res = candidate;
-                minDist = (candidate->pos() - res->pos()).norm();
+                minDist = (candidate->pos() - pos).norm();
             }
         }
     }
-- 
2.43.0


From 9836e2c827c292a20bbbe8aff26e4227fc373da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 34/42] fix: count once an element that has a coordinate twice

---
 src/core/geometry/element/Group.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/geometry/element/Group.hpp b/src/core/geometry/element/Group.hpp
index 95165a1..31a35aa 100755
--- a/src/core/geometry/element/Group.hpp
+++ b/src/core/geometry/element/Group.hpp
@@ -66,6 +66,7 @@ Group<const E> Group<E>::getCoordId(const CoordId id) const {
 		for (size_t j = 0; j < elem->numberOfCoordinates(); j++) {
 			if (elem->getV(j)->getId() == id) {
 				res.add(elem);
+				break;
 			}
 		}
 	}
-- 
2.43.0


From cbe81a1103cf3c16075260381731cda60af4b3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 35/42] fix: give the elements of a converted mesh the layers
 of that mesh

---
 src/core/geometry/mesh/Structured.cpp   | 1 +
 src/core/geometry/mesh/Unstructured.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/core/geometry/mesh/Structured.cpp b/src/core/geometry/mesh/Structured.cpp
index d7f5185..ad387eb 100755
--- a/src/core/geometry/mesh/Structured.cpp
+++ b/src/core/geometry/mesh/Structured.cpp
@@ -106,6 +106,7 @@ Unstructured* Structured::getMeshUnstructured() const {
     }
     res->elems().add(newElems);
     res->layers() = layers().cloneElems();
+    res->elems().reassignPointers(res->layers());
     return res;
 }
 
diff --git a/src/core/geometry/mesh/Unstructured.cpp b/src/core/geometry/mesh/Unstructured.cpp
index 6f55741..6b3d1e1 100755
--- a/src/core/geometry/mesh/Unstructured.cpp
+++ b/src/core/geometry/mesh/Unstructured.cpp
@@ -95,6 +95,7 @@ Structured* Unstructured::getMeshStructured(const Grid3& grid,
     }
     res->elems().add(newElems);
     res->layers() = layers().cloneElems();
+    res->elems().reassignPointers(res->layers());
     return res;
 }
 
-- 
2.43.0


From 3f6bcd04237f6e0f75a749843a006a5fec485099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 36/42] fix: index the coordinates by their position after
 scaling them

---
 src/core/geometry/coordinate/Group.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/geometry/coordinate/Group.hpp b/src/core/geometry/coordinate/Group.hpp
index c017603..933e262 100755
--- a/src/core/geometry/coordinate/Group.hpp
+++ b/src/core/geometry/coordinate/Group.hpp
@@ -265,6 +265,9 @@ void Group<C>::applyScalingFactor(const Math::Real factor) {
             *ptr *= factor;
         }
     }
+    indexUnstr_.clear();
+    indexStr_.clear();
+    postprocess_(0);
 }
 
 template<typename C>
-- 
2.43.0


From 08e4a0729fafcbbc6336d5d63212320fe6bf6cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:59 +0000
Subject: [PATCH 37/42] fix: write each data set of a VTK collection to a file
 of its own

---
 src/exporter/vtk/Exporter.cpp | 10 ++++++++--
 src/exporter/vtk/Exporter.h   |  3 +++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/exporter/vtk/Exporter.cpp b/src/exporter/vtk/Exporter.cpp
index d39d262..8e0027c 100755
--- a/src/exporter/vtk/Exporter.cpp
+++ b/src/exporter/vtk/Exporter.cpp
@@ -162,14 +162,20 @@ void Exporter::writeFile_(const Group::Group<const Geometry::ElemR>& elems,
     if (elems.empty()) {
         return;
     }
+    // Different sets may have the same name (e.g. boundaries or sources).
+    std::string file = name;
+    for (std::size_t i = 1; fileNames_.count(file) != 0; i++) {
+        file = name + "_" + std::to_string(i);
+    }
+    fileNames_.insert(file);
     outMain << "    " << "<DataSet "
             << "group=\"" << name << "\" "
             << "part=\"" << part++ << "\" "
             << "file=\""
-            << getBasename() + ".vtk" + Separator + name + ".vtu" << "\" "
+            << getBasename() + ".vtk" + Separator + file + ".vtu" << "\" "
             << "/>" << std::endl;
 
-    std::string filename = getFilename() + ".vtk" + Separator + name + ".vtu";
+    std::string filename = getFilename() + ".vtk" + Separator + file + ".vtu";
     std::ofstream outFile(filename.c_str());
     outFile << "<VTKFile "
             << "type=\"UnstructuredGrid\" "
diff --git a/src/exporter/vtk/Exporter.h b/src/exporter/vtk/Exporter.h
index cbc6f77..8eb20ec 100755
--- a/src/exporter/vtk/Exporter.h
+++ b/src/exporter/vtk/Exporter.h
@@ -25,6 +25,7 @@
 #include <fstream>
 #include <utility>
 #include <algorithm>
+#include <set>
 
 #include "exporter/Exporter.h"
 #include "Data.h"
@@ -61,6 +62,8 @@ private:
         VTK_QUADRATIC_TETRA      = 24,
         VTK_QUADRATIC_HEXAHEDRON = 25
     };
+    std::set<std::string> fileNames_;
+
     void writeMesh_(const Data* smb);
     void writeFile_(const Group::Group<const Geometry::ElemR>& elems,
                     const std::string& name,
-- 
2.43.0


From fbe0ae830e655fb4a7ec4cfe7524e7761fcc5743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:59 +0000
Subject: [PATCH 38/42] fix: do not scale the mesh of the problem when it is
 exported to GiD

---
 src/exporter/gid/Exporter.cpp | 20 +++++++++++++-------
 src/exporter/gid/Exporter.h   |  2 +-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/exporter/gid/Exporter.cpp b/src/exporter/gid/Exporter.cpp
index 995e699..b3d0172 100755
--- a/src/exporter/gid/Exporter.cpp
+++ b/src/exporter/gid/Exporter.cpp
@@ -68,12 +68,18 @@ void Exporter::init_(
         throw std::logic_error("Invalid GiD exporting mode.");
     }
 
-    Math::Real scalingFactor =
-        smb->solver->getSettings()("geometryScalingFactor").getReal();
-    if (scalingFactor != 0.0) {
-        smb->mesh->applyScalingFactor(1.0 / scalingFactor);
+    // The mesh of the problem has to remain as it is, a copy is scaled.
+    Geometry::Mesh::Mesh* mesh =
+        smb->mesh->cloneTo<Geometry::Mesh::Mesh>();
+    if (smb->solver != nullptr) {
+        Math::Real scalingFactor =
+            smb->solver->getSettings()("geometryScalingFactor").getReal();
+        if (scalingFactor != 0.0) {
+            mesh->applyScalingFactor(1.0 / scalingFactor);
+        }
     }
-    writeMesh_(smb);
+    writeMesh_(smb, mesh);
+    delete mesh;
 }
 
 Exporter::Exporter(
@@ -110,8 +116,8 @@ void Exporter::writeAllElements_(
     writeElements_(elem.getOf<Geometry::HexR8>(), name, GiD_Hexahedra, 8);
 }
 
-void Exporter::writeMesh_(const Data* smb) {
-    const Geometry::Mesh::Mesh* inMesh = smb->mesh;
+void Exporter::writeMesh_(const Data* smb,
+                          const Geometry::Mesh::Mesh* inMesh) {
     const PhysicalModel::Group<>* mat = smb->physicalModels;
     const Source::Group<>* srcs = smb->sources;
     const OutputRequest::Group<>* oRqs = smb->outputRequests;
diff --git a/src/exporter/gid/Exporter.h b/src/exporter/gid/Exporter.h
index 2414a3b..2295dbb 100755
--- a/src/exporter/gid/Exporter.h
+++ b/src/exporter/gid/Exporter.h
@@ -69,7 +69,7 @@ private:
     GiD_PostMode mode_;
 
     void init_(const Data* smb, GiD_PostMode mode, const std::string& fn);
-    void writeMesh_(const Data* smb);
+    void writeMesh_(const Data* smb, const Geometry::Mesh::Mesh* inMesh);
     void writeElements_(
             const Group::Group<const Geometry::ElemR>& entities,
             const std::string& name,
-- 
2.43.0


From 6067c725b1bc5a8dd024545d4ec99aa51642eaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:34 +0000
Subject: [PATCH 39/42] fix: give the snap option of the mesher a default

---
 src/mesher/Options.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesher/Options.cpp b/src/mesher/Options.cpp
index aec0797..62a7e04 100755
--- a/src/mesher/Options.cpp
+++ b/src/mesher/Options.cpp
@@ -41,6 +41,7 @@ Options::Options() {
     postsmbExport_ = false;
     vtkExport_ = false;
     contourRefinement_ = false;
+    snap_ = false;
     unwantedConnectionsInfo_ = false;
     structuredCellsInfo_ = false;
     slanted_ = false;
-- 
2.43.0


From c62b79a4eeafd8b13132082aa79e6ef2120d9cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:44 +0000
Subject: [PATCH 40/42] fix: keep the settings behind an erased one under their
 names

---
 src/core/argument/Object.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/argument/Object.h b/src/core/argument/Object.h
index 0706994..dc94da6 100755
--- a/src/core/argument/Object.h
+++ b/src/core/argument/Object.h
@@ -212,9 +212,14 @@ public:
     }
     Object& eraseMember(const std::string& name) {
         if (existsName(name)) {
-            objMembers_ .erase(objMembers_.begin() + nameMembers_.at(name));
-            objName_    .erase(objName_   .begin() + nameMembers_.at(name));
+            // The name may be the one in objName_, which is erased last.
+            const std::size_t pos = nameMembers_.at(name);
+            objMembers_ .erase(objMembers_.begin() + pos);
             nameMembers_.erase(name);
+            objName_    .erase(objName_   .begin() + pos);
+            for (std::size_t i = pos; i < objName_.size(); i++) {
+                nameMembers_[objName_[i]] = i;
+            }
         }
         return *this;
     }
-- 
2.43.0


From fd4559265f1b828d91ab4d670b8e44f810b063de Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:46:40 +0000
Subject: [PATCH 41/42] fix: start elements made without vertices with none

---
 src/core/geometry/element/Line2.hpp          | 3 ++-
 src/core/geometry/element/Node.hpp           | 3 ++-
 src/core/geometry/element/Quadrilateral4.hpp | 3 ++-
 src/core/geometry/element/Tetrahedron10.cpp  | 3 ++-
 src/core/geometry/element/Tetrahedron4.cpp   | 3 ++-
 src/core/geometry/element/Triangle3.cpp      | 3 ++-
 src/core/geometry/element/Triangle6.cpp      | 3 ++-
 7 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/core/geometry/element/Line2.hpp b/src/core/geometry/element/Line2.hpp
index 7325e8c..4c41c61 100755
--- a/src/core/geometry/element/Line2.hpp
+++ b/src/core/geometry/element/Line2.hpp
@@ -29,7 +29,8 @@ template<class T>
 const Math::Simplex::Line<1> Line2<T>::lin;
 
 template<class T>
-Line2<T>::Line2() {
+Line2<T>::Line2()
+:   v_() {
 
 }
 
diff --git a/src/core/geometry/element/Node.hpp b/src/core/geometry/element/Node.hpp
index 547a567..7feec49 100755
--- a/src/core/geometry/element/Node.hpp
+++ b/src/core/geometry/element/Node.hpp
@@ -26,7 +26,8 @@ namespace Geometry {
 namespace Element {
 
 template<class T>
-Node<T>::Node() {
+Node<T>::Node()
+:   v_() {
 
 }
 
diff --git a/src/core/geometry/element/Quadrilateral4.hpp b/src/core/geometry/element/Quadrilateral4.hpp
index b601c4f..5a98f37 100755
--- a/src/core/geometry/element/Quadrilateral4.hpp
+++ b/src/core/geometry/element/Quadrilateral4.hpp
@@ -26,7 +26,8 @@ namespace Geometry {
 namespace Element {
 
 template<class T>
-Quadrilateral4<T>::Quadrilateral4() {
+Quadrilateral4<T>::Quadrilateral4()
+:   v_() {
 
 }
 
diff --git a/src/core/geometry/element/Tetrahedron10.cpp b/src/core/geometry/element/Tetrahedron10.cpp
index 6592420..9224d09 100755
--- a/src/core/geometry/element/Tetrahedron10.cpp
+++ b/src/core/geometry/element/Tetrahedron10.cpp
@@ -28,7 +28,8 @@ namespace Element {
 const Math::Simplex::Triangle<2>    Tetrahedron10::tri;
 const Math::Simplex::Tetrahedron<2> Tetrahedron10::tet;
 
-Tetrahedron10::Tetrahedron10() {
+Tetrahedron10::Tetrahedron10()
+:   v_() {
 
 }
 
diff --git a/src/core/geometry/element/Tetrahedron4.cpp b/src/core/geometry/element/Tetrahedron4.cpp
index c1090c8..c95e817 100755
--- a/src/core/geometry/element/Tetrahedron4.cpp
+++ b/src/core/geometry/element/Tetrahedron4.cpp
@@ -29,7 +29,8 @@ namespace Element {
 
 const Math::Simplex::Tetrahedron<1> Tetrahedron4::tet;
 
-Tetrahedron4::Tetrahedron4() {
+Tetrahedron4::Tetrahedron4()
+:   v_() {
 
 }
 
diff --git a/src/core/geometry/element/Triangle3.cpp b/src/core/geometry/element/Triangle3.cpp
index ca2a9a0..b5121c8 100755
--- a/src/core/geometry/element/Triangle3.cpp
+++ b/src/core/geometry/element/Triangle3.cpp
@@ -27,7 +27,8 @@ namespace Element {
 
 const Math::Simplex::Triangle<1> Triangle3::geo;
 
-Triangle3::Triangle3() {
+Triangle3::Triangle3()
+:   v_() {
 
 }
 
diff --git a/src/core/geometry/element/Triangle6.cpp b/src/core/geometry/element/Triangle6.cpp
index efa913d..e9a23ca 100755
--- a/src/core/geometry/element/Triangle6.cpp
+++ b/src/core/geometry/element/Triangle6.cpp
@@ -27,7 +27,8 @@ namespace Element {
 
 const Math::Simplex::Triangle<2> Triangle6::geo;
 
-Triangle6::Triangle6() {
+Triangle6::Triangle6()
+:   v_() {
 
 }
 
-- 
2.43.0


From f8ac7f8310f1c67bc4542295a261d73448bbcb8c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:46:40 +0000
Subject: [PATCH 42/42] fix: start output requests made without a type with one

---
 src/core/outputRequest/OutputRequest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/outputRequest/OutputRequest.cpp b/src/core/outputRequest/OutputRequest.cpp
index bb4f72b..73f60f6 100755
--- a/src/core/outputRequest/OutputRequest.cpp
+++ b/src/core/outputRequest/OutputRequest.cpp
@@ -27,7 +27,7 @@ namespace SEMBA {
 namespace OutputRequest {
 
 Base::Base() {
-
+    type_ = electric;
 }
 
 Base::Base(const Type outputType,
-- 
2.43.0

