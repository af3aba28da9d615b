From 3ad839db3c9743e9930a9966390c2289efe68c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 01/51] fix: Graph::removeEdge rejects the one-past-the-end
 edge id

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index c6e1319..b148888 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -99,7 +99,7 @@ typename Graph<P, T>::Id Graph<P, T>::addEdge(E&& edg)
 template <typename P, typename T>
 bool Graph<P, T>::removeEdge(Id edge_id)
 {
-  if (edge_id > edges_.size())
+  if (edge_id >= edges_.size())
     return false;
   if (std::find(id_edge_pool_.begin(), id_edge_pool_.end(), edge_id) !=
       id_edge_pool_.end())
-- 
2.43.0


From aea7798f54d64c7414bad8b4fd1f23d317182a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 02/51] fix: Graph::removeEdge unlinks the edge from its end
 nodes

---
 .../ndt_gslam/slam_optimizer/pose_graph.h     | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index b148888..759702f 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -104,6 +104,9 @@ bool Graph<P, T>::removeEdge(Id edge_id)
   if (std::find(id_edge_pool_.begin(), id_edge_pool_.end(), edge_id) !=
       id_edge_pool_.end())
     return false;
+  E* edge = edges_[edge_id].get();
+  nodes_[edge->getFrom()->getId()]->removeEdgeOut(edge);
+  nodes_[edge->getTo()->getId()]->removeEdgeIn(edge);
   id_edge_pool_.push_back(edge_id);
   edges_[edge_id].reset(nullptr);
   return true;
@@ -399,6 +402,8 @@ public:
   void addToPose(const typename P::Pose& pose);
   bool addEdgeOut(Edge<P, T>* e);
   bool addEdgeIn(Edge<P, T>* e);
+  bool removeEdgeOut(Edge<P, T>* e);
+  bool removeEdgeIn(Edge<P, T>* e);
   edge_list_t& getEdgesIn();
   edge_list_t& getEdgesOut();
   //    bool removeEdge(Id id);
@@ -472,6 +477,26 @@ bool Node<P, T>::addEdgeIn(Edge<P, T>* e)
   return false;
 }
 
+template <typename P, typename T>
+bool Node<P, T>::removeEdgeOut(Edge<P, T>* e)
+{
+  auto it = std::find(edges_out_.begin(), edges_out_.end(), e);
+  if (it == edges_out_.end())
+    return false;
+  edges_out_.erase(it);
+  return true;
+}
+
+template <typename P, typename T>
+bool Node<P, T>::removeEdgeIn(Edge<P, T>* e)
+{
+  auto it = std::find(edges_in_.begin(), edges_in_.end(), e);
+  if (it == edges_in_.end())
+    return false;
+  edges_in_.erase(it);
+  return true;
+}
+
 template <typename P, typename T>
 typename Node<P, T>::edge_list_t& Node<P, T>::getEdgesIn()
 {
-- 
2.43.0


From 91e67d6bc6beaa61e73d1dbacfce2deb4f132387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 03/51] fix: graph iterators skip removed elements at the
 front, never read past the end

---
 .../ndt_gslam/slam_optimizer/pose_graph.h     | 51 +++++++++++--------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index 759702f..a6140f7 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -2,6 +2,7 @@
 #define NDT_GSLAM_POSE_GRAPH
 
 #include <Eigen/Eigen>
+#include <algorithm>
 #include <iostream>
 #include <map>
 #include <memory>
@@ -263,24 +264,19 @@ public:
   ListIterator(const DataIter& begin, const DataIter& end)
     : current_(begin), end_(end)
   {
+    skipEmpty();
   }
-  self_type operator++()
+  self_type& operator++()
   {
     ++current_;
-    // in case of empty field in list skip this field and go on
-    while (*current_ == nullptr && current_ != end_) {
-      ++current_;
-    }
+    skipEmpty();
     return *this;
   }
   self_type operator++(int)
   {
-    ++current_;
-    // in case of empty field in list skip this field and go on
-    while (current_ != end_ && current_->get() == nullptr) {
-      ++current_;
-    }
-    return *this;
+    self_type previous(*this);
+    ++(*this);
+    return previous;
   }
   reference operator*()
   {
@@ -300,6 +296,14 @@ public:
   }
 
 private:
+  // in case of empty field in list skip this field and go on
+  void skipEmpty()
+  {
+    while (current_ != end_ && current_->get() == nullptr) {
+      ++current_;
+    }
+  }
+
   DataIter current_;
   DataIter end_;
 };
@@ -321,24 +325,19 @@ public:
   ConstListIterator(const DataIter& begin, const DataIter& end)
     : current_(begin), end_(end)
   {
+    skipEmpty();
   }
-  self_type operator++()
+  self_type& operator++()
   {
     ++current_;
-    // in case of empty field in list skip this field and go on
-    while (*current_ == nullptr && current_ != end_) {
-      ++current_;
-    }
+    skipEmpty();
     return *this;
   }
   self_type operator++(int)
   {
-    ++current_;
-    // in case of empty field in list skip this field and go on
-    while (current_ != end_ && current_->get() == nullptr) {
-      ++current_;
-    }
-    return *this;
+    self_type previous(*this);
+    ++(*this);
+    return previous;
   }
   reference operator*()
   {
@@ -358,6 +357,14 @@ public:
   }
 
 private:
+  // in case of empty field in list skip this field and go on
+  void skipEmpty()
+  {
+    while (current_ != end_ && current_->get() == nullptr) {
+      ++current_;
+    }
+  }
+
   DataIter current_;
   DataIter end_;
 };
-- 
2.43.0


From 06d5c354851306523b7f29a436966a44298b52c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 04/51] fix: Graph::printNodes and Node::addDataObj can be
 instantiated

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index a6140f7..62e0f53 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -241,7 +241,7 @@ size_t Graph<P, T>::nodeCount()
 template <typename P, typename T>
 void Graph<P, T>::printNodes(std::ostream& out)
 {
-  for (auto nd : nodes_) {
+  for (auto& nd : nodes_) {
     nd->printNode(out);
   }
 }
@@ -566,7 +566,7 @@ const T& Node<P, T>::getDataObj() const
 template <typename P, typename T>
 void Node<P, T>::addDataObj(T& obj)
 {
-  object_ = obj_ptr_t(*obj);
+  object_ = obj;
 }
 
 template <typename P, typename T>
-- 
2.43.0


From 20087623ec282ec3b526bdf23eae389dfb7c47b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:46 +0000
Subject: [PATCH 05/51] fix: VoxelGrid2D copies keep every cell in place and
 tolerate empty cells

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 05de2c7..bc9a8a9 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -310,10 +310,9 @@ VoxelGrid2D<CellType>::VoxelGrid2D(const VoxelGrid2D& other)
   , valid_cells_(other.valid_cells_)
 {
   cells_.resize(other.cells_.size());
-  for (const std::unique_ptr<CellType>& cell : other.cells_) {
-    CellType* new_cell = new CellType;
-    *new_cell = *cell;
-    cells_.emplace_back(new_cell);
+  for (size_t i = 0; i < other.cells_.size(); ++i) {
+    if (other.cells_[i].get() != nullptr)
+      cells_[i].reset(new CellType(*other.cells_[i]));
   }
 }
 
-- 
2.43.0


From 1d4e76b85a62170daa8725bc6b48256f244c1fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:46 +0000
Subject: [PATCH 06/51] fix: VoxelGrid2D::removeCell returns a value on every
 path

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index bc9a8a9..2e60198 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -381,10 +381,11 @@ bool VoxelGrid2D<CellType>::removeCell(const Point& posistion)
   if (!isInside(posistion))
     return false;
   size_t idx = calcIndex(posistion);
-  if (cells_[idx].get() != nullptr) {
-    --valid_cells_;
-  }
+  if (cells_[idx].get() == nullptr)
+    return false;
+  --valid_cells_;
   cells_[idx].reset(nullptr);
+  return true;
 }
 
 template <typename CellType>
-- 
2.43.0


From bcb79e15d42071a95e8b9ccb988738f6d2361772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:46 +0000
Subject: [PATCH 07/51] fix: VoxelGrid2D::validCells follows clear, translate
 and rayTrace

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 2e60198..c0ec76b 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -546,6 +546,7 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
 
   if (cells_[idx_current].get() == nullptr) {
     cells_[idx_current].reset(new CellType());
+    ++valid_cells_;
   }
   res.push_back(cells_[idx_current].get());
   double total_dist = 0;
@@ -555,6 +556,7 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
     if (idx_current != idx_old) {
       if (cells_[idx_current].get() == nullptr) {
         cells_[idx_current].reset(new CellType());
+        ++valid_cells_;
       }
       res.push_back(cells_[idx_current].get());
       // std::cout << p.transpose() << std::endl;
@@ -595,6 +597,12 @@ void VoxelGrid2D<CellType>::translate(const Eigen::Vector2i& translation,
   moveRight(right);
   moveUp(up);
   moveDown(down);
+  // cells pushed over the border were discarded
+  valid_cells_ = 0;
+  for (auto&& cell : cells_) {
+    if (cell.get() != nullptr)
+      ++valid_cells_;
+  }
 }
 
 template <typename CellType>
@@ -603,6 +611,7 @@ void VoxelGrid2D<CellType>::clear()
   for (auto&& cell : cells_) {
     cell.reset(nullptr);
   }
+  valid_cells_ = 0;
 }
 
 template <typename CellType>
-- 
2.43.0


From 33e4439c7efa0e67cf4b5ea1058765c6b02f7afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:46 +0000
Subject: [PATCH 08/51] fix: VoxelGrid2D::getCentroid can be instantiated

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index c0ec76b..c353db4 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -469,9 +469,9 @@ VoxelGrid2D<CellType>::getCentroid(const Point& pt) const
 {
   std::pair<size_t, size_t> coords = calcCoordinates(pt);
   double x =
-      (static_cast<long>(coords.first) - static_cast<long>(left)) * cell_size_;
+      (static_cast<long>(coords.first) - static_cast<long>(left())) * cell_size_;
   double y =
-      -(static_cast<long>(coords.second) - static_cast<long>(up)) * cell_size_;
+      -(static_cast<long>(coords.second) - static_cast<long>(up())) * cell_size_;
   return std::pair<double, double>(x, y);
 }
 
-- 
2.43.0


From 8c8f8d340361b79085b01b8e667ac8ba34692a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:46 +0000
Subject: [PATCH 09/51] fix: VoxelGrid2D::rayTrace does not overshoot rays
 shorter than one cell

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index c353db4..a9c067b 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -550,7 +550,10 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
   }
   res.push_back(cells_[idx_current].get());
   double total_dist = 0;
-  for (size_t i = 0; i < 2 * static_cast<size_t>(std::floor(length)) - 1; ++i) {
+  // rays shorter than one cell end in the first cell
+  size_t full_cells = static_cast<size_t>(std::floor(length));
+  size_t steps = full_cells > 0 ? 2 * full_cells - 1 : 0;
+  for (size_t i = 0; i < steps; ++i) {
     // total_dist += delta_dist;
     // if program  is still in the same cell like last time just step forward
     if (idx_current != idx_old) {
-- 
2.43.0


From 53e4475996614f78f871064f2bbb67b548e71db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:42 +0000
Subject: [PATCH 10/51] fix: VoxelGrid2D bounds test and cell index agree on
 the grid border

---
 .../include/ndt_gslam/ndt/voxel_grid2d.h      | 84 ++++++++-----------
 1 file changed, 36 insertions(+), 48 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index a9c067b..5c4368a 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -267,11 +267,12 @@ private:
   // <colls, rows> of table
   std::pair<size_t, size_t> calcCoordinates(const Point& pt) const;
 
+  long cellOffset(double dist) const;
   void enlargeToFit(const Point& pt);
-  size_t calcIncLeft(float pt) const;
-  size_t calcIncRight(float pt) const;
-  size_t calcIncUp(float pt) const;
-  size_t calcIncDown(float pt) const;
+  size_t calcIncLeft(double pt) const;
+  size_t calcIncRight(double pt) const;
+  size_t calcIncUp(double pt) const;
+  size_t calcIncDown(double pt) const;
   void enlargeGrid(size_t left, size_t right, size_t up, size_t down);
   void moveLeft(size_t move);
   void moveRight(size_t move);
@@ -391,15 +392,12 @@ bool VoxelGrid2D<CellType>::removeCell(const Point& posistion)
 template <typename CellType>
 bool VoxelGrid2D<CellType>::isInside(const Point& pt) const
 {
-  if (pt(0) >=
-          -static_cast<double>(width_left_) * cell_size_ - cell_size_half_ &&
-      pt(0) <= width_right_ * cell_size_ + cell_size_half_ &&
-      pt(1) >=
-          -static_cast<double>(height_down_) * cell_size_ - cell_size_half_ &&
-      pt(1) <= height_up_ * cell_size_ + cell_size_half_)
-    return true;
-  else
-    return false;
+  const long col = cellOffset(pt(0));
+  const long row = cellOffset(-pt(1));
+  return col >= -static_cast<long>(width_left_) &&
+         col <= static_cast<long>(width_right_) &&
+         row >= -static_cast<long>(height_up_) &&
+         row <= static_cast<long>(height_down_);
 }
 
 template <typename CellType>
@@ -518,12 +516,6 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
   Point start_in;
   bool end_indise = false;
   Point delta;
-  double minx =
-      -static_cast<double>(width_left_) * cell_size_ - cell_size_half_;
-  double maxx = width_right_ * cell_size_ + cell_size_half_;
-  double miny =
-      -static_cast<double>(height_down_) * cell_size_ - cell_size_half_;
-  double maxy = height_up_ * cell_size_ + cell_size_half_;
 
   if (!isInside(start)) {
     return res;
@@ -565,7 +557,7 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
       // std::cout << p.transpose() << std::endl;
     }
     p += delta;
-    if (p(0) >= maxx || p(0) <= minx || p(1) >= maxy || p(1) <= miny)
+    if (!isInside(p))
       return res;
     idx_old = idx_current;
     idx_current = calcIndex(p);
@@ -657,60 +649,56 @@ std::pair<size_t, size_t>
 VoxelGrid2D<CellType>::calcCoordinates(const Point& pt) const
 {
   std::pair<size_t, size_t> coords;
-  float minx = cell_size_ * width_left_;
-  float maxy = cell_size_ * height_up_;
-  coords.first = static_cast<size_t>(
-      std::floor((pt(0) + minx + cell_size_half_) / cell_size_));
-  coords.second = static_cast<size_t>(
-      std::floor((-pt(1) + maxy + cell_size_half_) / cell_size_));
+  coords.first = static_cast<size_t>(cellOffset(pt(0)) +
+                                     static_cast<long>(width_left_));
+  coords.second = static_cast<size_t>(cellOffset(-pt(1)) +
+                                      static_cast<long>(height_up_));
   return coords;
 }
 
 template <typename CellType>
 void VoxelGrid2D<CellType>::enlargeToFit(const Point& pt)
 {
-  // keep in sync with calculation in isInside. Mostly operator< and widths
-  // calculations
   if (isInside(pt))
     return;
   enlargeGrid(calcIncLeft(pt(0)), calcIncRight(pt(0)), calcIncUp(pt(1)),
               calcIncDown(pt(1)));
 }
 
+// signed distance from the centroid cell in cells. The only place where a metric
+// coordinate is turned into a cell number.
+template <typename CellType>
+long VoxelGrid2D<CellType>::cellOffset(double dist) const
+{
+  return static_cast<long>(std::floor((dist + cell_size_half_) / cell_size_));
+}
+
 template <typename CellType>
-size_t VoxelGrid2D<CellType>::calcIncLeft(float pt) const
+size_t VoxelGrid2D<CellType>::calcIncLeft(double pt) const
 {
-  float minx = -static_cast<float>(width_left_) * cell_size_ - cell_size_half_;
-  if (pt < minx)
-    return static_cast<size_t>(std::ceil((minx - pt) / cell_size_));
-  return 0;
+  long inc = -cellOffset(pt) - static_cast<long>(width_left_);
+  return inc > 0 ? static_cast<size_t>(inc) : 0;
 }
 
 template <typename CellType>
-size_t VoxelGrid2D<CellType>::calcIncRight(float pt) const
+size_t VoxelGrid2D<CellType>::calcIncRight(double pt) const
 {
-  float maxx = width_right_ * cell_size_ + cell_size_half_;
-  if (pt > maxx)
-    return static_cast<size_t>(std::ceil((pt - maxx) / cell_size_));
-  return 0;
+  long inc = cellOffset(pt) - static_cast<long>(width_right_);
+  return inc > 0 ? static_cast<size_t>(inc) : 0;
 }
 
 template <typename CellType>
-size_t VoxelGrid2D<CellType>::calcIncUp(float pt) const
+size_t VoxelGrid2D<CellType>::calcIncUp(double pt) const
 {
-  float maxy = height_up_ * cell_size_ + cell_size_half_;
-  if (pt > maxy)
-    return static_cast<size_t>(std::ceil((pt - maxy) / cell_size_));
-  return 0;
+  long inc = -cellOffset(-pt) - static_cast<long>(height_up_);
+  return inc > 0 ? static_cast<size_t>(inc) : 0;
 }
 
 template <typename CellType>
-size_t VoxelGrid2D<CellType>::calcIncDown(float pt) const
+size_t VoxelGrid2D<CellType>::calcIncDown(double pt) const
 {
-  float miny = -static_cast<float>(height_down_) * cell_size_ - cell_size_half_;
-  if (pt < miny)
-    return static_cast<size_t>(std::ceil((miny - pt) / cell_size_));
-  return 0;
+  long inc = cellOffset(-pt) - static_cast<long>(height_down_);
+  return inc > 0 ? static_cast<size_t>(inc) : 0;
 }
 
 // increase in each dimension
-- 
2.43.0


From 95f1128b03a5cb0e4b6f302f6f55225b4e49de40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:43 +0000
Subject: [PATCH 11/51] fix: NDTCell::computeGaussian keeps a Gaussian when few
 new points arrive

---
 ndt_gslam/src/ndt/ndt_cell.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/src/ndt/ndt_cell.cpp b/ndt_gslam/src/ndt/ndt_cell.cpp
index f3294eb..a5fdfd4 100644
--- a/ndt_gslam/src/ndt/ndt_cell.cpp
+++ b/ndt_gslam/src/ndt/ndt_cell.cpp
@@ -71,8 +71,10 @@ void NDTCell::computeGaussian()
     return;
   }
   if (points_vec_.size() < 6) {
-    gaussian_ = false;
-    points_ = points_vec_.size();
+    // not enough new points, they wait for the next call. A Gaussian which is
+    // already in the cell stays valid.
+    if (!gaussian_)
+      points_ = points_vec_.size();
     return;
   }
 
-- 
2.43.0


From 5537de1f816445255b1fd7ff0b6a87cb62f3e587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:43 +0000
Subject: [PATCH 12/51] fix: NDTCell::rescaleCovar reports degenerate
 covariances

---
 ndt_gslam/src/ndt/ndt_cell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/src/ndt/ndt_cell.cpp b/ndt_gslam/src/ndt/ndt_cell.cpp
index a5fdfd4..d867ee8 100644
--- a/ndt_gslam/src/ndt/ndt_cell.cpp
+++ b/ndt_gslam/src/ndt/ndt_cell.cpp
@@ -221,6 +221,7 @@ void NDTCell::rescaleCovar()
   Eigen::SelfAdjointEigenSolver<Matrix> solver(cov_);
   Matrix evacs = solver.eigenvectors();
   Matrix evals = solver.eigenvalues().asDiagonal();
+  gaussian_ = true;
   if (evals(0, 0) < 0 || evals(1, 1) < 0 || evals(2, 2) <= 0)
     gaussian_ = false;
 
@@ -234,7 +235,6 @@ void NDTCell::rescaleCovar()
   if (icov_.maxCoeff() == std::numeric_limits<float>::infinity() ||
       icov_.minCoeff() == -std::numeric_limits<float>::infinity())
     gaussian_ = false;
-  gaussian_ = true;
 }
 
 double NDTCell::calcMaxLikelihoodOnLine(const Vector &start, const Vector &end,
-- 
2.43.0


From cda2e64f7407bb05e75be7bd68dd3bcaffd44018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:43 +0000
Subject: [PATCH 13/51] fix: NDTCell occupancy stays a number for rays of zero
 length

---
 ndt_gslam/src/ndt/ndt_cell.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/src/ndt/ndt_cell.cpp b/ndt_gslam/src/ndt/ndt_cell.cpp
index d867ee8..7c0e1d0 100644
--- a/ndt_gslam/src/ndt/ndt_cell.cpp
+++ b/ndt_gslam/src/ndt/ndt_cell.cpp
@@ -240,7 +240,11 @@ void NDTCell::rescaleCovar()
 double NDTCell::calcMaxLikelihoodOnLine(const Vector &start, const Vector &end,
                                         Vector &pt) const
 {
-  Vector l = (end - start) / (end - start).norm();
+  pt = end;
+  // ray without length has no direction, its only point is the end point
+  Vector l = Vector::Zero();
+  if (start != end)
+    l = (end - start) / (end - start).norm();
   Vector a = icov_ * l;
   Vector b = (end - mean_);
   double sigma = a.cwiseProduct(l).sum();
-- 
2.43.0


From f12879aa4214557eb180c9ac1f7b8e1eccb216f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:43 +0000
Subject: [PATCH 14/51] fix: NDTCell integer occupancy uses the documented
 range

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h
index 28ec657..7294b97 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h
@@ -119,8 +119,8 @@ public:
   {
     if (occup_ >= MAX_OCCUPANCY)
       return 100;
-    if (occup_ < MIN_OCCUPANCY)
-      return 0;
+    if (occup_ < 0)
+      return -1;
     return static_cast<int8_t>(std::floor(occup_ * 100));
   }
   /**
@@ -139,7 +139,7 @@ public:
    */
   void setOccupancy(int8_t occup)
   {
-    occup_ = occup;
+    occup_ = occup < 0 ? MIN_OCCUPANCY : occup / 100.0f;
   }
 
   /**
-- 
2.43.0


From 41ebc9834bc8248038c6f544dfe7b362858f6c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:43 +0000
Subject: [PATCH 15/51] fix: covarInverse tests each eigenvalue, not the first
 matrix column

---
 ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h b/ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h
index 34f3223..5fd50a0 100644
--- a/ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h
+++ b/ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h
@@ -31,7 +31,7 @@ bool covarInverse(const Eigen::Matrix<Scalar, 3, 3> &cov,
     double max_eval = evals.maxCoeff();
     // test if every eigenval is big enough
     for (int i = 0; i < evals.cols(); ++i) {
-      if (max_eval > evals(i) * eval_factor) {
+      if (max_eval > evals(i, i) * eval_factor) {
         evals(i, i) = max_eval / eval_factor;
         recalc = true;
       }
-- 
2.43.0


From a42fbb80b96a45325603adc30f419fd98f3ffa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:43 +0000
Subject: [PATCH 16/51] fix: split terminates for an empty token

---
 ndt_gslam/include/ndt_gslam/utils/string_tools.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/utils/string_tools.h b/ndt_gslam/include/ndt_gslam/utils/string_tools.h
index bbf24e5..6db1747 100644
--- a/ndt_gslam/include/ndt_gslam/utils/string_tools.h
+++ b/ndt_gslam/include/ndt_gslam/utils/string_tools.h
@@ -22,6 +22,11 @@ std::vector<std::string> split(const std::string& data,
                                const std::string& token)
 {
   std::vector<std::string> output;
+  // empty token never advances in the data
+  if (token.empty()) {
+    output.push_back(data);
+    return output;
+  }
   size_t pos = std::string::npos;
   std::string temp = data;
   do {
-- 
2.43.0


From b38d1505735ce338fd1739775a9311a361307813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:43 +0000
Subject: [PATCH 17/51] fix: matToVec2d is defined in the namespace it is
 declared in

---
 ndt_gslam/include/ndt_gslam/utils/eigen_tools.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/utils/eigen_tools.h b/ndt_gslam/include/ndt_gslam/utils/eigen_tools.h
index f8259ce..1b9e70a 100644
--- a/ndt_gslam/include/ndt_gslam/utils/eigen_tools.h
+++ b/ndt_gslam/include/ndt_gslam/utils/eigen_tools.h
@@ -233,8 +233,8 @@ Eigen::Matrix<Out, 3, 3> eigt::vecToMat2d(const Eigen::Matrix<In, 3, 1> &trans)
   return trans_mat;
 }
 
-template <typename In, typename Out = In>
-Eigen::Matrix<Out, 3, 1> matToVec2d(const Eigen::Matrix<In, 3, 3> &trans)
+template <typename In, typename Out>
+Eigen::Matrix<Out, 3, 1> eigt::matToVec2d(const Eigen::Matrix<In, 3, 3> &trans)
 {
   Eigen::Matrix<Out, 3, 1> vec;
   Eigen::Transform<In, 2, Eigen::Affine, Eigen::ColMajor> trans_mat(trans);
@@ -245,8 +245,8 @@ Eigen::Matrix<Out, 3, 1> matToVec2d(const Eigen::Matrix<In, 3, 3> &trans)
   return vec;
 }
 
-template <typename In, typename Out = In>
-Eigen::Matrix<Out, 3, 1> matToVec2d(const Eigen::Matrix<In, 4, 4> &trans)
+template <typename In, typename Out>
+Eigen::Matrix<Out, 3, 1> eigt::matToVec2d(const Eigen::Matrix<In, 4, 4> &trans)
 {
   Eigen::Matrix<Out, 3, 1> vec;
   Eigen::Transform<In, 3, Eigen::Affine, Eigen::ColMajor> trans_mat(trans);
-- 
2.43.0


From b151c1b7c8702b1f550bb1e1f01e9d90eb5fd621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:43 +0000
Subject: [PATCH 18/51] fix: switch vertex keeps one copy of its value so that
 pop restores it

---
 .../vertex_switchLinear.h                     |  5 +---
 .../vertex_switchLinear.cpp                   | 23 ++++++++-----------
 2 files changed, 10 insertions(+), 18 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h
index c8b104d..7263170 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h
@@ -32,7 +32,7 @@ public:
 
   double x() const
   {
-    return _x;
+    return _estimate;
   };
 
   //! The gradient at the current estimate is always 1;
@@ -40,9 +40,6 @@ public:
   {
     return 1;
   };
-
-private:
-  double _x;
 };
 
 #endif
diff --git a/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp b/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
index 676c512..b46beaf 100644
--- a/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
+++ b/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
@@ -15,38 +15,33 @@ using namespace std;
 
 bool VertexSwitchLinear::read(std::istream& is)
 {
-  is >> _x;
-  _estimate = _x;
+  is >> _estimate;
 
   return true;
 }
 
 bool VertexSwitchLinear::write(std::ostream& os) const
 {
-  os << _x;
+  os << _estimate;
   return os.good();
 }
 
 void VertexSwitchLinear::setToOriginImpl()
 {
-  _x = 0;
-  _estimate = _x;
+  _estimate = 0;
 }
 
 void VertexSwitchLinear::setEstimate(const double& et)
 {
-  _x = et;
-  _estimate = _x;
+  _estimate = et;
 }
 
 void VertexSwitchLinear::oplusImpl(const double* update)
 {
-  _x += update[0];
+  _estimate += update[0];
 
-  if (_x < 0)
-    _x = 0;
-  if (_x > 1)
-    _x = 1;
-
-  _estimate = _x;
+  if (_estimate < 0)
+    _estimate = 0;
+  if (_estimate > 1)
+    _estimate = 1;
 }
-- 
2.43.0


From 810e63278036ada71fe27e3c64955688b928c222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:43 +0000
Subject: [PATCH 19/51] fix: mixture edges start without a best component

---
 ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp   | 2 +-
 .../src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
index 7b65199..9ec47f6 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
@@ -40,7 +40,7 @@ using namespace std;
 EdgeSE2Mixture::EdgeSE2Mixture() : g2o::EdgeSE2::EdgeSE2()
 {
   numberComponents = 0;
-  int bestComponent = -1;
+  bestComponent = -1;
 }
 
 EdgeSE2Mixture::~EdgeSE2Mixture()
diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
index 36ce3f2..ae03517 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
@@ -41,7 +41,7 @@ EdgeSE2PointXYMixture::EdgeSE2PointXYMixture()
   : g2o::EdgeSE2PointXY::EdgeSE2PointXY()
 {
   numberComponents = 0;
-  int bestComponent = -1;
+  bestComponent = -1;
 }
 
 EdgeSE2PointXYMixture::~EdgeSE2PointXYMixture()
-- 
2.43.0


From 27ad70f29ac239ba8f34d48016c9766bc0ffb526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:43 +0000
Subject: [PATCH 20/51] fix: mixture edges drop old components when they are
 set again

---
 ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp | 4 ++++
 .../slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
index 9ec47f6..8969da9 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
@@ -61,6 +61,7 @@ void EdgeSE2Mixture::initializeComponents(std::vector<g2o::EdgeSE2*>& _edges,
   this->weights = _weights;
 
   numberComponents = _edges.size();
+  determinants.clear();
   for (unsigned int i = 0; i < numberComponents; i++)
     determinants.push_back(allEdges[i]->information().inverse().determinant());
 
@@ -137,6 +138,9 @@ void EdgeSE2Mixture::computeBestEdge()
 bool EdgeSE2Mixture::read(std::istream& is)
 {
   is >> numberComponents;
+  allEdges.clear();
+  weights.clear();
+  determinants.clear();
 
   allEdges.reserve(numberComponents);
   weights.reserve(numberComponents);
diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
index ae03517..4ff02a0 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
@@ -62,6 +62,7 @@ void EdgeSE2PointXYMixture::initializeComponents(
   this->weights = _weights;
   // UpdateBelief(0);
   numberComponents = _edges.size();
+  determinants.clear();
   for (unsigned int i = 0; i < numberComponents; i++)
     determinants.push_back(allEdges[i]->information().inverse().determinant());
 
@@ -133,6 +134,9 @@ void EdgeSE2PointXYMixture::computeBestEdge()
 bool EdgeSE2PointXYMixture::read(std::istream& is)
 {
   is >> numberComponents;
+  allEdges.clear();
+  weights.clear();
+  determinants.clear();
 
   allEdges.reserve(numberComponents);
   weights.reserve(numberComponents);
-- 
2.43.0


From 0b92516ff543fd7244f6610c12a8eb2eddc39f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:06 +0000
Subject: [PATCH 21/51] fix: line search interpolation takes the minimizer on
 descending intervals

---
 ndt_gslam/include/ndt_gslam/registration/ndt_reg_tools.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/ndt_reg_tools.h b/ndt_gslam/include/ndt_gslam/registration/ndt_reg_tools.h
index 8179fe0..05ff9b3 100644
--- a/ndt_gslam/include/ndt_gslam/registration/ndt_reg_tools.h
+++ b/ndt_gslam/include/ndt_gslam/registration/ndt_reg_tools.h
@@ -154,7 +154,7 @@ double trialValueSelectionMT(double a_l, double f_l, double g_l, double a_u,
     // g_t
     // Equation 2.4.52 [Sun, Yuan 2006]
     double z = 3 * (f_t - f_l) / (a_t - a_l) - g_t - g_l;
-    double w = std::sqrt(z * z - g_t * g_l);
+    double w = std::copysign(std::sqrt(z * z - g_t * g_l), a_t - a_l);
     // Equation 2.4.56 [Sun, Yuan 2006]
     double a_c = a_l + (a_t - a_l) * (w - g_l - z) / (g_t - g_l + 2 * w);
 
@@ -176,7 +176,7 @@ double trialValueSelectionMT(double a_l, double f_l, double g_l, double a_u,
     // g_t
     // Equation 2.4.52 [Sun, Yuan 2006]
     double z = 3 * (f_t - f_l) / (a_t - a_l) - g_t - g_l;
-    double w = std::sqrt(z * z - g_t * g_l);
+    double w = std::copysign(std::sqrt(z * z - g_t * g_l), a_t - a_l);
     // Equation 2.4.56 [Sun, Yuan 2006]
     double a_c = a_l + (a_t - a_l) * (w - g_l - z) / (g_t - g_l + 2 * w);
 
@@ -197,7 +197,7 @@ double trialValueSelectionMT(double a_l, double f_l, double g_l, double a_u,
     // g_t
     // Equation 2.4.52 [Sun, Yuan 2006]
     double z = 3 * (f_t - f_l) / (a_t - a_l) - g_t - g_l;
-    double w = std::sqrt(z * z - g_t * g_l);
+    double w = std::copysign(std::sqrt(z * z - g_t * g_l), a_t - a_l);
     double a_c = a_l + (a_t - a_l) * (w - g_l - z) / (g_t - g_l + 2 * w);
 
     // Calculate the minimizer of the quadratic that interpolates g_l and g_t
@@ -223,7 +223,7 @@ double trialValueSelectionMT(double a_l, double f_l, double g_l, double a_u,
     // g_t
     // Equation 2.4.52 [Sun, Yuan 2006]
     double z = 3 * (f_t - f_u) / (a_t - a_u) - g_t - g_u;
-    double w = std::sqrt(z * z - g_t * g_u);
+    double w = std::copysign(std::sqrt(z * z - g_t * g_u), a_t - a_u);
     // Equation 2.4.56 [Sun, Yuan 2006]
     return (a_u + (a_t - a_u) * (w - g_u - z) / (g_t - g_u + 2 * w));
   }
-- 
2.43.0


From 35aeb46225b1544d32aa2161593abeb29bee1466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:00 +0000
Subject: [PATCH 22/51] fix: NDTGrid2D merges cells when it may grow instead of
 replacing them

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index 5db1e57..43fffa7 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -503,7 +503,7 @@ void NDTGrid2D<CellType, PointType>::mergeIn(const std::vector<CellType> &cells,
     grid_.enlarge(minx, miny, maxx, maxy);
     for (auto &&cell : cells) {
       if (cell.hasGaussian()) {
-        grid_.addCell(cell.getMean().head(2), cell, false);
+        grid_.addCell(cell.getMean().head(2), cell);
       }
     }
   } else {
-- 
2.43.0


From 256a34a9802a07e0cea36cf39f47891ced1bf97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:00 +0000
Subject: [PATCH 23/51] fix: NDTGrid2D::serialize reports the origin of the
 grid

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index 43fffa7..6a589ee 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -860,11 +860,12 @@ template <typename CellType, typename PointType>
 NDTGridMsg NDTGrid2D<CellType, PointType>::serialize() const
 {
   NDTGridMsg msg;
-  Eigen::Vector2d corner_origin(-grid_.left() * cell_size_,
+  Eigen::Vector2d corner_origin(-static_cast<double>(grid_.left()) * cell_size_,
                                 grid_.up() * cell_size_);
   eigt::transform2d_t<double> trans =
       eigt::transBtwFrames(origin_, Eigen::Vector3d(0, 0, 0));
   msg.origin_.head(2) = trans * corner_origin;
+  msg.origin_(2) = origin_(2);
   msg.size_ << grid_.width() * cell_size_, grid_.height() * cell_size_, 0;
   msg.cell_sizes_ << cell_size_, cell_size_, 0;
   for (auto &&cell : grid_.getValidCellsPtr()) {
-- 
2.43.0


From f61ed7f085c52287fca192c28c0f597cf5382feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:00 +0000
Subject: [PATCH 24/51] fix: NDTGrid2D created with an origin has a cloud of
 means

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index 6a589ee..4ccb269 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -457,6 +457,8 @@ NDTGrid2D<CellType, PointType>::NDTGrid2D(const Eigen::Vector3d &origin,
   , initialized_(false)
   , timestamp_(timestamp)
   , grid_()
+  , kdtree_()
+  , means_(new PointCloud())
 {
   grid_.setCellSize(cell_size_);
 }
-- 
2.43.0


From bafad63db68b93f9df3768788ee7facd6cd7f082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:01 +0000
Subject: [PATCH 25/51] fix: NDTGrid2D::clear forgets the means of removed
 cells

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index 4ccb269..19244de 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -395,6 +395,8 @@ public:
   {
     grid_.clear();
     initialized_ = false;
+    updateMeansCloud();
+    updateKDTree();
   }
 
   /**
-- 
2.43.0


From 61ce567f6aa5e55b899a45e2678ddbd6fef844a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:01 +0000
Subject: [PATCH 26/51] fix: reading a cell of a constant NDTGrid2D compiles
 when used

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index 19244de..ae33fce 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -689,14 +689,14 @@ operator[](const PointType &pt) const
 {
   typename DataGrid::Point point;
   point << pt.x, pt.y;
-  return grid_[point];
+  return *grid_.getCellPtr(point);
 }
 
 template <typename CellType, typename PointType>
 const CellType &NDTGrid2D<CellType, PointType>::
 operator[](const Eigen::Vector2d &pt) const
 {
-  return grid_[pt];
+  return *grid_.getCellPtr(pt);
 }
 
 template <typename CellType, typename PointType>
-- 
2.43.0


From 1d301c770971502486448425f6896d7d87529452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 27/51] fix: NDTMapper can remove, update and combine frames

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h
index 3f909b2..9a1edd5 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h
@@ -8,8 +8,10 @@
 #include <pcl/point_cloud.h>
 #include <ros/ros.h>
 #include <Eigen/Dense>
+#include <algorithm>
 #include <map>
 #include <memory>
+#include <stdexcept>
 
 namespace slamuk
 {
@@ -110,7 +112,8 @@ private:
   FrameStorage grids_;
   typename Pcl::Ptr means_;
   // return id of frame if found. Otherwise exception
-  typename FrameStorage::iterator getFrameIterator(const NDTGrid2DPtr &frame);
+  typename FrameStorage::iterator
+  getFrameIterator(const NDTGrid2DConstPtr &frame);
   void addToMap(const Grid &frame);
 };
 
@@ -164,7 +167,7 @@ template <typename CellType, typename PointType>
 void NDTMapper<CellType, PointType>::updateFrame(const NDTGrid2DPtr &frame,
                                                  const Pose &pose)
 {
-  getFrameIterator(frame)->setOrigin(pose);
+  (*getFrameIterator(frame))->setOrigin(pose);
 }
 
 template <typename CellType, typename PointType>
@@ -176,7 +179,8 @@ NDTMapper<CellType, PointType>::combineFrames(const NDTGrid2DPtr &a,
   Grid *frame_b = getFrameIterator(b)->get();
   frame_a->mergeInTraced(*frame_b, true, true);
   frame_a->setTimestamp(frame_b->getTimestamp());
-  removeFrame(frame_b);
+  removeFrame(b);
+  return a;
 }
 
 template <typename CellType, typename PointType>
@@ -219,9 +223,9 @@ NDTMapper<CellType, PointType>::calcOccupancyGridMsg() const
 
 template <typename CellType, typename PointType>
 typename NDTMapper<CellType, PointType>::FrameStorage::iterator
-NDTMapper<CellType, PointType>::getFrameIterator(const NDTGrid2DPtr &frame)
+NDTMapper<CellType, PointType>::getFrameIterator(const NDTGrid2DConstPtr &frame)
 {
-  auto iter = grids_.find(frame);
+  auto iter = std::find(grids_.begin(), grids_.end(), frame);
   if (iter == grids_.end())
     throw std::invalid_argument("Id of frame doesn't exist");
   return iter;
-- 
2.43.0


From d30337883aa1c5a9a0c42f00b60a584ee03f5f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:38 +0000
Subject: [PATCH 28/51] fix: search for loop closures starts with zero distance
 and covariance

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
index 3917b2a..7cd4ca5 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
@@ -32,8 +32,10 @@ struct EdgeCov {
   }
   explicit EdgeCov(size_t start_id)
     : start_id_(start_id)
-    , cov_()
+    , node_id_(start_id)
+    , cov_(Covar::Zero())
     , t_(Transform::Identity())
+    , distance_(0)
     , hop_(0)
     , det_cov_(0)
   {
-- 
2.43.0


From a28697111cedb5949c079a1e01712394e5eeb3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:38 +0000
Subject: [PATCH 29/51] fix: search for loop closures ends when all reachable
 nodes were visited

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
index 7cd4ca5..e18fdb8 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
@@ -234,7 +234,8 @@ std::vector<LoopClosure<P>> LoopDetector<P, T>::genLoopClosures(Id node_id)
   }
   size_t depth = 0;
   // repeat while some nodes are unvisited
-  while (graph_->nodeCount() > nodes_visited && depth < max_search_depth_) {
+  while (graph_->nodeCount() > nodes_visited && depth < max_search_depth_ &&
+         !fringe.empty()) {
     size_t curr_node_id = fringe.top().node_id_;
     std::cout << "node: " << curr_node_id << std::endl;
     Node &target_n = graph_->getNode(node_id);
-- 
2.43.0


From 68f769279edc9795a4c1e78f359335a379ee6a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:38 +0000
Subject: [PATCH 30/51] fix: search for loop closures visits nodes with several
 paths only once

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
index e18fdb8..7013f04 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
@@ -237,6 +237,11 @@ std::vector<LoopClosure<P>> LoopDetector<P, T>::genLoopClosures(Id node_id)
   while (graph_->nodeCount() > nodes_visited && depth < max_search_depth_ &&
          !fringe.empty()) {
     size_t curr_node_id = fringe.top().node_id_;
+    // node was already reached by another path
+    if (graph_->getNode(curr_node_id).isVisited()) {
+      fringe.pop();
+      continue;
+    }
     std::cout << "node: " << curr_node_id << std::endl;
     Node &target_n = graph_->getNode(node_id);
     Node &source_n = graph_->getNode(curr_node_id);
-- 
2.43.0


From 1bdb2606253dd33ed4f3585775aaf148e3e94d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:38 +0000
Subject: [PATCH 31/51] fix: IScanmatcher2d::setScoreThreshold is pure virtual
 as nothing defines it

---
 .../include/ndt_gslam/slam_optimizer/graph_slam_interfaces.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/graph_slam_interfaces.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/graph_slam_interfaces.h
index d2ea79d..e2cf58a 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/graph_slam_interfaces.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/graph_slam_interfaces.h
@@ -241,7 +241,7 @@ public:
    *
    * @param[in]  score  The score
    */
-  virtual void setScoreThreshold(float score);
+  virtual void setScoreThreshold(float score) = 0;
 };
 
 }  // slamuk namespace
-- 
2.43.0


From f7907f3cba4ed7c831daa8bf93258f90e1bcbdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 32/51] fix: Slam2D does not destroy the solvers a second time

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/slam2d.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/slam2d.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/slam2d.h
index 36a3c38..3f39f31 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/slam2d.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/slam2d.h
@@ -84,6 +84,10 @@ public:
   ~Slam2D()
   {
     std::cout << "destructing Slam2d" << std::endl;
+    // the optimizer owns the algorithm, which in turn owns its solvers
+    solver_gauss_.release();
+    block_solver_.release();
+    linear_solver_.release();
   }
 
   // return true if optimalization changed poses in graph
-- 
2.43.0


From 5db40fe0b74eb3548c617b0c0005a226f52e57d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:28 +0000
Subject: [PATCH 33/51] fix: D2D derivatives by the angle turn cells about the
 source origin

---
 ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d.h b/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d.h
index 7a86082..b508b1b 100644
--- a/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d.h
+++ b/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d.h
@@ -555,8 +555,8 @@ D2DNormalDistributionsTransform2D<PointSource, PointTarget, CellType>::calcScore
           trans_mat.rotation() * cell_cov * trans_mat.rotation().transpose();
       // compute derivatives of score function
       ndt_reg::JacobianHessianDerivatives partial_derivatives;
-      computeDerivatives(mean_source, cov_source, partial_derivatives,
-                         calc_hessian);
+      computeDerivatives(mean_source - trans_mat.translation(), cov_source,
+                         partial_derivatives, calc_hessian);
       TargetVec neighbors =
           targetNDT.getKNearestNeighbors(mean_source.head(2), 2);
       // std::cout << "neighbors: " << neighbors.size() << std::endl;
-- 
2.43.0


From 6b949b136bb443b2ad8c769b8c5973dc22bd4b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:28 +0000
Subject: [PATCH 34/51] fix: D2D information is the negative Hessian of the
 maximised score

---
 ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d.h b/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d.h
index b508b1b..31f9c11 100644
--- a/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d.h
+++ b/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d.h
@@ -508,8 +508,8 @@ bool D2DNormalDistributionsTransform2D<PointSource, PointTarget, CellType>::
   }
   trans = p;
   // final_transformation_ = transformation_;
-  covariance_ = score.hessian_;
-  inform_matrix_ = score.hessian_.inverse();
+  inform_matrix_ = -score.hessian_;
+  covariance_ = inform_matrix_.inverse();
   return true;
 }
 ////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 3d18cae7ccacaf40d90eb88ac3cf40ff16b0b701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:28 +0000
Subject: [PATCH 35/51] fix: NDT2D second derivative of a point exists only for
 the angle

---
 ndt_gslam/include/ndt_gslam/registration/ndt2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/ndt2d.h b/ndt_gslam/include/ndt_gslam/registration/ndt2d.h
index 60b803a..6109c40 100644
--- a/ndt_gslam/include/ndt_gslam/registration/ndt2d.h
+++ b/ndt_gslam/include/ndt_gslam/registration/ndt2d.h
@@ -539,9 +539,9 @@ ndt_reg::ScoreAndDerivatives<3, double> NormalDistributionsTransform2DEx<
     for (long j = 0; j < 3; ++j) {
       // calculate hessian (eq. 6.13) [Magnusson 2009]
       if (i == 2 && j == 2) {
-        hess_part = hess_derivatives2;
-      } else {
         hess_part = hess_derivative;
+      } else {
+        hess_part = hess_derivatives2;
       }
       double jacc_i = diff_icov.dot(jacobian.col(i));
       double jacc_j = diff_icov.dot(jacobian.col(j));
-- 
2.43.0


From 3ed6900f40259b0a6b121651aaee95eb8f154b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:28 +0000
Subject: [PATCH 36/51] fix: NDT2D information is the negative Hessian of the
 maximised score

---
 ndt_gslam/include/ndt_gslam/registration/ndt2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/ndt2d.h b/ndt_gslam/include/ndt_gslam/registration/ndt2d.h
index 6109c40..62520be 100644
--- a/ndt_gslam/include/ndt_gslam/registration/ndt2d.h
+++ b/ndt_gslam/include/ndt_gslam/registration/ndt2d.h
@@ -450,8 +450,8 @@ bool NormalDistributionsTransform2DEx<PointSource, PointTarget, CellType>::
   }
   final_transformation_ = transformation_;
   transformPointCloud(*input_, output, transformation_);
-  covariance_ = score.hessian_;
-  inform_matrix_ = score.hessian_.inverse();
+  inform_matrix_ = -score.hessian_;
+  covariance_ = inform_matrix_.inverse();
   return true;
 }
 
-- 
2.43.0


From 903324ee3c3bf4b6807e1afad9646417ffc3caf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:04 +0000
Subject: [PATCH 37/51] fix: LookUpTable indexes of points include the border
 of the table

---
 .../ndt_gslam/registration/correlative_estimation_tools.h   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
index 9d5a5c9..79150f0 100644
--- a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
+++ b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
@@ -331,9 +331,11 @@ LookUpTable<PointType>::toIndexes(const pcl::PointCloud<PointType> &pcl) const
   for (size_t i = 0; i < pcl.points.size(); ++i) {
     IndexPoint pt;
     pt.x_idx_ = static_cast<int>(
-        std::floor((pcl.points[i].x - minx_ + cell_size_half_) / cell_size_));
+        std::floor((pcl.points[i].x - minx_ + cell_size_half_) / cell_size_) +
+        border_size_);
     pt.y_idx_ = static_cast<int>(
-        std::floor((-pcl.points[i].y + maxy_ + cell_size_half_) / cell_size_));
+        std::floor((-pcl.points[i].y + maxy_ + cell_size_half_) / cell_size_) +
+        border_size_);
     indexes.push_back(pt);
   }
   return indexes;
-- 
2.43.0


From 3aef115ee788e2260bb02e1417c20d2269d78567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:04 +0000
Subject: [PATCH 38/51] fix: LookUpTable counts the outermost points of the
 target

---
 .../ndt_gslam/registration/correlative_estimation_tools.h   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
index 79150f0..5d73b4e 100644
--- a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
+++ b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
@@ -384,8 +384,8 @@ void LookUpTable<PointType>::initGridWindowFce(
   // every point is projected to certain cell. If is cell in the grid we set
   // this cell OCCUPIED
   for (size_t i = 0; i < target.size(); ++i) {
-    if (target[i].x < maxx_ && target[i].y < maxy_ && target[i].x > minx_ &&
-        target[i].y > miny_) {
+    if (target[i].x <= maxx_ && target[i].y <= maxy_ && target[i].x >= minx_ &&
+        target[i].y >= miny_) {
       Eigen::Vector2f pt(target[i].x, target[i].y);
       size_t idx = getCellIdx(pt);
       table_[idx] = OCCUPIED_CELL;
@@ -438,7 +438,7 @@ void LookUpTable<PointType>::applyKernel(size_t row, size_t col)
 template <typename PointType>
 float LookUpTable<PointType>::getPtScore(const Eigen::Vector2f &pt) const
 {
-  if (pt(0) < maxx_ && pt(1) < maxy_ && pt(0) > minx_ && pt(1) > miny_) {
+  if (pt(0) <= maxx_ && pt(1) <= maxy_ && pt(0) >= minx_ && pt(1) >= miny_) {
     return table_[getCellIdx(pt)];
   }
   return 0;
-- 
2.43.0


From a145278fcbf3022040e2651abf88e44f75117653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:04 +0000
Subject: [PATCH 39/51] fix: CorrelativeEstimation result includes the guess it
 started from

---
 .../include/ndt_gslam/registration/correlative_estimation2d.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation2d.h b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation2d.h
index 4d30c9b..f14b3d0 100644
--- a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation2d.h
+++ b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation2d.h
@@ -252,7 +252,7 @@ void CorrelativeEstimation<PointSource, PointTarget>::computeTransformation(
 
   // output data
   converged_ = true;
-  final_transformation_ = vecToMat(best_trans);  // * guess;
+  final_transformation_ = vecToMat(best_trans) * guess;
   transformPointCloud(*input_, output, final_transformation_);
 }
 
-- 
2.43.0


From 2f71e3f88b5cb665d038922d5db1ec51c506d8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:04 +0000
Subject: [PATCH 40/51] fix:
 D2DNormalDistributionsTransform2DRobust::getOutlierRatio compiles when used

---
 ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h b/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h
index 6d189d5..b3fb0f8 100644
--- a/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h
+++ b/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h
@@ -188,7 +188,7 @@ public:
    */
   double getOutlierRatio() const
   {
-    return d2d_.getOutlierRatio();
+    return d2d_.getOulierRatio();
   }
 
   /**
-- 
2.43.0


From d5b2c2b41eabc561a5547f9c5845c6684cc1dc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:54 +0000
Subject: [PATCH 41/51] fix: D2DNormalDistributionsTransform2DRobust never
 accepts a match below the rejection limit

---
 ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h b/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h
index b3fb0f8..c5302c7 100644
--- a/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h
+++ b/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h
@@ -331,11 +331,10 @@ void D2DNormalDistributionsTransform2DRobust<
   // standard D2D match try for good guess estimations
   d2d_.align(output, guess);
   double score = proofTransform(d2d_.getFinalTransformation());
-  Eigen::Matrix4f first_trans;
+  Eigen::Matrix4f first_trans = d2d_.getFinalTransformation();
   // test if first d2d has return bad result
   if (!(d2d_.hasConverged() && score > 0.7)) {
     // bad result -> robust alignment needed
-    first_trans = d2d_.getFinalTransformation();
     corr_est_.align(output, guess);
     if (!corr_est_.hasConverged()) {
       converged_ = false;
@@ -360,7 +359,7 @@ void D2DNormalDistributionsTransform2DRobust<
   // robust alignment still not good enough
   if (score2 < rejection_limit_) {
     // Maybe at least first d2d got some reasonable result
-    if (score > 0.6) {
+    if (score > 0.6 && score >= rejection_limit_) {
       converged_ = true;
       final_transformation_ = first_trans;
     } else {
-- 
2.43.0


From bbf02d7d53cb13c6e3ccc8a5d389a24d2dfdc62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:53 +0000
Subject: [PATCH 42/51] fix: NdtSlamAlgortihm keeps odometry of motions below
 the update threshold

---
 ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
index 9063d5c..318cff8 100644
--- a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
+++ b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
@@ -219,8 +219,10 @@ NdtSlamAlgortihm::Pose NdtSlamAlgortihm::update(const Transform &motion,
   }
   unused_trans_ = unused_trans_ * motion;
   if (!movedEnough(unused_trans_)) {
-    return eigt::getPoseFromTransform(position_ * motion);
+    return eigt::getPoseFromTransform(position_ * unused_trans_);
   }
+  // motion since the last processed scan
+  const Transform odometry = unused_trans_;
   unused_trans_.setIdentity();
   FrameTypePtr local = FrameTypePtr(new FrameType());
   PointCloud::Ptr pcl_out(new PointCloud());
@@ -233,7 +235,7 @@ NdtSlamAlgortihm::Pose NdtSlamAlgortihm::update(const Transform &motion,
   // inc_matcher_.setInputSource(local);
   inc_matcher_.align(
       *pcl_out,
-      eigt::convertFromTransform(position_cumul_ * motion).cast<float>());
+      eigt::convertFromTransform(position_cumul_ * odometry).cast<float>());
   //
   ROS_DEBUG_STREAM("[SLAM ALGORITHM]: incremental scanamtching converged:"
                    << inc_matcher_.hasConverged());
@@ -285,7 +287,7 @@ NdtSlamAlgortihm::Pose NdtSlamAlgortihm::update(const Transform &motion,
     // scan-matching failed, use odometry
     // do not merge in scan - avoiding problems whit bad local map
     // position_ = position_ * motion;
-    updateGraph(motion, Covar::Identity() * 100, pcl, update_time);
+    updateGraph(odometry, Covar::Identity() * 100, pcl, update_time);
   }
   // unused_trans_.setIdentity();
   return eigt::getPoseFromTransform(position_);
-- 
2.43.0


From 59e8a899288e0ccda00d4596bec8e9d1ad8cdf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:31 +0000
Subject: [PATCH 43/51] fix: NdtSlamAlgortihm traces scans of a frame from
 where the sensor was

---
 ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
index 318cff8..ca014fd 100644
--- a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
+++ b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
@@ -359,10 +359,8 @@ void NdtSlamAlgortihm::updateGraph(const Transform &increase,
     // pose graph
 
     position_ = position_ * increase;
-    PointCloud pcl_out;
-    pcl::transformPointCloud(new_scan, pcl_out,
-                             eigt::convertFromTransform(transform_temp_));
-    frame_temp_->mergeInTraced(pcl_out, frame_temp_->getOrigin(), true);
+    frame_temp_->mergeInTraced(new_scan, eigt::getPoseFromTransform(position_),
+                               true);
   }
 
   // std::cout << "position: " <<
-- 
2.43.0


From 10dcee42a8830980bd337fafb03b113b2b7b53a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:15 +0000
Subject: [PATCH 44/51] fix: NdtSlamAlgortihm does not count a motion twice
 after a failed registration

---
 ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
index ca014fd..f9afb9a 100644
--- a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
+++ b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
@@ -288,6 +288,10 @@ NdtSlamAlgortihm::Pose NdtSlamAlgortihm::update(const Transform &motion,
     // do not merge in scan - avoiding problems whit bad local map
     // position_ = position_ * motion;
     updateGraph(odometry, Covar::Identity() * 100, pcl, update_time);
+    // next registration starts from the pose given by odometry
+    position_cumul_ = position_cumul_ * odometry;
+    last_matcher_pose_ = eigt::getPoseFromTransform(
+        eigt::getTransFromPose(last_matcher_pose_) * odometry);
   }
   // unused_trans_.setIdentity();
   return eigt::getPoseFromTransform(position_);
-- 
2.43.0


From 2db9f904ed1c5fba53855d20236a7152c70e81f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 45/51] fix: map to odometry transform of the node starts as
 the identity

---
 ndt_gslam/src/graph_slam2d_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/src/graph_slam2d_node.cpp b/ndt_gslam/src/graph_slam2d_node.cpp
index 61fb540..ce35099 100644
--- a/ndt_gslam/src/graph_slam2d_node.cpp
+++ b/ndt_gslam/src/graph_slam2d_node.cpp
@@ -12,7 +12,7 @@ GraphSlamNode::GraphSlamNode(ros::NodeHandle &n, ros::NodeHandle &n_private,
   , last_pose_(pose_t::Zero())
   , odom_sync_(OdomSyncPolicy(10))
   , pose_sync_(PoseSyncPolicy(10))
-  // , world_tf_trans_()
+  , world_tf_trans_(tf::Transform::getIdentity())
   , seq_(0)
   , is_ready_(false)
 {
-- 
2.43.0


From ca217032398ef428d79417c2fb91d3c4185f321c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 46/51] fix: node sends the map to odometry transform that
 belongs to the first scan

---
 ndt_gslam/src/graph_slam2d_node.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/src/graph_slam2d_node.cpp b/ndt_gslam/src/graph_slam2d_node.cpp
index ce35099..e77eff5 100644
--- a/ndt_gslam/src/graph_slam2d_node.cpp
+++ b/ndt_gslam/src/graph_slam2d_node.cpp
@@ -230,8 +230,9 @@ void GraphSlamNode::doAlgorithm(const ros::Time &time_stamp, const pose_t &odom,
   if (!is_ready_) {
     is_ready_ = true;
     last_odom_ = odom;
-    last_pose_ = pose_t::Zero();
-    algorithm_->update(transform_t::Identity(), covar, *pcl, time_stamp);
+    last_pose_ =
+        algorithm_->update(transform_t::Identity(), covar, *pcl, time_stamp);
+    updateTFTrans(odom, last_pose_);
     publishTF(time_stamp);
     return;
   }
-- 
2.43.0


From 5f081eef45cd21057193e631daac86ac02f59367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 47/51] fix: nearest cells are found when rounding moves their
 mean over a border

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 21 ++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index ae33fce..6c4233a 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -10,6 +10,7 @@
 #include <pcl/point_cloud.h>
 #include <pcl/point_types.h>
 #include <boost/shared_ptr.hpp>
+#include <algorithm>
 
 namespace slamuk
 {
@@ -976,9 +977,25 @@ NDTGrid2D<CellType, PointType>::getKNearestNeighborsKDTree(
   std::vector<int> res_indexes;
   std::vector<float> distances;
   kdtree_.nearestKSearch(point, K, res_indexes, distances);
+  // means are kept as floats and the rounding may have moved a mean over the
+  // border of its cell. Cell is therefore searched also behind the borders.
+  const float steps[] = {0, -cell_size_ / 2, cell_size_ / 2};
   for (int id : res_indexes) {
-    PointType near_pt = means_->at(id);
-    res.push_back(grid_.getCellPtr(Eigen::Vector2d(near_pt.x, near_pt.y)));
+    const PointType &near_pt = means_->at(id);
+    CellType *found = nullptr;
+    for (size_t i = 0; i < 9 && found == nullptr; ++i) {
+      Eigen::Vector2d place(near_pt.x + steps[i % 3], near_pt.y + steps[i / 3]);
+      if (!grid_.cellExists(place))
+        continue;
+      CellType *cell = grid_.getCellPtr(place);
+      if (cell->hasGaussian() &&
+          static_cast<float>(cell->getMean()(0)) == near_pt.x &&
+          static_cast<float>(cell->getMean()(1)) == near_pt.y &&
+          std::find(res.begin(), res.end(), cell) == res.end())
+        found = cell;
+    }
+    if (found != nullptr)
+      res.push_back(found);
   }
   return res;
 }
-- 
2.43.0


From 56a8edcee08156979ba3b88808bcae615d559c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 48/51] fix: mixture edges in space start without a best
 component

---
 ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
index b7939fd..1fcf4fa 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
@@ -40,7 +40,7 @@ using namespace std;
 EdgeSE3Mixture::EdgeSE3Mixture() : g2o::EdgeSE3::EdgeSE3()
 {
   numberComponents = 0;
-  int bestComponent = -1;
+  bestComponent = -1;
 }
 
 EdgeSE3Mixture::~EdgeSE3Mixture()
-- 
2.43.0


From 4228b00f252d64ac554c3870d02d52637deb82bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 49/51] fix: mixture edges in space drop old components when
 they are set again

---
 ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
index 1fcf4fa..d509c62 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
@@ -61,6 +61,7 @@ void EdgeSE3Mixture::initializeComponents(std::vector<g2o::EdgeSE3*>& _edges,
   this->weights = _weights;
   // UpdateBelief(0);
   numberComponents = _edges.size();
+  determinants.clear();
   for (unsigned int i = 0; i < numberComponents; i++)
     determinants.push_back(allEdges[i]->information().inverse().determinant());
 
@@ -128,6 +129,9 @@ bool EdgeSE3Mixture::read(std::istream& is)
 {
   is >> numberComponents;
 
+  allEdges.clear();
+  weights.clear();
+  determinants.clear();
   allEdges.reserve(numberComponents);
   weights.reserve(numberComponents);
   determinants.reserve(numberComponents);
-- 
2.43.0


From d67d876e6521dd583dd516f2536990a30adc4b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 50/51] fix: mixture edges in space are registered under a name
 without blanks

---
 ndt_gslam/src/slam_optimizer/max_mixture/types_g2o_mixture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/types_g2o_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/types_g2o_mixture.cpp
index f8029ec..d2ba04c 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/types_g2o_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/types_g2o_mixture.cpp
@@ -46,7 +46,7 @@ void init_types_mixture(void)
 
 G2O_REGISTER_TYPE(EDGE_SE2_MIXTURE, EdgeSE2Mixture);
 G2O_REGISTER_TYPE(EDGE_SE2_XY_MIXTURE, EdgeSE2PointXYMixture);
-G2O_REGISTER_TYPE(EDGE_SE3 : QUAT_MIXTURE, EdgeSE3Mixture);
+G2O_REGISTER_TYPE(EDGE_SE3:QUAT_MIXTURE, EdgeSE3Mixture);
 
 #ifdef G2O_HAVE_OPENGL
 G2O_REGISTER_ACTION(EdgeSE2MixtureDrawAction);
-- 
2.43.0


From 2b2b6af352eb4fc1b39a2cb028e74d758cb13302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 51/51] fix: switchable edges in space can be constructed

---
 .../switchable_constraints/edge_se3Switchable.h             | 2 ++
 .../switchable_constraints/edge_se3Switchable.cpp           | 6 +++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/edge_se3Switchable.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/edge_se3Switchable.h
index c95ae67..34be2f2 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/edge_se3Switchable.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/edge_se3Switchable.h
@@ -17,6 +17,8 @@
 
 class EdgeSE3Switchable : public g2o::BaseMultiEdge<6, Eigen::Isometry3d>
 {
+  typedef g2o::BaseMultiEdge<6, Eigen::Isometry3d> Base;
+
 public:
   EdgeSE3Switchable();
 
diff --git a/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_se3Switchable.cpp b/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_se3Switchable.cpp
index 368f6bc..2d0a494 100644
--- a/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_se3Switchable.cpp
+++ b/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_se3Switchable.cpp
@@ -23,9 +23,9 @@ EdgeSE3Switchable::EdgeSE3Switchable()
   : g2o::BaseMultiEdge<6, Eigen::Isometry3d>()
 {
   resize(3);
-  _jacobianOplus[0].resize(6, 6);
-  _jacobianOplus[1].resize(6, 6);
-  _jacobianOplus[2].resize(6, 1);
+  new (&_jacobianOplus[0]) Base::JacobianType(nullptr, 6, 6);
+  new (&_jacobianOplus[1]) Base::JacobianType(nullptr, 6, 6);
+  new (&_jacobianOplus[2]) Base::JacobianType(nullptr, 6, 1);
 }
 // ================================================
 bool EdgeSE3Switchable::read(std::istream& is)
-- 
2.43.0

