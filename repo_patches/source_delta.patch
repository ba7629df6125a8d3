From cc325ea02632931833e23b0d7357e6cc86cb48a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:54 +0000
Subject: [PATCH 01/23] fix: loosely_guess_shape wrote out of bounds when the
 allowed shape is undefined

---
 app/tenncor/src/tensor/tensor.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/app/tenncor/src/tensor/tensor.ipp b/app/tenncor/src/tensor/tensor.ipp
index 5cb649c..c75e0ab 100644
--- a/app/tenncor/src/tensor/tensor.ipp
+++ b/app/tenncor/src/tensor/tensor.ipp
@@ -294,6 +294,11 @@ optional<tensorshape> tensor<T>::loosely_guess_shape(const std::vector<T>& data)
 		}
 		return bestshape;
 	}
+	// if allowed is undefined
+	if (false == allowed_shape_.is_part_defined())
+	{
+		return tensorshape({ndata});
+	}
 	std::vector<size_t> my_shape = allowed_shape_.as_list();
 	size_t first_undef = my_shape.size();
 	size_t known = 1;
-- 
2.43.0


From aea86b268340ef3996d96552d0a35f4846fca38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 02/23] fix: unary plus is documented as absolute value but
 passed negative elements and gradients through

---
 app/tenncor/src/graph/operations/elementary.ipp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 17caa94..493e4ac 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -461,12 +461,16 @@ varptr<T> operator + (const varptr<T> a)
 		assert(1 == src.size());
 		size_t n_elems = shape.outs_.n_elems();
 		std::transform(src[0], src[0] + n_elems, dest,
-		[](const T data) { return +data; });
+		[](const T data) { return std::abs(data); });
 	}),
 	[](std::vector<std::pair<inode<T>*,inode<T>*> > args)
 	{
+		// abs'(f(x)) = f'(x)*sign(f(x))
+		varptr<T> a = args.front().first;
 		varptr<T> grad = args.front().second;
-		return +grad;
+		varptr<T> pos = conditional<T>(a, (T) 0, [](T left, T right) { return left > right; }, "gt");
+		varptr<T> neg = conditional<T>(a, (T) 0, [](T left, T right) { return left < right; }, "lt");
+		return grad * (pos - neg);
 	}, opname);
 	out->extract_metadata(a.get());
 	return out;
-- 
2.43.0


From 9b881098f8595b9043fc4f53fbb93de4fb3df313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:03 +0000
Subject: [PATCH 03/23] fix: formatted labels of distinct scalars collided,
 returning a node computing something else

---
 app/tenncor/src/utils/utils.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/utils/utils.cpp b/app/tenncor/src/utils/utils.cpp
index 1b26582..9a41e5b 100644
--- a/app/tenncor/src/utils/utils.cpp
+++ b/app/tenncor/src/utils/utils.cpp
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <limits>
 
 #include "utils/utils.hpp"
 
@@ -7,7 +8,11 @@
 namespace nnutils
 {
 
-formatter::formatter (void) {}
+formatter::formatter (void)
+{
+	// distinct values must format differently, since nodes are identified by formatted labels
+	stream_.precision(std::numeric_limits<double>::max_digits10);
+}
 
 formatter::~formatter (void) {}
 
-- 
2.43.0


From 65c5426c7f11314358363e9e5fb76e6f6083cd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:28 +0000
Subject: [PATCH 04/23] fix: comparing scalar to node and node to scalar shared
 one label, so one returned the other's node

---
 app/tenncor/src/graph/operations/elementary.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 493e4ac..f9419c1 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1105,7 +1105,7 @@ varptr<T> conditional (T a, const varptr<T> b, std::function<bool(T,T)> compare,
 		}
 		return constant<T>::get(bcvec, bconst->get_shape());
 	}
-	std::string opname = nnutils::formatter() << "conditional_" << name << "_" << a;
+	std::string opname = nnutils::formatter() << "conditional_" << a << "_" << name;
 	if (inode<T>* parent = unary_parent_search(b.get(), opname))
 	{
 		return parent;
-- 
2.43.0


From db82eabf5fcb1916f4e5a27813db3f5a508e80d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 05/23] fix: clipping the norm of a node returned the clipped
 node itself

---
 app/tenncor/src/graph/operations/elementary.ipp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index f9419c1..bf47afd 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1064,11 +1064,13 @@ varptr<T> clip_norm (const varptr<T> a, T cap)
 		return constant<T>::get(acvec, aconst->get_shape());
 	}
 	std::string opname = nnutils::formatter() << "clip_l2norm_" << cap;
-	if (inode<T>* parent = unary_parent_search(a.get(), opname))
+	varptr<T> norm = l2norm(a);
+	// the norm node also has the clipped node in its audience, so look for both arguments
+	if (inode<T>* parent = ordered_binary_parent_search(norm.get(), a.get(), opname))
 	{
 		return parent;
 	}
-	varptr<T> out = immutable<T>::get(std::vector<inode<T>*>{l2norm(a), a},
+	varptr<T> out = immutable<T>::get(std::vector<inode<T>*>{norm, a},
 	elementary_shaper,
 	new transfer_func<T>(
 	[cap](T* dest, std::vector<const T*> srcs, shape_io shapes)
-- 
2.43.0


From c83c2e6ac042a72b98328d38ca26ccfcd2586b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:08 +0000
Subject: [PATCH 06/23] fix: destroying an observer whose last subject is
 followed by empty positions threw

---
 app/tenncor/src/graph/react/iobserver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/react/iobserver.cpp b/app/tenncor/src/graph/react/iobserver.cpp
index 5e9ca90..c53da40 100644
--- a/app/tenncor/src/graph/react/iobserver.cpp
+++ b/app/tenncor/src/graph/react/iobserver.cpp
@@ -15,8 +15,8 @@ namespace nnet
 
 iobserver::~iobserver (void)
 {
-	size_t ndeps = dependencies_.size();
-	for (size_t i = 0; i < ndeps; i++)
+	// removing the last subject also drops the empty positions behind it
+	for (size_t i = 0; i < dependencies_.size(); i++)
 	{
 		remove_dependency(i);
 	}
-- 
2.43.0


From e92745e24ac60a47d1e32c2b6ea553ff15a45990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:14 +0000
Subject: [PATCH 07/23] fix: destroying a node with a pending update left the
 graph holding a dangling pointer

---
 app/tenncor/src/graph/connector/iconnector.ipp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index f8ef05f..0b3dc07 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -380,6 +380,17 @@ struct iconnector<T>::graph_manager
 	void suicide (iconnector<T>* user)
 	{
 		users_.erase(user);
+		// a user that leaves takes its pending update with it
+		if (0 < update_map_.erase(user))
+		{
+			decltype(updates_) pending;
+			while (false == updates_.empty())
+			{
+				if (user != updates_.top()) pending.push(updates_.top());
+				updates_.pop();
+			}
+			updates_.swap(pending);
+		}
 		if (users_.empty()) delete this;
 	}
 
-- 
2.43.0


From 3513d2e39b1185ad95d782be6dba009765037a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:24 +0000
Subject: [PATCH 08/23] fix: a copied node missed the update pending at its
 original

---
 app/tenncor/include/graph/connector/iconnector.hpp |  3 +++
 app/tenncor/src/graph/connector/iconnector.ipp     | 12 ++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/include/graph/connector/iconnector.hpp b/app/tenncor/include/graph/connector/iconnector.hpp
index 5eef3f9..b74bfd6 100644
--- a/app/tenncor/include/graph/connector/iconnector.hpp
+++ b/app/tenncor/include/graph/connector/iconnector.hpp
@@ -145,6 +145,9 @@ protected:
 	graph_manager* g_man_ = nullptr;
 
 private:
+	//! run pending updates, so that this can be copied or moved
+	void settle (void) const;
+
 	void copy_helper (const iconnector<T>& other);
 
 	void move_helper (iconnector<T>&& other);
diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index 0b3dc07..bb34094 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -50,6 +50,7 @@ iconnector<T>& iconnector<T>::operator = (const iconnector<T>& other)
 {
 	if (this != &other)
 	{
+		other.settle();
 		iobserver::operator = (other);
 		inode<T>::operator = (other);
 		copy_helper(other);
@@ -62,6 +63,7 @@ iconnector<T>& iconnector<T>::operator = (iconnector<T>&& other)
 {
 	if (this != &other)
 	{
+		other.settle();
 		iobserver::operator = (std::move(other));
 		inode<T>::operator = (std::move(other));
 		move_helper(std::move(other));
@@ -236,7 +238,7 @@ iconnector<T>::iconnector (std::vector<inode<T>*> dependencies, std::string labe
 
 template <typename T>
 iconnector<T>::iconnector (const iconnector<T>& other) :
-	inode<T>(other),
+	inode<T>((other.settle(), other)),
 	iobserver(other)
 {
 	copy_helper(other);
@@ -244,7 +246,7 @@ iconnector<T>::iconnector (const iconnector<T>& other) :
 
 template <typename T>
 iconnector<T>::iconnector (iconnector<T>&& other) :
-	inode<T>(std::move(other)),
+	inode<T>((other.settle(), std::move(other))),
 	iobserver(std::move(other))
 {
 	move_helper(std::move(other));
@@ -295,6 +297,12 @@ varptr<T> iconnector<T>::jacobian_call (varptr<T> out, variable<T>* leaf) const
 	return out;
 }
 
+template <typename T>
+void iconnector<T>::settle (void) const
+{
+	if (g_man_) g_man_->update();
+}
+
 template <typename T>
 void iconnector<T>::copy_helper (const iconnector<T>& other)
 {
-- 
2.43.0


From 340f9340f84b3a427f2218f82d32cc884a2dacc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:34 +0000
Subject: [PATCH 09/23] fix: a copied node forgot its depth, so its dependents
 were updated before it

---
 app/tenncor/src/graph/connector/iconnector.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index bb34094..55351a3 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -306,6 +306,7 @@ void iconnector<T>::settle (void) const
 template <typename T>
 void iconnector<T>::copy_helper (const iconnector<T>& other)
 {
+	depth_ = other.depth_;
 	jacobians_ = other.jacobians_;
 	jacobian_correction(&other);
 	// this copies other's dependencies so, this and other share a graph
@@ -316,6 +317,7 @@ void iconnector<T>::copy_helper (const iconnector<T>& other)
 template <typename T>
 void iconnector<T>::move_helper (iconnector<T>&& other)
 {
+	depth_ = other.depth_;
 	jacobians_ = std::move(other.jacobians_);
 	jacobian_correction(&other);
 	// this copies other's dependencies so, this and other share a graph
-- 
2.43.0


From f33eca110061eee753b9732ea59ea9cf48db8749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:38 +0000
Subject: [PATCH 10/23] fix: adding or subtracting zero ignored the request to
 notify

---
 app/tenncor/src/graph/leaf/variable.ipp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/leaf/variable.ipp b/app/tenncor/src/graph/leaf/variable.ipp
index c28ddc5..7b51c2b 100644
--- a/app/tenncor/src/graph/leaf/variable.ipp
+++ b/app/tenncor/src/graph/leaf/variable.ipp
@@ -125,7 +125,13 @@ variable_updater<T> variable<T>::assign_add (inode<T>* input) const
 	{
 		if (*con == (T)0)
 		{
-			return [](bool) {};
+			return [this](bool notify)
+			{
+				if (notify)
+				{
+					this->notify(notification::UPDATE);
+				}
+			};
 		}
 		std::vector<T> data = expose<T>(con);
 		return [this, data](bool notify)
@@ -162,7 +168,13 @@ variable_updater<T> variable<T>::assign_sub (inode<T>* input) const
 	{
 		if (*con == (T)0)
 		{
-			return [](bool) {};
+			return [this](bool notify)
+			{
+				if (notify)
+				{
+					this->notify(notification::UPDATE);
+				}
+			};
 		}
 		std::vector<T> data = expose<T>(con);
 		return [this, data](bool notify)
-- 
2.43.0


From e6c8f1da8e65616e0949db21e4d422327a28640f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:37 +0000
Subject: [PATCH 11/23] fix: an update that threw was forgotten, leaving its
 node stale for good

---
 app/tenncor/src/graph/connector/iconnector.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index 55351a3..1000ba4 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -439,11 +439,12 @@ struct iconnector<T>::graph_manager
 		{
 			iconnector<T>* iconn = updates_.top();
 			auto updater = update_map_[iconn];
-			updates_.pop();
+			// an update that throws stays pending
 			updater();
+			updates_.pop();
+			update_map_.erase(iconn);
 			iconn->notify(UPDATE);
 		}
-		update_map_.clear();
 	}
 
 	bool freeze_ = false;
-- 
2.43.0


From 21f2c84c6d69cf68ae66d4fe555e1f4934c7067b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:38 +0000
Subject: [PATCH 12/23] fix: transposing with an axis beyond the rank left the
 result unwritten or in the wrong order

---
 .../src/graph/operations/transform.ipp        | 23 ++++---------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index 6e8095e..220132a 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -57,26 +57,13 @@ varptr<T> transpose (const varptr<T> a, std::pair<size_t,size_t> axis_swap)
 	{
 		assert(1 == src.size());
 		size_t n_elems = shape.outs_.n_elems();
-		size_t rank = shape.ins_[0].rank();
-		if (axis_swap.first >= rank)
-		{
-			return;
-		}
 		std::vector<size_t> coords;
-		if (axis_swap.second >= rank)
-		{
-			// we're transposing with a previously non-existent dimension,
-			// so there is a 1-1 correspondence between src and dest
-			std::memcpy(dest, src[0], n_elems * sizeof(T));
-		}
-		else
+		for (size_t i = 0; i < n_elems; i++)
 		{
-			for (size_t i = 0; i < n_elems; i++)
-			{
-				coords = shape.outs_.coordinate_from_idx(i);
-				std::swap(coords[axis_swap.first], coords[axis_swap.second]);
-				dest[i] = src[0][shape.ins_[0].flat_idx(coords)];
-			}
+			// coordinates of dimensions src does not have are 0 and ignored by flat_idx
+			coords = shape.outs_.coordinate_from_idx(i);
+			std::swap(coords[axis_swap.first], coords[axis_swap.second]);
+			dest[i] = src[0][shape.ins_[0].flat_idx(coords)];
 		}
 	}),
 	[axis_swap](std::vector<std::pair<inode<T>*,inode<T>*> > args)
-- 
2.43.0


From 350f7bbddba70caf1c6fa05e020cab4eeba249d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:38 +0000
Subject: [PATCH 13/23] fix: extending along a dimension the input lacks read
 out of bounds

---
 app/tenncor/src/graph/operations/transform.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index 220132a..b47acc3 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -159,7 +159,7 @@ varptr<T> extend (const varptr<T> a, size_t index, size_t multiplier)
 	{
 		assert(1 == src.size());
 		size_t n_elems = shape.outs_.n_elems();
-		size_t dim = shape.ins_[0].as_list()[index];
+		size_t dim = index < shape.ins_[0].rank() ? shape.ins_[0].as_list()[index] : 1;
 		std::vector<size_t> coords;
 		for (size_t i = 0; i < n_elems; i++)
 		{
-- 
2.43.0


From 7c3569dd8c9ac39e43581d5694b30f9a21e3b934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:38 +0000
Subject: [PATCH 14/23] fix: flipping a dimension the input lacks accessed
 memory out of bounds

---
 app/tenncor/src/graph/operations/transform.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index b47acc3..eb9d1ea 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -477,7 +477,10 @@ varptr<T> flip (const varptr<T> a, std::vector<size_t> dims)
 			std::vector<size_t> coord = shape.outs_.coordinate_from_idx(i);
 			for (size_t d : dims)
 			{
-				coord[d] = outlist[d] - coord[d] - 1;
+				if (d < coord.size())
+				{
+					coord[d] = outlist[d] - coord[d] - 1;
+				}
 			}
 			dest[i] = src[0][shape.ins_[0].flat_idx(coord)];
 		}
-- 
2.43.0


From 9a5888291a4462fa10943b568be29a6edfb8c85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:38 +0000
Subject: [PATCH 15/23] fix: averaging over a dimension the input lacks divided
 by a value read out of bounds

---
 app/tenncor/src/graph/operations/transform.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index eb9d1ea..ba6a0f6 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -323,7 +323,8 @@ varptr<T> reduce_mean (const varptr<T> a, optional<size_t> dimension)
 		denom = shape_dep<T>::get({ a },
 		[dimension](tensorshape& s) -> std::vector<size_t>
 		{
-			return { s.as_list()[*dimension] };
+			// reducing along a dimension s does not have leaves the elements as they are
+			return { *dimension < s.rank() ? s.as_list()[*dimension] : 1 };
 		}, std::vector<size_t>{1},
 		nnutils::formatter() << "axis_" << *dimension << "_size");
 	}
-- 
2.43.0


From ccf8be1cda8e750fb10b6f16597e7b560f1b7209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:38 +0000
Subject: [PATCH 16/23] fix: arg_compress over all elements declared more
 elements than it computes

---
 app/tenncor/src/graph/operations/transform.ipp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index ba6a0f6..9f91fb9 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -411,10 +411,7 @@ varptr<T> arg_compress (const varptr<T> a, REDUCE<T> search,
 	}
 	else
 	{
-		shaper = [](std::vector<tensorshape> inshapes) -> tensorshape
-		{
-			return std::vector<size_t>{inshapes[0].rank()};
-		};
+		shaper = [](std::vector<tensorshape>) -> tensorshape { return std::vector<size_t>{1}; };
 		// scalar shape
 		forward = new transfer_func<T>(
 		[search](T* dest, std::vector<const T*> src, shape_io shape)
-- 
2.43.0


From 82a0c58091f754f30f8eb8a92f4ea5774744d420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:38 +0000
Subject: [PATCH 17/23] fix: axial operation along axis 0 read out of bounds
 when the first extents agree

---
 app/tenncor/src/graph/operations/elementary.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index bf47afd..88195d2 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -134,10 +134,12 @@ static TRANSFER_FUNC<T> binary_axial (AGGREGATE<T> aggregate, size_t axis, bool
 		}
 		else
 		{
+			// the axial operand lacks the first dimension
+			bool pop_front = axis == 0 && shapes.ins_[idx].n_elems() < n_elems;
 			for (size_t i = 0; i < n_elems; i++)
 			{
 				size_t axis_idx = i;
-				if (axis == 0 && ilist[axis] != olist[axis])
+				if (pop_front)
 				{
 					std::vector<size_t> coords = shapes.outs_.coordinate_from_idx(i);
 					if (ilist[axis] != olist[axis+1])
-- 
2.43.0


From c3efd2c0c93316addf00e7ac8993cf3e6ef2b895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:38 +0000
Subject: [PATCH 18/23] fix: matmul accepted a higher-rank operand with a
 matrix and read out of bounds

---
 app/tenncor/src/graph/operations/matmul.ipp | 26 ++++++++++-----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/app/tenncor/src/graph/operations/matmul.ipp b/app/tenncor/src/graph/operations/matmul.ipp
index 158b380..ab07002 100644
--- a/app/tenncor/src/graph/operations/matmul.ipp
+++ b/app/tenncor/src/graph/operations/matmul.ipp
@@ -205,19 +205,19 @@ static inline tensorshape matmul_shaper (std::vector<tensorshape> shapes)
 			print_shape(t2s, ss);
 			throw std::logic_error(ss.str());
 		}
-		// check that remaining shape values are ones,
-		// otherwise one shape is larger than the other
-		auto it = rank1 > rank2 ? al.begin() : bl.begin();
-		auto et = rank1 > rank2 ? al.end() : bl.end();
-		if (!std::all_of(it + minend, et, [](size_t e) { return e == 1; }))
-		{
-			std::stringstream ss;
-			ss << "attempting to matrix multiple different sized shapes ";
-			print_shape(t1s, ss);
-			ss << " and ";
-			print_shape(t2s, ss);
-			throw std::logic_error(ss.str());
-		}
+	}
+	// check that remaining shape values are ones,
+	// otherwise one shape is larger than the other
+	std::vector<size_t>& larger = rank1 > rank2 ? al : bl;
+	size_t mat_end = std::min(larger.size(), std::max<size_t>(minend, 2));
+	if (!std::all_of(larger.begin() + mat_end, larger.end(), [](size_t e) { return e == 1; }))
+	{
+		std::stringstream ss;
+		ss << "attempting to matrix multiple different sized shapes ";
+		print_shape(t1s, ss);
+		ss << " and ";
+		print_shape(t2s, ss);
+		throw std::logic_error(ss.str());
 	}
 
 	// get resulting shape
-- 
2.43.0


From 4ef98631794ebe8988504169d2809e118baf517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:38 +0000
Subject: [PATCH 19/23] fix: the moving average of RMS propagation never moved
 past its first step

---
 app/tenncor/src/utils/gd_utils.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/app/tenncor/src/utils/gd_utils.cpp b/app/tenncor/src/utils/gd_utils.cpp
index 2da02d5..d942039 100644
--- a/app/tenncor/src/utils/gd_utils.cpp
+++ b/app/tenncor/src/utils/gd_utils.cpp
@@ -226,10 +226,16 @@ variable_updater<double> rmspropupdater::process_update (varptr<double>& gres,
 	varptr<double> leaf_step = dres * learning_rate_ / (sqrt<double>(momentum_step) + epsilon_);
 	auto momentum_update = momentum->assign(momentum_step);
 	auto leaf_update = leaf->assign_sub(leaf_step);
-	return [momentum_update, leaf_update, momentum, dres, leaf_step](bool notify)
+	return [momentum_update, leaf_update, leaf, momentum, dres, leaf_step](bool notify)
 	{
-		momentum_update(false);
-		leaf_update(notify);
+		// both steps are taken before either variable notifies
+		leaf_update(false);
+		// the next step depends on the updated momentum
+		momentum_update(true);
+		if (notify)
+		{
+			leaf->notify(notification::UPDATE);
+		}
 	};
 }
 
-- 
2.43.0


From 5bf4d567d48ee2eb291d230426259e4144cb69d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:38 +0000
Subject: [PATCH 20/23] fix: reading a message wrote past the storage or
 aborted when data or shapes disagree

---
 app/tenncor/src/tensor/tensor.ipp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/app/tenncor/src/tensor/tensor.ipp b/app/tenncor/src/tensor/tensor.ipp
index c75e0ab..88292df 100644
--- a/app/tenncor/src/tensor/tensor.ipp
+++ b/app/tenncor/src/tensor/tensor.ipp
@@ -517,17 +517,17 @@ bool tensor<T>::from_proto (const tenncor::tensor_proto& other)
 {
 	std::string protostr = other.data();
 	const char* protoraw = protostr.c_str();
-	// shapes must have same dimensionality... (otherwise, input data is definitely corrupt)
-	assert(other.alloc_shape_size() == other.allow_shape_size());
 	std::vector<size_t> allow(other.allow_shape().begin(), other.allow_shape().end());
 	std::vector<size_t> alloc(other.alloc_shape().begin(), other.alloc_shape().end());
-	allowed_shape_ = tensorshape(allow);
+	tensorshape temp_allowed_shape(allow);
 	tensorshape temp_alloc_shape(alloc);
-	// another sanity check, be less stringent, since this may represent some less evident issue
-	if (false == temp_alloc_shape.is_compatible_with(allowed_shape_) ||
-		false == temp_alloc_shape.is_fully_defined()) return false;
+	// sanity check, the ranks may differ since the allowed shape can be undefined or padded
+	if (false == temp_alloc_shape.is_compatible_with(temp_allowed_shape) ||
+		false == temp_alloc_shape.is_fully_defined() ||
+		protostr.size() != temp_alloc_shape.n_elems() * sizeof(T)) return false;
 
 	deallocate();
+	allowed_shape_ = temp_allowed_shape;
 	alloc_shape_ = temp_alloc_shape;
 	assert(allocate());
 
-- 
2.43.0


From 3d2bfdb61f9245c7f8661188c783209f46731a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:14 +0000
Subject: [PATCH 21/23] fix: Boltzmann machine copies forgot the hidden size
 and assignment did nothing

---
 app/rocnnet/src/models/rbm.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/app/rocnnet/src/models/rbm.cpp b/app/rocnnet/src/models/rbm.cpp
index 10052e8..e542eb6 100644
--- a/app/rocnnet/src/models/rbm.cpp
+++ b/app/rocnnet/src/models/rbm.cpp
@@ -48,7 +48,7 @@ rbm* rbm::move (void)
 
 rbm& rbm::operator = (const rbm& other)
 {
-	if (this == &other)
+	if (this != &other)
 	{
 		ilayer::operator = (other);
 		clean_up();
@@ -59,7 +59,7 @@ rbm& rbm::operator = (const rbm& other)
 
 rbm& rbm::operator = (rbm&& other)
 {
-	if (this == &other)
+	if (this != &other)
 	{
 		ilayer::operator = (std::move(other));
 		clean_up();
@@ -209,6 +209,7 @@ ilayer* rbm::move_impl (void)
 void rbm::copy_helper (const rbm& other)
 {
 	n_input_ = other.n_input_;
+	n_hidden_ = other.n_hidden_;
 	weight_ = other.weight_->clone();
 	hbias_ = other.hbias_->clone();
 	vbias_ = other.vbias_->clone();
@@ -217,6 +218,7 @@ void rbm::copy_helper (const rbm& other)
 void rbm::move_helper (rbm&& other)
 {
 	n_input_ = std::move(other.n_input_);
+	n_hidden_ = std::move(other.n_hidden_);
 	weight_ = other.weight_->move();
 	hbias_ = other.hbias_->move();
 	vbias_ = other.vbias_->move();
-- 
2.43.0


From b68c2ecaeb607aaff98baeecd6646086000c18b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:14 +0000
Subject: [PATCH 22/23] fix: belief net copies and moves had no output layer

---
 app/rocnnet/src/models/db_net.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/app/rocnnet/src/models/db_net.cpp b/app/rocnnet/src/models/db_net.cpp
index c531ba3..392ad59 100644
--- a/app/rocnnet/src/models/db_net.cpp
+++ b/app/rocnnet/src/models/db_net.cpp
@@ -176,6 +176,7 @@ void db_net::copy_helper (const db_net& other)
 			nnutils::formatter() << scope_ << ":rbm_" << i);
 		layers_.push_back(rlayer);
 	}
+	log_layer_ = other.log_layer_->clone(scope_ + ":logres");
 }
 
 void db_net::move_helper (db_net&& other)
@@ -184,6 +185,8 @@ void db_net::move_helper (db_net&& other)
 	n_input_ = std::move(other.n_input_);
 	n_output_ = std::move(other.n_output_);
 	layers_ = std::move(other.layers_);
+	log_layer_ = std::move(other.log_layer_);
+	other.log_layer_ = nullptr;
 }
 
 void db_net::clean_up (void)
-- 
2.43.0


From ba4e31368e618391e281af61314baba7ee393e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:22 +0000
Subject: [PATCH 23/23] fix: set_allocator left existing storage to an
 allocator that does not own it

---
 app/tenncor/src/tensor/tensor.ipp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/app/tenncor/src/tensor/tensor.ipp b/app/tenncor/src/tensor/tensor.ipp
index 88292df..f4775a5 100644
--- a/app/tenncor/src/tensor/tensor.ipp
+++ b/app/tenncor/src/tensor/tensor.ipp
@@ -385,6 +385,15 @@ void tensor<T>::set_allocator (size_t alloc_id)
 	if (iallocator* alloc =
 		alloc_builder::get_instance().get(alloc_id))
 	{
+		if (is_alloc() && alloc != alloc_)
+		{
+			// existing storage moves to the new allocator
+			size_t n = n_elems();
+			T* temp = alloc->template allocate<T>(n);
+			std::memcpy(temp, raw_data_, n * sizeof(T));
+			alloc_->dealloc(raw_data_, n);
+			raw_data_ = temp;
+		}
 		alloc_ = alloc;
 	}
 	else
-- 
2.43.0

