From 35f88aa48ea3e7c52e0f3df4fe29c597377476ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 001/185] fix: VartimeSFANode keeps the dtype of the node for
 time derivatives

---
 mdp/nodes/sfa_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/nodes/sfa_nodes.py b/mdp/nodes/sfa_nodes.py
index d610139..d221a58 100644
--- a/mdp/nodes/sfa_nodes.py
+++ b/mdp/nodes/sfa_nodes.py
@@ -525,7 +525,7 @@ class VartimeSFANode(SFANode):
             outlen = x.shape[0]-1  if self.tchunk == 0 or dt.shape[0] != x.shape[0] else x.shape[0]
         elif dt > 0:
             outlen = x.shape[0]  if self.tchunk > 0  and time_dep else x.shape[0]-1
-        out = numx.empty([outlen, x.shape[1]])
+        out = numx.empty([outlen, x.shape[1]], dtype=x.dtype)
 
         if dt is not None and type(dt) == numx.ndarray:
             # Improvements can be made, by interpolating polynomials
-- 
2.43.0


From 53290009a32c884deedfe552afa7b599a777c9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 002/185] fix: RecursiveExpansionNode accepts input_dim in the
 constructor

---
 mdp/nodes/recursive_expansion_nodes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/recursive_expansion_nodes.py b/mdp/nodes/recursive_expansion_nodes.py
index 1c2e382..f468036 100644
--- a/mdp/nodes/recursive_expansion_nodes.py
+++ b/mdp/nodes/recursive_expansion_nodes.py
@@ -500,11 +500,12 @@ class RecursiveExpansionNode(_ExpansionNode):
             Default is None.
         :type dtype: numpy.dtype or str
         """
-        super(RecursiveExpansionNode, self).__init__(input_dim, dtype)
-
+        # needed by expanded_dim, which is called as soon as input_dim is set
         self.degree = degree
         self.check = check
         self.with0 = with0
+        super(RecursiveExpansionNode, self).__init__(input_dim, dtype)
+
         # if in dictionary
         if recf in recfs:
                 # intialises the elements not based on recursion formula
-- 
2.43.0


From 8f7034181a93df19b599e44e696c71c72f12ac29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 003/185] fix: XSFANode accepts input_dim together with a
 smaller output_dim

---
 mdp/nodes/xsfa_nodes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdp/nodes/xsfa_nodes.py b/mdp/nodes/xsfa_nodes.py
index 7ba1950..45847f6 100644
--- a/mdp/nodes/xsfa_nodes.py
+++ b/mdp/nodes/xsfa_nodes.py
@@ -121,8 +121,10 @@ class XSFANode(mdp.Node):
         self._flow = None
         self.verbose = verbose
         self.svd = svd
-        super(XSFANode, self).__init__(input_dim=input_dim,
+        super(XSFANode, self).__init__(input_dim=None,
                                        output_dim=output_dim, dtype=dtype)
+        # input_dim is only the default value of output_dim: set it last
+        self.input_dim = input_dim
 
     @property
     def flow(self):
-- 
2.43.0


From 12a05bb3edfc2e15107d93997c4f52076adc274d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 004/185] fix: data rejected by a node does not fix its input
 dimension or dtype

---
 mdp/signal_node.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/mdp/signal_node.py b/mdp/signal_node.py
index 3cec90d..e3b1b20 100644
--- a/mdp/signal_node.py
+++ b/mdp/signal_node.py
@@ -472,24 +472,35 @@ class Node(with_metaclass(NodeMetaclass, object)):
             error_str = "x has rank %d, should be 2" % (x.ndim)
             raise NodeException(error_str)
 
-        # set the input dimension if necessary
-        if self.input_dim is None:
-            self.input_dim = x.shape[1]
-
-        # set the dtype if necessary
-        if self.dtype is None:
-            self.dtype = x.dtype
+        # all checks come first: data that is rejected must not fix the input
+        # dimension or the dtype of the node
+        if x.shape[0] == 0:
+            error_str = "x must have at least one observation (zero given)"
+            raise NodeException(error_str)
 
         # check the input dimension
-        if not x.shape[1] == self.input_dim:
+        if self.input_dim is not None and x.shape[1] != self.input_dim:
             error_str = "x has dimension %d, should be %d" % (x.shape[1],
                                                               self.input_dim)
             raise NodeException(error_str)
 
-        if x.shape[0] == 0:
-            error_str = "x must have at least one observation (zero given)"
+        # check the dtype
+        if (self.dtype is None and
+            numx.dtype(x.dtype) not in self.get_supported_dtypes()):
+            error_str = ("\ndtype '%s' is not supported.\n"
+                         "Supported dtypes: %s" %
+                         (x.dtype.name,
+                          [t.name for t in self.get_supported_dtypes()]))
             raise NodeException(error_str)
 
+        # set the input dimension if necessary
+        if self.input_dim is None:
+            self.input_dim = x.shape[1]
+
+        # set the dtype if necessary
+        if self.dtype is None:
+            self.dtype = x.dtype
+
     def _check_output(self, y):
         # check output rank
         if not y.ndim == 2:
-- 
2.43.0


From b3b5a098a9802ecaf819dee4827d0584b18ad83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 005/185] fix: NormalizingRecursiveExpansionNode leaves its
 input unchanged and can be copied and pickled

---
 mdp/nodes/recursive_expansion_nodes.py | 47 +++++++++++++-------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/mdp/nodes/recursive_expansion_nodes.py b/mdp/nodes/recursive_expansion_nodes.py
index f468036..a988af8 100644
--- a/mdp/nodes/recursive_expansion_nodes.py
+++ b/mdp/nodes/recursive_expansion_nodes.py
@@ -691,7 +691,7 @@ class NormalizingRecursiveExpansionNode(RecursiveExpansionNode):
             be along the first axis, variables along the second.
         :type x: numpy.ndarray
         """
-        self.domain_transformation(x)
+        x = self.domain_transformation(x)
         return super(NormalizingRecursiveExpansionNode, self)._execute(x)
 
     def _train(self, x):
@@ -733,30 +733,26 @@ class NormalizingRecursiveExpansionNode(RecursiveExpansionNode):
             than the ones already supplied during training.
         """
 
+        # the data is mapped to (x + shift) * scale
+        self._shift = 0.
+        self._scale = 1.
+
         # the following conditionals go through different domain types
         if self.lower is None or self.upper is None:
-            def f(x):
-                return x
+            pass
 
         elif self.lower == -float('Inf') and self.upper == float('Inf'):
-            def f(x):
-                return x
+            pass
 
         elif self.lower == -float('Inf'):
             self.diff = self.amaxcolumn-self.upper
             self.diff = self.diff.clip(min=0)
-
-            def f(x):
-                x -= self.diff
-                return x
+            self._shift = -self.diff
 
         elif self.upper == float('Inf'):
             self.diff = self.amincolumn-self.lower
             self.diff = self.diff.clip(max=0)
-
-            def f(x):
-                x -= self.diff
-                return x
+            self._shift = -self.diff
         else:
             mean = self.lower+(self.upper-self.lower)/2.0
             dev = (self.upper-self.lower)
@@ -768,18 +764,23 @@ class NormalizingRecursiveExpansionNode(RecursiveExpansionNode):
             datamean = (xmax+xmin)/2.
 
             if (xmax < self.upper) and (xmin > self.lower):
-                def f(x):
-                    return x
+                pass
             elif datamaxdev < dev:
-                def f(x):
-                    x += (-datamean)+mean
-                    return x
+                self._shift = (-datamean)+mean
             else:
-                def f(x):
-                    x += (-datamean)+mean*datamaxdev/dev
-                    x *= dev/datamaxdev
-                    return x
-        self.domain_transformation = f
+                self._shift = (-datamean)+mean*datamaxdev/dev
+                self._scale = dev/datamaxdev
+
+    def domain_transformation(self, x):
+        """Map the data to the domain of the family of functions.
+
+        :param x: The data, which is left unchanged.
+        :type x: numpy.ndarray
+
+        :returns: The transformed data.
+        :rtype: numpy.ndarray
+        """
+        return (x + self._shift) * self._scale
 
     @staticmethod
     def is_trainable():
-- 
2.43.0


From 2bdf34a1b167b30a6af4d414677eb0ba574e16f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 006/185] fix: data rejected by Convolution2DNode does not fix
 its shape, dimension or dtype

---
 mdp/nodes/convolution_nodes.py | 43 ++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/mdp/nodes/convolution_nodes.py b/mdp/nodes/convolution_nodes.py
index 0aa54a5..7f9bb9e 100644
--- a/mdp/nodes/convolution_nodes.py
+++ b/mdp/nodes/convolution_nodes.py
@@ -182,29 +182,36 @@ class Convolution2DNode(mdp.Node):
             error_str = "x has rank %d, should be 2 or 3" % (x.ndim)
             raise NodeException(error_str)
 
-        # set 2D shape if necessary
-        if self._input_shape is None:
-            if x.ndim == 2:
-                error_str = "Cannot infer 2D shape from 1D data points. " + \
-                            "Data must have rank 3, or shape argument given."
-                raise NodeException(error_str)
-            else:
-                self._input_shape = x.shape[1:]
-
-        # set the input dimension if necessary
-        if self.input_dim is None:
-            self.input_dim = numx.prod(self._input_shape)
+        # all checks come first: data that is rejected must not fix the shape,
+        # the input dimension or the dtype of the node
+        if x.shape[0] == 0:
+            error_str = "x must have at least one observation (zero given)"
+            raise NodeException(error_str)
 
-        # set the dtype if necessary
-        if self.dtype is None:
-            self.dtype = x.dtype
+        if self._input_shape is None and x.ndim == 2:
+            error_str = "Cannot infer 2D shape from 1D data points. " + \
+                        "Data must have rank 3, or shape argument given."
+            raise NodeException(error_str)
 
         # check the input dimension
-        if not numx.prod(x.shape[1:]) == self.input_dim:
+        if (self.input_dim is not None and
+            numx.prod(x.shape[1:]) != self.input_dim):
             error_str = "x has dimension %d, should be %d" % (x.shape[1],
                                                               self.input_dim)
             raise NodeException(error_str)
 
+        # set the dtype if necessary
+        if self.dtype is None:
+            self.dtype = x.dtype
+
+        # set 2D shape if necessary
+        if self._input_shape is None:
+            self._input_shape = x.shape[1:]
+
+        # set the input dimension if necessary
+        if self.input_dim is None:
+            self.input_dim = numx.prod(self._input_shape)
+
         # set output_dim if necessary
         if self.output_dim is None:
             input_shape = self.input_shape
@@ -219,10 +226,6 @@ class Convolution2DNode(mdp.Node):
                                       input_shape[1]-filters_shape[2]+1)
             self.output_dim = self.filters.shape[0]*numx.prod(self._output_shape)
 
-        if x.shape[0] == 0:
-            error_str = "x must have at least one observation (zero given)"
-            raise NodeException(error_str)
-
     def _execute(self, x):
         is_2d = x.ndim==2
         output_shape, input_shape = self._output_shape, self._input_shape
-- 
2.43.0


From 4ea375c529b5841c0423fcc7de856b06cdb30697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 007/185] fix: Cumulator nodes do not keep references to the
 training arrays

---
 mdp/signal_node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/signal_node.py b/mdp/signal_node.py
index e3b1b20..095ed2e 100644
--- a/mdp/signal_node.py
+++ b/mdp/signal_node.py
@@ -786,7 +786,8 @@ def VariadicCumulator(*fields):
             """Collect all input data in a list."""
             self.tlen += args[0].shape[0]
             for field, data in zip(self._cumulator_fields, args):
-                getattr(self, field).append(data)
+                # a copy, since the caller may reuse its buffers
+                getattr(self, field).append(numx.array(data))
 
         def _stop_training(self, *args, **kwargs):
             """Concatenate the collected data in a single array."""
-- 
2.43.0


From 0a4f701c4c5c3d5a65dcc4f03b3f144b3bf69649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 008/185] fix: HistogramNode does not keep a reference to the
 training array

---
 mdp/nodes/misc_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/nodes/misc_nodes.py b/mdp/nodes/misc_nodes.py
index b73b0e6..a7fded0 100644
--- a/mdp/nodes/misc_nodes.py
+++ b/mdp/nodes/misc_nodes.py
@@ -900,7 +900,7 @@ class HistogramNode(PreserveDimNode):
         if self.data_hist is not None:
             self.data_hist = numx.concatenate([self.data_hist, x])
         else:
-            self.data_hist = x
+            self.data_hist = x.copy()
 
     def _stop_training(self):
         """Pickle the histogram data to file and clear it if required."""
-- 
2.43.0


From f5b10175c7c0b03ed816b779f15b5cd7bbca4847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 009/185] fix: OnlineTimeDiffNode does not keep a reference to
 the training array

---
 mdp/nodes/stats_nodes_online.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/nodes/stats_nodes_online.py b/mdp/nodes/stats_nodes_online.py
index 0b99c92..3c3cdff 100644
--- a/mdp/nodes/stats_nodes_online.py
+++ b/mdp/nodes/stats_nodes_online.py
@@ -175,7 +175,7 @@ class OnlineTimeDiffNode(mdp.PreserveDimOnlineNode):
     def _train(self, x):
         """Update the buffer."""
         self.x_prev = self.x_cur
-        self.x_cur = x[-1:]
+        self.x_cur = x[-1:].copy()
 
     @staticmethod
     def is_invertible():
-- 
2.43.0


From d41976c3d671672dc6b085187cdf6e67f5dd3b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 010/185] fix: ClassifierCumulator accepts lists, tuples and a
 single label

---
 mdp/classifier_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/classifier_node.py b/mdp/classifier_node.py
index 41a3f1a..587d1c3 100644
--- a/mdp/classifier_node.py
+++ b/mdp/classifier_node.py
@@ -123,7 +123,7 @@ class ClassifierCumulator(VariadicCumulator('data', 'labels'), ClassifierNode):
         else:
             labels = [labels] * x.shape[0]
 
-        self.labels.extend(labels.ravel().tolist())
+        self.labels.extend(numx.ravel(labels).tolist())
 
     def _stop_training(self, *args, **kwargs):
         """Transform the data and labels lists to array objects and reshape them."""
-- 
2.43.0


From 4215d2315fb5646a9b2dbcef6d8bd3b02dddbef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 011/185] fix: KNNClassifier does not keep a reference to the
 training array

---
 mdp/nodes/classifier_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/nodes/classifier_nodes.py b/mdp/nodes/classifier_nodes.py
index 9b57ebd..4f50cb6 100644
--- a/mdp/nodes/classifier_nodes.py
+++ b/mdp/nodes/classifier_nodes.py
@@ -767,7 +767,7 @@ class KNNClassifier(ClassifierNode):
                 x_label = numx.compress(labels==label, x, axis=0)
                 self._add_samples(x_label, label)
         else:
-            self._add_samples(x, labels)
+            self._add_samples(x.copy(), labels)
     
     def _add_samples(self, x, label):
         """Store x set for later neirest-neighbour calculation."""
-- 
2.43.0


From e80496c169de84e25eddf862e4c88f0037d8481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 012/185] fix: PCANode never keeps more components than there
 are for output_dim=1.0

---
 mdp/nodes/pca_nodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdp/nodes/pca_nodes.py b/mdp/nodes/pca_nodes.py
index d9ea36d..6446cd3 100644
--- a/mdp/nodes/pca_nodes.py
+++ b/mdp/nodes/pca_nodes.py
@@ -256,6 +256,8 @@ class PCANode(mdp.Node):
             # select only the relevant eigenvalues
             # number of relevant eigenvalues
             neigval = int(varcum.searchsorted(self.desired_variance) + 1.)
+            # the shares may sum up to slightly less than the desired variance
+            neigval = min(neigval, d.shape[0])
             #self.explained_variance = varcum[neigval-1]
             # cut
             d = d[0:neigval]
-- 
2.43.0


From 8fe7bb469eba4f02d5263549401fa0c2a0c1b8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 013/185] fix: NIPALSNode computes the explained variance of
 the kept components

---
 mdp/nodes/nipals.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/nipals.py b/mdp/nodes/nipals.py
index 28cb182..20fce21 100644
--- a/mdp/nodes/nipals.py
+++ b/mdp/nodes/nipals.py
@@ -94,7 +94,7 @@ class NIPALSNode(Cumulator, PCANode):
 
         # remove mean
         X -= mean
-        var = X.var(axis=0).sum()
+        var = X.var(axis=0, ddof=1).sum()
         self.total_variance = var
         exp_var = 0
 
@@ -137,6 +137,11 @@ class NIPALSNode(Cumulator, PCANode):
                 self.output_dim = i + 1
                 break
 
+        if self.output_dim is None:
+            # rounding errors: the desired variance has not been reached
+            self.output_dim = self.input_dim
+
         self.d = d[:self.output_dim]
         self.v = eigenv[:self.output_dim, :].T
-        self.explained_variance = exp_var
+        # share of the variance of the components that are kept
+        self.explained_variance = old_div(self.d.sum(), var)
-- 
2.43.0


From a3de80ee19bca8b77d9cc407e98071c673e4587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 014/185] fix: NIPALSNode starts from the column with the
 largest variance

---
 mdp/nodes/nipals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/nipals.py b/mdp/nodes/nipals.py
index 20fce21..2bc6b86 100644
--- a/mdp/nodes/nipals.py
+++ b/mdp/nodes/nipals.py
@@ -102,8 +102,10 @@ class NIPALSNode(Cumulator, PCANode):
         d = numx.zeros((self.input_dim,), dtype = dtype)
         for i in range(self.input_dim):
             it = 0
-            # first score vector t is initialized to first column in X
-            t = X[:, 0]
+            # first score vector t is initialized to the column of X with
+            # the largest variance: any fixed column may be (close to) zero
+            # or one of the minor components
+            t = X[:, (X*X).sum(axis=0).argmax()]
             # initialize difference
             diff = conv + 1
             while diff > conv:
-- 
2.43.0


From 35d322d3d2744eb245010dfb74955560f070564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 015/185] fix: rank deficit solvers detect blank data in any
 column

The first variable was taken for a blank one whenever some other variable
was not correlated with it.
---
 mdp/utils/symeig_semidefinite.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mdp/utils/symeig_semidefinite.py b/mdp/utils/symeig_semidefinite.py
index 5f3e138..82b90f1 100644
--- a/mdp/utils/symeig_semidefinite.py
+++ b/mdp/utils/symeig_semidefinite.py
@@ -148,8 +148,7 @@ def _find_blank_data_idx(B, rank_threshold):
     if len(zero_idx) > 0:
         # If near-zero entries are in first line we check the whole columns:
         #nonzerolines = (abs(numx.sum(B, 0)) > rank_threshold).nonzero()[0]
-        zero_idx = (numx.mean(abs(B[zero_idx]), 0) < \
-                rank_threshold).nonzero()[0]
+        zero_idx = zero_idx[numx.mean(abs(B[zero_idx]), 1) < rank_threshold]
         if len(zero_idx) > 0:
             nonzero_idx = numx.arange(len(B))
             nonzero_idx[zero_idx] = -1
-- 
2.43.0


From 721324046ca624ec3f2c341382b3647ffbfc718d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 016/185] fix: SFANode announces the number of components left
 by a rank deficit

---
 mdp/nodes/sfa_nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mdp/nodes/sfa_nodes.py b/mdp/nodes/sfa_nodes.py
index d221a58..aa61c79 100644
--- a/mdp/nodes/sfa_nodes.py
+++ b/mdp/nodes/sfa_nodes.py
@@ -309,6 +309,10 @@ class SFANode(Node):
                       + SINGULAR_VALUE_MSG)
             raise NodeException(errstr)
 
+        # a rank deficit can leave less components than requested
+        if self.output_dim is None or self.sf.shape[1] < self.output_dim:
+            self._output_dim = self.sf.shape[1]
+
         if not debug:
             # delete covariance matrix if no exception occurred
             del self.cov_mtx
-- 
2.43.0


From 83535c0fdb0d99a7c4cd1030d75546c7352ae83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 017/185] fix: iGSFANode accepts expansion_funcs

GeneralExpansionNode has no starting_point argument, so every iGSFANode
with expansion functions raised TypeError.
---
 mdp/nodes/gsfa_nodes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/gsfa_nodes.py b/mdp/nodes/gsfa_nodes.py
index f4f76a5..2ccfd85 100644
--- a/mdp/nodes/gsfa_nodes.py
+++ b/mdp/nodes/gsfa_nodes.py
@@ -1364,9 +1364,12 @@ class iGSFANode(mdp.Node):
                 funcs=expansion_funcs, output_dim=self.expansion_output_dim,
                 starting_point=self.expansion_starting_point)
         elif expansion_funcs:
-            self.exp_node = GeneralExpansionNode(
-                funcs=expansion_funcs,
-                starting_point=self.expansion_starting_point)
+            if self.expansion_starting_point is None:
+                self.exp_node = GeneralExpansionNode(funcs=expansion_funcs)
+            else:
+                self.exp_node = GeneralExpansionNode(
+                    funcs=expansion_funcs,
+                    starting_point=self.expansion_starting_point)
         else:
             self.exp_node = None
 
-- 
2.43.0


From 1a4c4af9eee85c1406d14c3ce80655153ae58af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 018/185] fix: GSFA sliding windows use the sum of the node
 weights

The node weights of the truncated ends add up to (3 * width - 1) / 2, so
the total is num_samples - (width + 1) / 2; the weighted mean was wrong.
---
 mdp/nodes/gsfa_nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/gsfa_nodes.py b/mdp/nodes/gsfa_nodes.py
index 2ccfd85..e199aef 100644
--- a/mdp/nodes/gsfa_nodes.py
+++ b/mdp/nodes/gsfa_nodes.py
@@ -937,7 +937,7 @@ class CovDCovMatrix(object):
         sum_x = x_sel.sum(axis=0)
         sum_prod_x = mdp.utils.mult(x_sel.T, x)
         self.add_samples(sum_prod_x, sum_x,
-                         num_samples - (0.5 * window_halfwidth - 0.5), weight)
+                         num_samples - (0.5 * window_halfwidth + 0.5), weight)
 
         # Update DCov Matrix. First we compute the borders
         # Left border
@@ -1003,7 +1003,7 @@ class CovDCovMatrix(object):
         sum_x = x_sel.sum(axis=0)
         sum_prod_x = mdp.utils.mult(x_sel.T, x)
         self.add_samples(sum_prod_x, sum_x, num_samples -
-                         (0.5 * window_halfwidth - 0.5), weight)
+                         (0.5 * window_halfwidth + 0.5), weight)
 
         # This can be made faster (twice) due to symmetry
         for offset in range(-width, width + 1):
-- 
2.43.0


From 4103197b1f791b4efc3abd1b5eb6ad140dd1c915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 019/185] fix: GSFA fast sliding window handles short sequences

With fewer than 4 * width samples the two ramps overlap and the number
of windows containing a sample was overestimated.
---
 mdp/nodes/gsfa_nodes.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/mdp/nodes/gsfa_nodes.py b/mdp/nodes/gsfa_nodes.py
index e199aef..887a220 100644
--- a/mdp/nodes/gsfa_nodes.py
+++ b/mdp/nodes/gsfa_nodes.py
@@ -961,18 +961,12 @@ class CovDCovMatrix(object):
         x_full = x[width:num_samples - width, :]
         sum_prod_x_full = mdp.utils.mult(x_full.T, x_full)
 
-        Aacc123 = numx.zeros((dim, dim))
-        for i in range(0, 2 * width):  # [0, 2*width-1]
-            Aacc123 += (i + 1) * mdp.utils.mult(x[i:i + 1, :].T, x[i:i + 1, :])
-
-        for i in range(num_samples - 2 * width, num_samples):
-            Aacc123 += (num_samples - i) * mdp.utils.mult(x[i:i + 1, :].T,
-                                                          x[i:i + 1, :])
-
-        # intermediate values of x, which are connected 2*width+1 times
-        x_middle = x[2 * width:num_samples - 2 * width, :]
-
-        Aacc123 += (2 * width + 1) * mdp.utils.mult(x_middle.T, x_middle)
+        # number of windows of the center part that contain each sample (at
+        # most 2*width+1, fewer towards the ends and for short sequences)
+        idx = numx.arange(num_samples)
+        counts = numx.minimum(numx.minimum(idx + 1, num_samples - idx),
+                              min(2 * width + 1, num_samples - 2 * width))
+        Aacc123 = mdp.utils.mult(x.T, x * counts.reshape((num_samples, 1)))
 
         b = numx.zeros((num_samples + 1, dim))
         b[1:] = x.cumsum(axis=0)
-- 
2.43.0


From 15a1d9072f83ebcbcdfc5b595cfbded00055f332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 020/185] fix: GSFA graph with an array of edge weights

The second moments of the differences were computed from the node
weights, which is right only if these equal the row sums of a symmetric
edge weight matrix.
---
 mdp/nodes/gsfa_nodes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/gsfa_nodes.py b/mdp/nodes/gsfa_nodes.py
index 887a220..268fed6 100644
--- a/mdp/nodes/gsfa_nodes.py
+++ b/mdp/nodes/gsfa_nodes.py
@@ -719,10 +719,11 @@ class CovDCovMatrix(object):
         # Update DCov Matrix
         if isinstance(edge_weights, numx.ndarray):
             weighted_num_diffs = edge_weights.sum()  # normalization constant R
-            prod1 = weighted_sum_prod_x  # TODO: eventually check these
-            # equations, they might only work if Q==R
+            # sum_ij w_ij (x_j - x_i) (x_j - x_i)^T
+            degrees = edge_weights.sum(axis=0) + edge_weights.sum(axis=1)
+            prod1 = mdp.utils.mult(x.T, x * degrees.reshape((num_samples, 1)))
             prod2 = mdp.utils.mult(mdp.utils.mult(x.T, edge_weights), x)
-            weighted_sum_prod_diffs = 2 * prod1 - 2 * prod2
+            weighted_sum_prod_diffs = prod1 - prod2 - prod2.T
             self.add_diffs(weighted_sum_prod_diffs, weighted_num_diffs,
                            weight=weight)
         else:
-- 
2.43.0


From 57d4bd95be8104de19a16f2f5156b7246f167a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 021/185] fix: serial_regression keeps the block size of other
 GSFA train modes

In a list of train modes it replaced the block_size of the modes that
follow it.
---
 mdp/nodes/gsfa_nodes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mdp/nodes/gsfa_nodes.py b/mdp/nodes/gsfa_nodes.py
index 268fed6..e9cbe54 100644
--- a/mdp/nodes/gsfa_nodes.py
+++ b/mdp/nodes/gsfa_nodes.py
@@ -138,14 +138,14 @@ class GSFANode(mdp.Node):
                                                       block_sizes=block_sizes,
                                                       weight=weight)
                 elif method.startswith("serial_regression"):
-                    block_size = int(method[len("serial_regression"):])
+                    serial_block_size = int(method[len("serial_regression"):])
                     if verbose:
                         print("update serial_regression, block_size=",
-                              block_size)
+                              serial_block_size)
                     ordering = numx.argsort(labels)
                     x2 = x[ordering, :]
-                    self._covdcovmtx.update_serial(x2, block_size=block_size,
-                                                   weight=weight)
+                    self._covdcovmtx.update_serial(
+                        x2, block_size=serial_block_size, weight=weight)
                 else:
                     er = "method unknown: %s" % (str(method))
                     raise ValueError(er)
-- 
2.43.0


From f86e567d4d7f379e28b19090c41fd37f4e629b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 022/185] fix: GSFA block size errors are reported for lists of
 block sizes

---
 mdp/nodes/gsfa_nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/gsfa_nodes.py b/mdp/nodes/gsfa_nodes.py
index e9cbe54..99e153d 100644
--- a/mdp/nodes/gsfa_nodes.py
+++ b/mdp/nodes/gsfa_nodes.py
@@ -1084,7 +1084,7 @@ class CovDCovMatrix(object):
 
         if num_samples != numx.array(block_sizes).sum():
             err = "Inconsistency error: num_samples (%d)" % num_samples + \
-                "is not equal to sum of block_sizes: %d" % block_sizes
+                "is not equal to sum of block_sizes: %s" % str(block_sizes)
             raise ValueError(err)
 
         counter_sample = 0
@@ -1169,8 +1169,8 @@ class CovDCovMatrix(object):
             block_size = block_sizes
 
         if num_samples % block_size != 0:
-            err = "num_samples (%d) should be a multiple of block_size: %d" % \
-                  (num_samples, block_sizes)
+            err = "num_samples (%d) should be a multiple of block_size: %s" % \
+                  (num_samples, block_size)
             raise ValueError(err)
 
         num_classes = num_samples // block_size
-- 
2.43.0


From aff1bebd5bbd300639b2dbe1d370c0f1690b6a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 023/185] fix: GSFANode trains with verbose=True

---
 mdp/nodes/gsfa_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/nodes/gsfa_nodes.py b/mdp/nodes/gsfa_nodes.py
index 99e153d..a9a421e 100644
--- a/mdp/nodes/gsfa_nodes.py
+++ b/mdp/nodes/gsfa_nodes.py
@@ -473,7 +473,7 @@ class GSFANode(mdp.Node):
             print("Finishing GSFA training: ", self._covdcovmtx.num_samples)
             print(" num_samples, and ", self._covdcovmtx.num_diffs,
                   " num_diffs")
-            print("DCov[0:3,0:3] is", self.dcov_mtx[0:3, 0:3])
+            print("DCov[0:3,0:3] is", dcov_mtx[0:3, 0:3])
 
         rng = self._set_range()
         # Solve the generalized eigenvalue problem
-- 
2.43.0


From 2c27d9f13f5639c88bbd20813fc7c7702c127da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 024/185] fix: iGSFANode trains when the slow part explains all
 of the data

With all output features in the slow part the PCA of the vanishing
residual failed with negative eigenvalues.
---
 mdp/nodes/gsfa_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/nodes/gsfa_nodes.py b/mdp/nodes/gsfa_nodes.py
index a9a421e..57cebf9 100644
--- a/mdp/nodes/gsfa_nodes.py
+++ b/mdp/nodes/gsfa_nodes.py
@@ -1600,7 +1600,8 @@ class iGSFANode(mdp.Node):
         # This allows training of PCA when pca_out_dim is zero
         self.pca_node = mdp.nodes.PCANode(output_dim=max(1, pca_output_dim),
                                           dtype=self.dtype)
-        self.pca_node.train(sfa_removed_x)
+        # (the residual may be zero, then it cannot be used for training)
+        self.pca_node.train(sfa_removed_x if pca_output_dim > 0 else x_zm)
         self.pca_node.stop_training()
         PCANode_reduce_output_dim(self.pca_node, pca_output_dim,
                                   verbose=False)
-- 
2.43.0


From a9f5e5a930cf1aa0c405e52c3427cb90bd8fa320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 025/185] fix: ISFANode accepts a single number for icaweights
 and sfaweights

This is documented, but raised TypeError, as did the error message for
weights of the wrong length.
---
 mdp/nodes/isfa_nodes.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/isfa_nodes.py b/mdp/nodes/isfa_nodes.py
index b8cc69e..df81f45 100644
--- a/mdp/nodes/isfa_nodes.py
+++ b/mdp/nodes/isfa_nodes.py
@@ -195,9 +195,12 @@ class ISFANode(Node):
         if icaweights is None:
             self.icaweights = 1.
         else:
+            if numx.isscalar(icaweights):
+                # all matrices are weighted the same
+                icaweights = [icaweights]*len(lags)
             if (len(icaweights) != len(lags)):
                 err = ("icaweights vector length is %d, "
-                       "should be %d" % (str(len(icaweights)), str(len(lags))))
+                       "should be %d" % (len(icaweights), len(lags)))
                 raise NodeException(err)
             self.icaweights = icaweights
 
@@ -205,9 +208,12 @@ class ISFANode(Node):
             self.sfaweights = [0]*len(lags)
             self.sfaweights[0] = 1.
         else:
+            if numx.isscalar(sfaweights):
+                # all matrices are weighted the same
+                sfaweights = [sfaweights]*len(lags)
             if (len(sfaweights) != len(lags)):
                 err = ("sfaweights vector length is %d, "
-                       "should be %d" % (str(len(sfaweights)), str(len(lags))))
+                       "should be %d" % (len(sfaweights), len(lags)))
                 raise NodeException(err)
             self.sfaweights = sfaweights
 
-- 
2.43.0


From 32f4cff5240f009df72e48186941befd307a73c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 026/185] fix: ISFANode and TDSEPNode apply the rotation that
 reaches a zero contrast

If the best rotation of the first pair had a contrast of exactly zero the
sweep was left without applying it, and the node returned the unrotated
components.  With a single component the contrast was undefined.
---
 mdp/nodes/isfa_nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/isfa_nodes.py b/mdp/nodes/isfa_nodes.py
index df81f45..31a3187 100644
--- a/mdp/nodes/isfa_nodes.py
+++ b/mdp/nodes/isfa_nodes.py
@@ -724,12 +724,12 @@ class ISFANode(Node):
         for (i, j) in self.rot_axis:
             # get the angle that minimizes the contrast
             # and the contrast value
-            angle, contrast = self._givens_angle(i, j, covs)
-            if contrast == 0:
+            if prev_contrast == 0:
                 # we hit numerical precision in case when b_sfa == 0
                 # we can only break things from here on, better quit!
                 max_increase = -1
                 break
+            angle, contrast = self._givens_angle(i, j, covs)
 
             # relative improvement in the contrast function
             relative_diff = old_div((prev_contrast-contrast),abs(prev_contrast))
@@ -748,7 +748,7 @@ class ISFANode(Node):
             max_increase = max(max_increase, relative_diff)
             prev_contrast = contrast
 
-        return max_increase, covs, Q, contrast
+        return max_increase, covs, Q, prev_contrast
 
     def _stop_training(self, covs=None):
         """Stop the training phase.
-- 
2.43.0


From 33b3f370c5c991085c94acee26184e396826bc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 027/185] fix: TDSEPNode passes white_parm to the whitening
 node

---
 mdp/nodes/ica_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/nodes/ica_nodes.py b/mdp/nodes/ica_nodes.py
index 2526bdc..3b05b17 100644
--- a/mdp/nodes/ica_nodes.py
+++ b/mdp/nodes/ica_nodes.py
@@ -1095,7 +1095,7 @@ class TDSEPNode(ISFANode, ProjectMatrixMixin):
                                         icaweights=None, sfaweights=None,
                                         whitened=whitened,
                                         white_comp=white_comp,
-                                        white_parm = None,
+                                        white_parm=white_parm,
                                         eps_contrast=limit,
                                         max_iter=max_iter, RP=None,
                                         verbose=verbose,
-- 
2.43.0


From 7f27597379bda96f1415c800e7853c9c0d1d3c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 028/185] fix: ICANode telescope mode works with few data
 points

With less than 10 points per dimension no chunk was used and stop_training
raised UnboundLocalError.
---
 mdp/nodes/ica_nodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdp/nodes/ica_nodes.py b/mdp/nodes/ica_nodes.py
index 3b05b17..0be3ca3 100644
--- a/mdp/nodes/ica_nodes.py
+++ b/mdp/nodes/ica_nodes.py
@@ -167,6 +167,8 @@ class ICANode(mdp.Cumulator, mdp.Node, ProjectMatrixMixin):
         if self.telescope:
             minpow = math.frexp(self.input_dim*10)[1]
             maxpow = int(old_div(numx.log(data.shape[0]),numx.log(2)))
+            # (with few data use all of them at once)
+            maxpow = max(minpow, maxpow)
             for tel in range(minpow, maxpow+1):
                 index = 2**tel
                 if verbose:
-- 
2.43.0


From 12432d20154be89e094bd298067f9f4e91774980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 029/185] fix: FastICANode does not change the initial guess
 passed by the user

---
 mdp/nodes/ica_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/nodes/ica_nodes.py b/mdp/nodes/ica_nodes.py
index 0be3ca3..e94ea3f 100644
--- a/mdp/nodes/ica_nodes.py
+++ b/mdp/nodes/ica_nodes.py
@@ -550,7 +550,8 @@ class FastICANode(ICANode):
             guess = utils.random_rot(comp, dtype)
         else:
             # Use user supplied mixing matrix
-            guess = self._refcast(self.guess)
+            # (copy it, the vectors are changed in place)
+            guess = self._refcast(self.guess).copy()
             if not self.whitened:
                 guess = mult(guess, self.white.get_recmatrix(transposed=1))
 
-- 
2.43.0


From 5115ca09ebdaa6eb7cf0f1db0129a8e2628258bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 030/185] fix: XSFANode does not change the keyword
 dictionaries of the expansions

---
 mdp/nodes/xsfa_nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/xsfa_nodes.py b/mdp/nodes/xsfa_nodes.py
index 45847f6..59d0d8d 100644
--- a/mdp/nodes/xsfa_nodes.py
+++ b/mdp/nodes/xsfa_nodes.py
@@ -103,7 +103,7 @@ class XSFANode(mdp.Node):
         else:
             self.basic_exp = basic_exp[0]
             self.basic_exp_args = basic_exp[1]
-            self.basic_exp_kwargs = basic_exp[2]
+            self.basic_exp_kwargs = dict(basic_exp[2])
 
         # set up internal expansion
         if intern_exp is None:
@@ -113,7 +113,7 @@ class XSFANode(mdp.Node):
         else:
             self.exp = intern_exp[0]
             self.exp_args = intern_exp[1]
-            self.exp_kwargs = intern_exp[2]
+            self.exp_kwargs = dict(intern_exp[2])
 
         # number of sources already extracted
         self.n_extracted_src = 0
-- 
2.43.0


From fbdadfb362fa36f2f091705d2d5ee5188502684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 031/185] fix: JADENode scales the whole off-diagonal cumulant
 matrices by sqrt(2)

Only the moment was scaled, not the Gaussian part that is subtracted, so
that the matrices were no cumulants and the result was not the joint
diagonalizer (the parentheses were lost in the port of the MATLAB code).
---
 mdp/nodes/jade.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/jade.py b/mdp/nodes/jade.py
index b4cee7f..793d230 100644
--- a/mdp/nodes/jade.py
+++ b/mdp/nodes/jade.py
@@ -139,9 +139,9 @@ class JADENode(ICANode):
             Range += m
             for jm in range(im):
                 Xijm = Xim*X[:, jm]
-                Qij = ( sqrt(2) * mult(Xijm*X.T, X) / T
-                        - numx.outer(R[:,im], R[:,jm]) - numx.outer(R[:,jm],
-                                                                    R[:,im]) )
+                Qij = sqrt(2) * ( mult(Xijm*X.T, X) / T
+                                  - numx.outer(R[:,im], R[:,jm])
+                                  - numx.outer(R[:,jm], R[:,im]) )
                 CM[:, Range] = Qij
                 Range += m
 
-- 
2.43.0


From 529fd2d75c2cdd859f283e1ee5c34da8d3c016e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 032/185] fix: FastICANode repeats components that fail to
 converge in deflation mode

A component that failed (within the allowed number of failures) was left
as a vector of zeros instead of being tried again.
---
 mdp/nodes/ica_nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mdp/nodes/ica_nodes.py b/mdp/nodes/ica_nodes.py
index e94ea3f..24abcf8 100644
--- a/mdp/nodes/ica_nodes.py
+++ b/mdp/nodes/ica_nodes.py
@@ -855,6 +855,10 @@ class FastICANode(ICANode):
                                 err = ('Too many failures to '
                                        'converge (%d). Giving up.' % nfail)
                                 raise mdp.NodeException(err)
+                            # try again with another initial vector
+                            guess[:, round] = utils.random_rot(comp,
+                                                               dtype)[:, 0]
+                            round -= 1
                             break
                     else:
                         if i >= end_finetuning:
-- 
2.43.0


From 929d6d53481ac181b3f148be3e2b123dd89e33ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 033/185] fix: KMeansClassifier can label after stopping at
 max_iter

---
 mdp/nodes/classifier_nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/classifier_nodes.py b/mdp/nodes/classifier_nodes.py
index 4f50cb6..b8ad007 100644
--- a/mdp/nodes/classifier_nodes.py
+++ b/mdp/nodes/classifier_nodes.py
@@ -432,9 +432,9 @@ class KMeansClassifier(ClassifierNode):
                                         for idx, c in enumerate(new_centroids)])
             # check if we are stable
             if numx.all(new_centroids == centroids):
-                self._centroids = centroids
-                return
+                break
             centroids = new_centroids
+        self._centroids = centroids
 
     def _nearest_centroid_idx(self, data, centroids):
         dists = numx.array([numx.linalg.norm(data - c) for c in centroids])
-- 
2.43.0


From ee0b3e0f383211baaab8b95eb30b97c28c273889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:04 +0000
Subject: [PATCH 034/185] fix: RecursiveExpansionNode of degree one uses the
 first function of the family

Degree zero yields the announced number of constant columns.
---
 mdp/nodes/recursive_expansion_nodes.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/mdp/nodes/recursive_expansion_nodes.py b/mdp/nodes/recursive_expansion_nodes.py
index a988af8..5aac94c 100644
--- a/mdp/nodes/recursive_expansion_nodes.py
+++ b/mdp/nodes/recursive_expansion_nodes.py
@@ -585,15 +585,13 @@ class RecursiveExpansionNode(_ExpansionNode):
                         result, x, special, n, cur_var, pos)
                     n += 1
                     pos += 1
-        # in case input is unreasonable
+        # the initialization may write more than the first order
         elif deg == 1:
-            result[:, 0] = 1
+            first = np.empty([num_samples, 3], dtype=self.dtype)
+            first[:, 0] = 1.
             for i in range(num_vars):
-                result[:, i+1] = x[:, i]
-        elif self.with0:
-            return np.ones((num_samples, num_vars))
-        else:
-            return None
+                self.r_init(first, x, 1, i)
+                result[:, i+1] = first[:, 1]
 
         todoList = []
         for i in range(1, num_vars):
-- 
2.43.0


From 5ff2bc116dcbcf08f3ffd61d55aa2d821e0244be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:04 +0000
Subject: [PATCH 035/185] fix: RBFExpansionNode truncates the inverse of
 integer covariance matrices

---
 mdp/nodes/expansion_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdp/nodes/expansion_nodes.py b/mdp/nodes/expansion_nodes.py
index d492fc0..5196d23 100644
--- a/mdp/nodes/expansion_nodes.py
+++ b/mdp/nodes/expansion_nodes.py
@@ -241,6 +241,9 @@ class RBFExpansionNode(mdp.Node):
                 raise mdp.NodeException(msg)
 
             # compute inverse covariance matrix
+            if sizes.dtype.kind in 'iu':
+                # the inverses are not integer
+                sizes = sizes.astype('d')
             for i in range(sizes.shape[0]):
                 sizes[i,:,:] = mdp.utils.inv(sizes[i,:,:])
 
-- 
2.43.0


From 8342fbc1b32ddfedc816808a445170f3bf60d57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 036/185] fix: multiplicative NoiseNode keeps the dtype of the
 node

---
 mdp/nodes/misc_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/nodes/misc_nodes.py b/mdp/nodes/misc_nodes.py
index a7fded0..4d19a2a 100644
--- a/mdp/nodes/misc_nodes.py
+++ b/mdp/nodes/misc_nodes.py
@@ -704,7 +704,7 @@ class NoiseNode(PreserveDimNode):
         if self.noise_type == 'additive':
             return x+noise_mat
         elif self.noise_type == 'multiplicative':
-            return x*(1.+noise_mat)
+            return self._refcast(x*(1.+noise_mat))
 
     def save(self, filename, protocol = -1):
         """Save a pickled serialization of the node to 'filename'.
-- 
2.43.0


From 10d645686e7bf6467532db650715e591d809e79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 037/185] fix: TimeDelayNode accepts data shorter than the
 delays

---
 mdp/nodes/misc_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/nodes/misc_nodes.py b/mdp/nodes/misc_nodes.py
index 4d19a2a..272a892 100644
--- a/mdp/nodes/misc_nodes.py
+++ b/mdp/nodes/misc_nodes.py
@@ -434,7 +434,7 @@ class TimeDelayNode(TimeFramesNode):
         y = numx.zeros((rows, cols), dtype=self.dtype)
 
         for frame in range(self.time_frames):
-            y[gap*frame:, frame*n:(frame+1)*n] = x[:rows-gap*frame, :]
+            y[gap*frame:, frame*n:(frame+1)*n] = x[:max(rows-gap*frame, 0), :]
 
         return y
 
-- 
2.43.0


From 3143f1af590a39c7384966fbd108622e04d0554f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 038/185] fix: RBMWithLabelsNode samples labels in single
 precision

---
 mdp/nodes/rbm_nodes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdp/nodes/rbm_nodes.py b/mdp/nodes/rbm_nodes.py
index 7fa5c20..62da662 100644
--- a/mdp/nodes/rbm_nodes.py
+++ b/mdp/nodes/rbm_nodes.py
@@ -362,7 +362,9 @@ class RBMWithLabelsNode(RBMNode):
             # ?? todo: I'm sure this can be optimized
             l = numx.zeros((h.shape[0], ldim))
             for t in range(h.shape[0]):
-                l[t, :] = mdp.numx_rand.multinomial(1, probs_l[t, :])
+                # normalize in double precision, as required by multinomial
+                p = probs_l[t, :].astype('d')
+                l[t, :] = mdp.numx_rand.multinomial(1, old_div(p, p.sum()))
         else:
             l = probs_l.copy()
 
-- 
2.43.0


From 0f6e1f44374f9c7b7f16342cbdcaaa1c214a0b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 039/185] fix: neural gas nodes do not move the start positions
 of the caller

---
 mdp/nodes/neural_gas_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/nodes/neural_gas_nodes.py b/mdp/nodes/neural_gas_nodes.py
index d0ec7b9..683c3e6 100644
--- a/mdp/nodes/neural_gas_nodes.py
+++ b/mdp/nodes/neural_gas_nodes.py
@@ -145,7 +145,8 @@ class GrowingNeuralGasNode(Node):
         self.output_dim = n
 
     def _add_node(self, pos):
-        node = self.graph.add_node(_NGNodeData(pos))
+        # copy the position, since it is updated in place
+        node = self.graph.add_node(_NGNodeData(numx.array(pos)))
         return node
 
     def _add_edge(self, from_, to_):
-- 
2.43.0


From be98a75669f811fdc2aeb7c0bb758b9fc23ac5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 040/185] fix: NeuralGasNode removes all old edges at once

---
 mdp/nodes/neural_gas_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/nodes/neural_gas_nodes.py b/mdp/nodes/neural_gas_nodes.py
index 683c3e6..973ca5a 100644
--- a/mdp/nodes/neural_gas_nodes.py
+++ b/mdp/nodes/neural_gas_nodes.py
@@ -552,6 +552,7 @@ class NeuralGasNode(GrowingNeuralGasNode):
         :type edges: 
         """
         g = self.graph
-        for edge in self.graph.edges:
+        # iterate over a copy, since edges are removed from the list
+        for edge in self.graph.edges[:]:
             if edge.data.age > max_age:
                 g.remove_edge(edge)
-- 
2.43.0


From 2e88d9d0b064a384646bd531f34bbf8c772990b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 041/185] fix: cov2 subtracts the means before normalizing

---
 mdp/utils/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/utils/routines.py b/mdp/utils/routines.py
index d00237b..1414119 100644
--- a/mdp/utils/routines.py
+++ b/mdp/utils/routines.py
@@ -218,7 +218,7 @@ def cov2(x, y):
     mnx = x.mean(axis=0)
     mny = y.mean(axis=0)
     tlen = x.shape[0]
-    return old_div(mdp.utils.mult(x.T, y),(tlen-1)) - numx.outer(mnx, mny)
+    return old_div(mdp.utils.mult((x-mnx).T, y-mny),(tlen-1))
 
 
 def cov_maxima(cov):
-- 
2.43.0


From 6c502e255955fb93377331fc5766a9b57e68c2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 042/185] fix: gabor is centered in arrays that are not square

---
 mdp/utils/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/utils/routines.py b/mdp/utils/routines.py
index 1414119..7849405 100644
--- a/mdp/utils/routines.py
+++ b/mdp/utils/routines.py
@@ -491,7 +491,7 @@ def gabor(size, alpha, phi, freq, sgm, x0=None, res=1, ampl=1.):
 
     # init
     w, h = size
-    if x0 is None: x0 = (w//2, h//2)
+    if x0 is None: x0 = (h//2, w//2)
     y0, x0 = x0
 
     # some useful quantities
-- 
2.43.0


From 2e18946ea0170c34f8637a8c774366088cdafaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 043/185] fix: MultipleCovarianceMatrices.weight accepts lists
 and single values

---
 mdp/utils/covariance.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mdp/utils/covariance.py b/mdp/utils/covariance.py
index dbf9f5f..3e8e628 100644
--- a/mdp/utils/covariance.py
+++ b/mdp/utils/covariance.py
@@ -496,10 +496,12 @@ class MultipleCovarianceMatrices(object):
         Argument can be a sequence or a single value. In the latter case
         the same weight is applied to all matrices."""
         # apply a weighting vector to cov matrices
-        err = ("len(weights)=%d does not match number "
-               "of matrices (%d)" % (len(weights), self.ncovs))
-        assert len(weights) == self.ncovs, err
-        self.covs *= mdp.utils.refcast(weights, self.dtype)
+        weights = numx.asarray(weights, dtype=self.dtype)
+        if weights.ndim > 0:
+            err = ("len(weights)=%d does not match number "
+                   "of matrices (%d)" % (len(weights), self.ncovs))
+            assert len(weights) == self.ncovs, err
+        self.covs *= weights
 
     def rotate(self, angle, indices):
         """Rotate matrices by angle in the plane defined by indices [i,j]."""
-- 
2.43.0


From 1019ebbbd3499af34f0e4bed16326d9b97de79e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 044/185] fix: VartimeCovarianceMatrix starts a new sequence
 after fix

---
 mdp/utils/covariance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdp/utils/covariance.py b/mdp/utils/covariance.py
index 3e8e628..3742058 100644
--- a/mdp/utils/covariance.py
+++ b/mdp/utils/covariance.py
@@ -335,6 +335,9 @@ class VartimeCovarianceMatrix(CovarianceMatrix):
         self._avg = None
         # number of observation so far during the training phase
         self._tlen = 0.
+        # the next chunk does not continue the sequence
+        self._steps = 0
+        self.tchunk = 0
 
         return cov_mtx, avg, tlen
 
-- 
2.43.0


From 4901868f7c86b37b36f98532b2bfb235b4f251c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 045/185] fix: VartimeCovarianceMatrix counts the time of
 one-row chunks once

---
 mdp/utils/covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/utils/covariance.py b/mdp/utils/covariance.py
index 3742058..8d74f4e 100644
--- a/mdp/utils/covariance.py
+++ b/mdp/utils/covariance.py
@@ -265,7 +265,7 @@ class VartimeCovarianceMatrix(CovarianceMatrix):
         if dt is None:
             _dt = 1.
         elif type(dt) == numx.ndarray:
-            _dt = dt[-x.shape[0]+1:, None]
+            _dt = dt[len(dt)-x.shape[0]+1:, None]
         else:
             _dt = dt
         sqdt = numx.sqrt(_dt)
-- 
2.43.0


From 8b47768ff2b418434d46867afd3f5f733e6ffae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 046/185] fix: reg and svd rank deficit solvers always report
 the rank deficit

---
 mdp/utils/symeig_semidefinite.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mdp/utils/symeig_semidefinite.py b/mdp/utils/symeig_semidefinite.py
index 82b90f1..81dbb73 100644
--- a/mdp/utils/symeig_semidefinite.py
+++ b/mdp/utils/symeig_semidefinite.py
@@ -113,15 +113,17 @@ def symeig_semidefinite_reg(
         off += 1
     m_off_sum = numx.sum(m[off:])
     if m_off_sum < 0.5:
+        if not dfc_out is None:
+            dfc_out.rank_deficit = off
         if off > 0:
-            if not dfc_out is None:
-                dfc_out.rank_deficit = off
             eg = eg[off:]
             ev = ev[:, off:]
     else:
         # Sometimes (unlikely though) the values in m are not sorted
         # In this case we search all indices:
         m_idx = (m < 0.5).nonzero()[0]
+        if not dfc_out is None:
+            dfc_out.rank_deficit = len(m)-len(m_idx)
         eg = eg[m_idx]
         ev = ev[:, m_idx]
     if range is None:
@@ -427,9 +429,9 @@ def symeig_semidefinite_svd(
     off = 0
     while s[-1-off] < rank_threshold:
         off += 1
+    if not dfc_out is None:
+        dfc_out.rank_deficit = off
     if off > 0:
-        if not dfc_out is None:
-            dfc_out.rank_deficit = off
         s = s[:-off]
         U = U[:, :-off]
     X1 = mult(U, numx.diag(1.0 / s ** 0.5))
-- 
2.43.0


From bfc505bc18d075b9dce40644b14202013ad482cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 047/185] fix: ldl rank deficit solver takes the range argument
 of symeig

---
 mdp/utils/symeig_semidefinite.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mdp/utils/symeig_semidefinite.py b/mdp/utils/symeig_semidefinite.py
index 81dbb73..e68d96c 100644
--- a/mdp/utils/symeig_semidefinite.py
+++ b/mdp/utils/symeig_semidefinite.py
@@ -158,7 +158,7 @@ def _find_blank_data_idx(B, rank_threshold):
 
 
 def symeig_semidefinite_ldl(
-        A, B = None, eigenvectors=True, turbo="on", rng=None,
+        A, B = None, eigenvectors=True, turbo="on", range=None,
         type=1, overwrite=False, rank_threshold=1e-12, dfc_out=None):
     """LDL-based routine to solve generalized symmetric positive semidefinite
     eigenvalue problems.
@@ -230,7 +230,7 @@ def symeig_semidefinite_ldl(
     swap_ = numx.arange(n)
     pivs = numx.zeros(swap_.shape, dtype=int)
     skip_2x2 = False
-    for ind in range(n):
+    for ind in arng:
         # If previous spin belonged already to a 2x2 block
         if skip_2x2:
             skip_2x2 = False
@@ -253,7 +253,7 @@ def symeig_semidefinite_ldl(
             skip_2x2 = True
 
     full_perm = numx.arange(n)
-    for ind in range(n-1, -1, -1):
+    for ind in arng[::-1]:
         s_ind = swap_[ind]
         if s_ind != ind:
             col_s = ind if pivs[ind] else ind-1 # 2x2 block
@@ -292,7 +292,7 @@ def symeig_semidefinite_ldl(
     A2 = A2[:, dnz]
 
     # overwrite=True is okay here, because at this point A2 is a copy anyway
-    eg, ev = mdp.utils.symeig(A2, None, True, turbo, rng, overwrite=True)
+    eg, ev = mdp.utils.symeig(A2, None, True, turbo, range, overwrite=True)
     ev = mdp.utils.mult(LI[dnz].T, ev) if rank_deficit \
         else mult_tri(1.0, LI, ev, 0, 1, 1, 0, 1)
     ev[perm] = ev[perm_idx]
-- 
2.43.0


From 95da4f66bb1d3d91a69d47d01e290a7e16243ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 048/185] fix: reg rank deficit solver regularizes matrices in
 any memory layout

---
 mdp/utils/symeig_semidefinite.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdp/utils/symeig_semidefinite.py b/mdp/utils/symeig_semidefinite.py
index e68d96c..c659484 100644
--- a/mdp/utils/symeig_semidefinite.py
+++ b/mdp/utils/symeig_semidefinite.py
@@ -96,6 +96,7 @@ def symeig_semidefinite_reg(
     # apply some regularization...
     # The following is equivalent to B += 1e-12*np.eye(B.shape[0]),
     # but works more in place, i.e. saves memory consumption of np.eye().
+    B = numx.ascontiguousarray(B)  # otherwise Bflat would be a copy
     Bflat = B.reshape(B.shape[0]*B.shape[1])
     idx = numx.arange(0, len(Bflat), B.shape[0]+1)
     diag_tmp = Bflat[idx]
-- 
2.43.0


From fa074f60fbd2eec545a1daa8851dcbd993d32c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 049/185] fix: symeig_fake keeps the eigenvectors of Hermitian
 matrices complex

---
 mdp/utils/_symeig.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mdp/utils/_symeig.py b/mdp/utils/_symeig.py
index f31a352..db08a7b 100644
--- a/mdp/utils/_symeig.py
+++ b/mdp/utils/_symeig.py
@@ -133,9 +133,9 @@ numarray.linear_algebra.eigenvectors with an interface compatible with symeig.
                 # and cause hard to find issues later in user code outside mdp.
                 err = "Got negative eigenvalues: %s" % str(wB)
                 raise SymeigException(err)
-            ZB = old_div(ZB.real, numx.sqrt(wB.real))
+            ZB = old_div(ZB, numx.sqrt(wB.real))
             # transform A in the new basis: A = ZB^T * A * ZB
-            A = mdp.utils.mult(mdp.utils.mult(ZB.T, A), ZB)
+            A = mdp.utils.mult(mdp.utils.mult(ZB.T.conj(), A), ZB)
             # diagonalize A
             w, ZA = numx_linalg.eigh(A)
             Z = mdp.utils.mult(ZB, ZA)
@@ -145,7 +145,8 @@ numarray.linear_algebra.eigenvectors with an interface compatible with symeig.
     _assert_eigenvalues_real(w, dtype)
     # Negative eigenvalues at this stage will be checked and handled by the caller.
     w = w.real
-    Z = Z.real
+    if dtype.kind != 'c':
+        Z = Z.real
 
     idx = w.argsort()
     w = w.take(idx)
-- 
2.43.0


From e1adc0bad28dcc377b845196e4d0f3419850340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:21 +0000
Subject: [PATCH 050/185] fix: QuadraticForm uses orthonormal eigenvectors for
 repeated eigenvalues

---
 mdp/utils/quad_forms.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/mdp/utils/quad_forms.py b/mdp/utils/quad_forms.py
index d1ee0bf..918b503 100644
--- a/mdp/utils/quad_forms.py
+++ b/mdp/utils/quad_forms.py
@@ -50,12 +50,9 @@ class QuadraticForm(object):
                mdp.utils.mult(x, self.f) + self.c)
 
     def _eig_sort(self, x):
-        E, W = numx_linalg.eig(x)
-        E, W = E.real, W.real
-        idx = E.argsort()
-        E = E.take(idx)
-        W = W.take(idx, axis=1)
-        return E, W
+        # the matrices are symmetric: eigh returns ascending eigenvalues and
+        # orthonormal eigenvectors even for repeated eigenvalues
+        return numx_linalg.eigh(x)
 
     def get_extrema(self, norm, tol = 1.E-4):
         """
-- 
2.43.0


From 717275b07caaf49fc993a0b3f689a796db7b9f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:21 +0000
Subject: [PATCH 051/185] fix: QuadraticForm finds the extrema for singular
 matrices

---
 mdp/utils/quad_forms.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mdp/utils/quad_forms.py b/mdp/utils/quad_forms.py
index 918b503..999a71a 100644
--- a/mdp/utils/quad_forms.py
+++ b/mdp/utils/quad_forms.py
@@ -76,13 +76,16 @@ class QuadraticForm(object):
                 # H is negative definite
                 H_definite_negative = True
 
-            x0 = mdp.numx_linalg.solve(-H, f)
-            if H_definite_positive and mdp.utils.norm2(x0) <= norm:
+            # stationary point, does not always exist if H is singular
+            x0 = numx_linalg.lstsq(-H, f, rcond=None)[0]
+            inside = (numx.allclose(mdp.utils.mult(-H, x0), f)
+                      and mdp.utils.norm2(x0) <= norm)
+            if H_definite_positive and inside:
                 xmin = x0
                 # x0 is a minimum
             else:
                 xmin = self._maximize(norm, tol, factor=-1)
-            if H_definite_negative and mdp.utils.norm2(x0) <= norm :
+            if H_definite_negative and inside:
                 xmax = x0
                 # x0 is a maximum
             else:
-- 
2.43.0


From 101388fa63722bf2b67ea219de130ca04fd0952a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:21 +0000
Subject: [PATCH 052/185] fix: QuadraticForm extrema reach the norm if f is
 orthogonal to the leading eigenvector

---
 mdp/utils/quad_forms.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mdp/utils/quad_forms.py b/mdp/utils/quad_forms.py
index 999a71a..0415e69 100644
--- a/mdp/utils/quad_forms.py
+++ b/mdp/utils/quad_forms.py
@@ -105,6 +105,7 @@ class QuadraticForm(object):
             # c = 0.5*x0'*H*x0 + f'*x0 + c -> do we need it?
         mu, V = self._eig_sort(H)
         alpha = mdp.utils.mult(V.T, f).reshape((H.shape[0],))
+        v_max = V[:, -1]
         # v_i = alpha_i * v_i (alpha is a raw_vector)
         V = V*alpha
         # left bound for lambda
@@ -114,7 +115,9 @@ class QuadraticForm(object):
         # search by bisection until norm(x)**2 = norm**2
         norm_2 = norm**2
         norm_x_2 = 0
-        while abs(norm_x_2-norm_2) > tol and old_div((lr-ll),lr) > epsilon:
+        beta = numx.zeros_like(mu)
+        scale = abs(mu).max()
+        while abs(norm_x_2-norm_2) > tol and lr-ll > epsilon*max(lr, scale):
             # bisection of the lambda-interval
             lambd = 0.5*(lr-ll)+ll
             # eigenvalues of (lambda*Id - H)^-1
@@ -127,7 +130,15 @@ class QuadraticForm(object):
             else:
                 lr = lambd
         x = (V*beta).sum(axis=1)
-        if x0:
+        if norm_2 - norm_x_2 > tol:
+            # f is orthogonal to the leading eigenvector: complete the norm
+            # along this direction
+            top = alpha[-1]*beta[-1]
+            new_top = numx.sqrt(norm_2 - norm_x_2 + top**2)
+            if alpha[-1] < 0:
+                new_top = -new_top
+            x = x + (new_top - top)*v_max
+        if x0 is not None:
             x = x + x0
         return x
 
-- 
2.43.0


From 502b176f1bcbf99090b38669e977bec949384510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:47 +0000
Subject: [PATCH 053/185] fix: a flow accepts None as data iterable of an
 already trained node

---
 mdp/linear_flows.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index b07946d..f2416b3 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -154,8 +154,8 @@ class Flow(object):
             err_str = ("\n! Node %d is training"
                        " but instead of iterable received 'None'." % nodenr)
             raise FlowException(err_str)
-        elif (data_iterable is None) and (not node.is_trainable()):
-            # skip training if node is not trainable
+        elif data_iterable is None:
+            # skip training if node is not trainable or already trained
             return
 
         try:
-- 
2.43.0


From 98a96e1a797d208bb53c3c7deda450d7d80ff6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:49 +0000
Subject: [PATCH 054/185] fix: refused in-place concatenation leaves the flow
 unchanged; flows use an own list

---
 mdp/linear_flows.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index f2416b3..da842af 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -117,8 +117,9 @@ class Flow(object):
                           in case a failure)
         verbose -- if True, print some basic progress information
         """
-        self._check_nodes_consistency(flow)
-        self.flow = flow
+        # use an own list, the list of the caller is not touched
+        self.flow = list(flow)
+        self._check_nodes_consistency()
         self.verbose = verbose
         self.set_crash_recovery(crash_recovery)
 
@@ -548,14 +549,17 @@ class Flow(object):
     def __iadd__(self, other):
         # append other to self
         if isinstance(other, Flow):
-            self.flow += other.flow
+            flow_copy = list(self.flow) + list(other.flow)
         elif isinstance(other, mdp.Node):
-            self.flow.append(other)
+            flow_copy = list(self.flow) + [other]
         else:
             err_str = ('can only concatenate flow or node'
                        ' (not \'%s\') to flow' % (type(other).__name__))
             raise TypeError(err_str)
-        self._check_nodes_consistency(self.flow)
+        # check dimension consistency
+        self._check_nodes_consistency(flow_copy)
+        # if no exception was raised, accept the new sequence
+        self.flow = flow_copy
         return self
 
     # public container methods
-- 
2.43.0


From 6395710c6dfe12b60f4bd255badd0bf77ab78613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:49 +0000
Subject: [PATCH 055/185] fix: assign an iterator of nodes to a flow slice

---
 mdp/linear_flows.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index da842af..00c7f28 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -499,7 +499,10 @@ class Flow(object):
 
     def __setitem__(self, key, value):
         if isinstance(key, slice):
-            [self._check_value_type_isnode(item) for item in value]
+            # the value can be an iterator, which would be used up by the check
+            value = list(value)
+            for item in value:
+                self._check_value_type_isnode(item)
         else:
             self._check_value_type_isnode(value)
 
-- 
2.43.0


From 6ce2cfeb9d46656be9669cd59b2dbe9884e6a05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:49 +0000
Subject: [PATCH 056/185] fix: save nodes, flows and checkpoints with pickle
 protocol 0

---
 mdp/linear_flows.py | 11 ++++-------
 mdp/signal_node.py  |  5 ++---
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index 00c7f28..72cac36 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -439,9 +439,8 @@ class Flow(object):
         if filename is None:
             return _cPickle.dumps(self, protocol)
         else:
-            # if protocol != 0 open the file in binary mode
-            mode = 'w' if protocol == 0 else 'wb'
-            with open(filename, mode) as flh:
+            # pickle writes bytes, whatever the protocol
+            with open(filename, 'wb') as flh:
                 _cPickle.dump(self, flh, protocol)
 
     def __call__(self, iterable, nodenr=None):
@@ -682,10 +681,8 @@ class CheckpointSaveFunction(CheckpointFunction):
         self.filename = filename
         self.proto = protocol
         self.stop_training = stop_training
-        if binary or protocol > 0:
-            self.mode = 'wb'
-        else:
-            self.mode = 'w'
+        # pickle writes bytes, whatever the protocol
+        self.mode = 'wb'
 
     def __call__(self, node):
         with open(self.filename, self.mode) as fid:
diff --git a/mdp/signal_node.py b/mdp/signal_node.py
index 095ed2e..946a66a 100644
--- a/mdp/signal_node.py
+++ b/mdp/signal_node.py
@@ -732,9 +732,8 @@ class Node(with_metaclass(NodeMetaclass, object)):
         if filename is None:
             return _cPickle.dumps(self, protocol)
         else:
-            # if protocol != 0 open the file in binary mode
-            mode = 'wb' if protocol != 0 else 'w'
-            with open(filename, mode) as flh:
+            # pickle writes bytes, whatever the protocol
+            with open(filename, 'wb') as flh:
                 _cPickle.dump(self, flh, protocol)
 
 
-- 
2.43.0


From 84b7a1c0dd9583f41080817ab6070af8b8c0f90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:15 +0000
Subject: [PATCH 057/185] fix: FlowNode.copy keeps the inner flow intact (also
 if the copy fails)

---
 mdp/hinet/flownode.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mdp/hinet/flownode.py b/mdp/hinet/flownode.py
index a6a10f7..140461a 100644
--- a/mdp/hinet/flownode.py
+++ b/mdp/hinet/flownode.py
@@ -196,13 +196,15 @@ class FlowNode(mdp.Node):
         #    result of _get_train_seq).
         #
         # copy the nodes by delegation
-        old_nodes = self._flow[:]
+        old_nodes = self._flow.flow
         new_nodes = [node.copy() for node in old_nodes]
         # now copy the rest of this flownode via deepcopy
         self._flow.flow = None
-        new_flownode = _copy.deepcopy(self)
+        try:
+            new_flownode = _copy.deepcopy(self)
+        finally:
+            self._flow.flow = old_nodes
         new_flownode._flow.flow = new_nodes
-        self._flow.flow = old_nodes
         return new_flownode
 
     ## container methods ##
-- 
2.43.0


From d36e68ece39bc03a126795b953ea70a968988a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:16 +0000
Subject: [PATCH 058/185] fix: a trained HitParadeNode can be pickled and saved

---
 mdp/nodes/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdp/nodes/__init__.py b/mdp/nodes/__init__.py
index b2ced40..328cc2d 100644
--- a/mdp/nodes/__init__.py
+++ b/mdp/nodes/__init__.py
@@ -33,6 +33,8 @@ from .recursive_expansion_nodes import (RecursiveExpansionNode,
 
 # import internals for use in test_suites
 from .misc_nodes import OneDimensionalHitParade as _OneDimensionalHitParade
+# pickle looks the class up by its own name
+from .misc_nodes import OneDimensionalHitParade
 from .expansion_nodes import expanded_dim as _expanded_dim
 
 from .mca_nodes_online import MCANode
-- 
2.43.0


From 1c3c20ca0d57003ab0f195b17089206d4942dcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:36 +0000
Subject: [PATCH 059/185] fix: QuadraticForm extrema do not exceed the norm if
 f is nearly orthogonal to the leading eigenvector

---
 mdp/utils/quad_forms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mdp/utils/quad_forms.py b/mdp/utils/quad_forms.py
index 0415e69..468deec 100644
--- a/mdp/utils/quad_forms.py
+++ b/mdp/utils/quad_forms.py
@@ -129,6 +129,10 @@ class QuadraticForm(object):
                 ll = lambd
             else:
                 lr = lambd
+        if norm_x_2 - norm_2 > tol:
+            # no lambda gives the norm: take the side where it is too small
+            beta = (lr-mu)**(-1)
+            norm_x_2 = (alpha**2*beta**2).sum()
         x = (V*beta).sum(axis=1)
         if norm_2 - norm_x_2 > tol:
             # f is orthogonal to the leading eigenvector: complete the norm
-- 
2.43.0


From acfb631fe026a444f1fc4e58f7de43f3c7794df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:36 +0000
Subject: [PATCH 060/185] fix: save a NoiseNode with pickle protocol 0

---
 mdp/nodes/misc_nodes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/misc_nodes.py b/mdp/nodes/misc_nodes.py
index 272a892..89cb75e 100644
--- a/mdp/nodes/misc_nodes.py
+++ b/mdp/nodes/misc_nodes.py
@@ -725,9 +725,8 @@ class NoiseNode(PreserveDimNode):
             # self.noise_func attribute.
             return real_pickle.dumps(self, protocol)
         else:
-            # if protocol != 0 open the file in binary mode
-            mode = 'w' if protocol == 0 else 'wb'
-            with open(filename, mode) as flh:
+            # pickle writes bytes, whatever the protocol
+            with open(filename, 'wb') as flh:
                 real_pickle.dump(self, flh, protocol)
 
 
-- 
2.43.0


From e5fdd72170ff0ca3697337837a7bdc8768faa7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:17 +0000
Subject: [PATCH 061/185] fix: deactivating an extension restores exactly the
 attributes of each class

---
 mdp/extension.py | 64 +++++++++++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 25 deletions(-)

diff --git a/mdp/extension.py b/mdp/extension.py
index 21f765d..20aaa4c 100644
--- a/mdp/extension.py
+++ b/mdp/extension.py
@@ -42,6 +42,9 @@ ORIGINAL_ATTR_PREFIX = "_non_extension_"
 # prefix used to store the current extension name for an attribute,
 # the value stored in this attribute is the extension name
 _EXTENSION_ATTR_PREFIX = "_extension_for_"
+# prefix for a marker that the original attribute was defined in the class
+# itself (and not in one of its superclasses)
+_OWN_ATTR_PREFIX = "_extension_overwrites_"
 # list of attribute names that are not affected by extensions,
 _NON_EXTENSION_ATTRIBUTES = [
     "__doc__",
@@ -293,6 +296,20 @@ def get_active_extensions():
     # value is used in a for-loop (see deactivate_extensions function)
     return list(_active_extensions)
 
+def _find_original_attribute(node_cls, attr_name):
+    """Return the attribute as it is without any active extension.
+
+    The return value is the tuple (found, attribute), the attribute is taken
+    directly from the class dict (i.e., it can be a descriptor).
+    """
+    for cls in node_cls.__mro__:
+        if _EXTENSION_ATTR_PREFIX + attr_name in cls.__dict__:
+            if _OWN_ATTR_PREFIX + attr_name in cls.__dict__:
+                return True, cls.__dict__[ORIGINAL_ATTR_PREFIX + attr_name]
+        elif attr_name in cls.__dict__:
+            return True, cls.__dict__[attr_name]
+    return False, None
+
 def activate_extension(extension_name, verbose=False):
     """Activate the extension by injecting the extension methods."""
     if extension_name not in list(_extensions.keys()):
@@ -324,15 +341,17 @@ def activate_extension(extension_name, verbose=False):
                                + "' and newly activated extension '" +
                                extension_name + "'.")
                         raise ExtensionException(err)
-                    # only overwrite the attribute if the extension is not
-                    # yet active on this class or its superclasses
-                    if ext_attr_name not in dir(node_cls):
-                        original_attr = getattr(node_cls, attr_name)
+                    has_original, original_attr = _find_original_attribute(
+                                                        node_cls, attr_name)
+                    if has_original:
                         if verbose:
                             print ("extension %s: overwriting %s in %s" %
                                 (extension_name, attr_name, node_cls.__name__))
                         setattr(node_cls, ORIGINAL_ATTR_PREFIX + attr_name,
                                 original_attr)
+                    if attr_name in node_cls.__dict__:
+                        # has to be restored when the extension is deactivated
+                        setattr(node_cls, _OWN_ATTR_PREFIX + attr_name, True)
                 setattr(node_cls, attr_name, attr_value)
                 # store to which extension this attribute belongs, this is also
                 # used as a flag that this is an extension attribute
@@ -357,29 +376,24 @@ def deactivate_extension(extension_name, verbose=False):
             if verbose:
                 print ("extension %s: removing %s from %s" %
                        (extension_name, attr_name, node_cls.__name__))
-            if original_name in node_cls.__dict__:
-                # restore the original attribute
-                if verbose:
-                    print ("extension %s: restoring %s in %s" %
-                           (extension_name, attr_name, node_cls.__name__))
+            try:
+                # might be missing if the activation failed
                 delattr(node_cls, attr_name)
-                original_attr = getattr(node_cls, original_name)
-                # Check if the attribute is defined by one of the super
-                # classes and test if the overwritten method is not that
-                # method, otherwise we would inject unwanted methods.
-                # Note: '==' tests identity for .__func__ and .__self__,
-                #    but .im_class does not matter in Python 2.6.
-                if all([getattr(x, attr_name, None) !=
-                           original_attr for x in node_cls.__mro__[1:]]):
-                    setattr(node_cls, attr_name, original_attr)
+            except AttributeError:
+                pass
+            if original_name in node_cls.__dict__:
+                # Only restore the original attribute if it belongs to this
+                # class. If it is defined by one of the superclasses we would
+                # inject unwanted methods.
+                if _OWN_ATTR_PREFIX + attr_name in node_cls.__dict__:
+                    if verbose:
+                        print ("extension %s: restoring %s in %s" %
+                               (extension_name, attr_name, node_cls.__name__))
+                    # use the dict to get the descriptor (e.g. staticmethod)
+                    setattr(node_cls, attr_name,
+                            node_cls.__dict__[original_name])
+                    delattr(node_cls, _OWN_ATTR_PREFIX + attr_name)
                 delattr(node_cls, original_name)
-            else:
-                try:
-                    # no original attribute to restore, so simply delete
-                    # might be missing if the activation failed
-                    delattr(node_cls, attr_name)
-                except AttributeError:
-                    pass
             try:
                 # might be missing if the activation failed
                 delattr(node_cls, _EXTENSION_ATTR_PREFIX + attr_name)
-- 
2.43.0


From c57ed67e5e43f1683815768836a065befc2f7558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:17 +0000
Subject: [PATCH 062/185] fix: a refused extension activation leaves the other
 active extensions in place

---
 mdp/extension.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/mdp/extension.py b/mdp/extension.py
index 20aaa4c..47884e9 100644
--- a/mdp/extension.py
+++ b/mdp/extension.py
@@ -373,14 +373,14 @@ def deactivate_extension(extension_name, verbose=False):
             continue
         for attr_name in list(attributes.keys()):
             original_name = ORIGINAL_ATTR_PREFIX + attr_name
+            if (node_cls.__dict__.get(_EXTENSION_ATTR_PREFIX + attr_name)
+                != extension_name):
+                # not injected, because the activation failed
+                continue
             if verbose:
                 print ("extension %s: removing %s from %s" %
                        (extension_name, attr_name, node_cls.__name__))
-            try:
-                # might be missing if the activation failed
-                delattr(node_cls, attr_name)
-            except AttributeError:
-                pass
+            delattr(node_cls, attr_name)
             if original_name in node_cls.__dict__:
                 # Only restore the original attribute if it belongs to this
                 # class. If it is defined by one of the superclasses we would
@@ -394,11 +394,7 @@ def deactivate_extension(extension_name, verbose=False):
                             node_cls.__dict__[original_name])
                     delattr(node_cls, _OWN_ATTR_PREFIX + attr_name)
                 delattr(node_cls, original_name)
-            try:
-                # might be missing if the activation failed
-                delattr(node_cls, _EXTENSION_ATTR_PREFIX + attr_name)
-            except AttributeError:
-                pass
+            delattr(node_cls, _EXTENSION_ATTR_PREFIX + attr_name)
     if _TEARDOWN_FUNC_ATTR in _extensions[extension_name]:
         _extensions[extension_name][_TEARDOWN_FUNC_ATTR]()
     _active_extensions.remove(extension_name)
-- 
2.43.0


From 814d715c0fc75f302ee877183708b8c76cb08924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:17 +0000
Subject: [PATCH 063/185] fix: activate_extensions does not deactivate
 unrelated extensions on errors

---
 mdp/extension.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mdp/extension.py b/mdp/extension.py
index 47884e9..29fe22c 100644
--- a/mdp/extension.py
+++ b/mdp/extension.py
@@ -404,14 +404,15 @@ def activate_extensions(extension_names, verbose=False):
 
     extension_names -- Sequence of extension names.
     """
+    already_active = get_active_extensions()
     try:
         for extension_name in extension_names:
             activate_extension(extension_name, verbose=verbose)
     except:
-        # if something goes wrong deactivate all, otherwise we might be
-        # in an inconsistent state (e.g. methods for active extensions might
-        # have been removed)
-        deactivate_extensions(get_active_extensions())
+        # if something goes wrong deactivate all extensions that were
+        # activated here, so that nothing has changed
+        deactivate_extensions([ext_name for ext_name in get_active_extensions()
+                               if ext_name not in already_active])
         raise
 
 def deactivate_extensions(extension_names, verbose=False):
-- 
2.43.0


From 6dfa607b292e90013356d45574a25ec715cf67cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:17 +0000
Subject: [PATCH 064/185] fix: the extension context manager can be entered
 again

---
 mdp/extension.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mdp/extension.py b/mdp/extension.py
index 29fe22c..5f64e83 100644
--- a/mdp/extension.py
+++ b/mdp/extension.py
@@ -485,14 +485,15 @@ class extension(object):
     def __init__(self, ext_names):
         if isinstance(ext_names, __builtins__['str']):
             ext_names = [ext_names]
-        self.ext_names = ext_names
+        self.ext_names = list(ext_names)
+        # stack with one list for each time that the context was entered
         self.deactivate_exts = []
 
     def __enter__(self):
         already_active = get_active_extensions()
-        self.deactivate_exts = [ext_name for ext_name in self.ext_names
-                                if ext_name not in already_active]
         activate_extensions(self.ext_names)
+        self.deactivate_exts.append([ext_name for ext_name in self.ext_names
+                                     if ext_name not in already_active])
 
     def __exit__(self, type, value, traceback):
-        deactivate_extensions(self.deactivate_exts)
+        deactivate_extensions(self.deactivate_exts.pop())
-- 
2.43.0


From 6410518ed56c9b9c66067c66cd0d541bbac7a67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:06 +0000
Subject: [PATCH 065/185] fix: OrderedResultContainer without results returns
 an empty sequence

---
 mdp/parallel/scheduling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/parallel/scheduling.py b/mdp/parallel/scheduling.py
index db06de5..d67d028 100644
--- a/mdp/parallel/scheduling.py
+++ b/mdp/parallel/scheduling.py
@@ -73,7 +73,7 @@ class OrderedResultContainer(ListResultContainer):
         results = self._results
         self._results = []
         results.sort(key=lambda x: x[1])
-        return list(zip(*results))[0]
+        return tuple(result for result, _ in results)
 
 
 class TaskCallable(object):
-- 
2.43.0


From 96269c462be6ae6eecf3b1da1d44588a8c9a2a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:06 +0000
Subject: [PATCH 066/185] fix: Scheduler.set_task_callable accepts functions
 like add_task

---
 mdp/parallel/scheduling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdp/parallel/scheduling.py b/mdp/parallel/scheduling.py
index d67d028..797a1d3 100644
--- a/mdp/parallel/scheduling.py
+++ b/mdp/parallel/scheduling.py
@@ -274,6 +274,9 @@ class Scheduler(object):
         task_callable -- Callable that will be used unless a new task_callable
             is given.
         """
+        if not hasattr(task_callable, "fork"):
+            # not a TaskCallable (probably a function), so wrap it
+            task_callable = TaskCallableWrapper(task_callable)
         self._lock.acquire()
         self._last_callable = task_callable
         # set _last_callable_index to half value since the callable is newer
-- 
2.43.0


From c0cffa6a34823a88dbf39451e4619661f5316c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:06 +0000
Subject: [PATCH 067/185] fix: a failing task does not leave the scheduler
 locked

---
 mdp/parallel/scheduling.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mdp/parallel/scheduling.py b/mdp/parallel/scheduling.py
index 797a1d3..653d055 100644
--- a/mdp/parallel/scheduling.py
+++ b/mdp/parallel/scheduling.py
@@ -248,6 +248,7 @@ class Scheduler(object):
         self._lock.acquire()
         if task_callable is None:
             if self._last_callable is None:
+                self._lock.release()
                 raise Exception("No task_callable specified and " +
                                 "no previous callable available.")
         self._n_open_tasks += 1
@@ -354,8 +355,14 @@ class Scheduler(object):
         task_callable must not be called. Only a forked version can be called.
         """
         # IMPORTANT: always call fork, since it must be called at least once!
-        task_callable = task_callable.fork()
-        result = task_callable(data)
+        try:
+            task_callable = task_callable.fork()
+            result = task_callable(data)
+        except:
+            # the scheduler must stay usable
+            self._n_open_tasks -= 1
+            self._lock.release()
+            raise
         # release lock before store_result
         self._lock.release()
         self._store_result(result, task_index)
-- 
2.43.0


From b1cc8fac69423bb448af51aea25d5e0b99e2465d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:06 +0000
Subject: [PATCH 068/185] fix: ThreadScheduler limits the number of threads and
 reports failing tasks

---
 mdp/parallel/scheduling.py      | 30 +++++++++++++++++++++++---
 mdp/parallel/thread_schedule.py | 37 +++++++++++++++++++++++++--------
 2 files changed, 55 insertions(+), 12 deletions(-)

diff --git a/mdp/parallel/scheduling.py b/mdp/parallel/scheduling.py
index 653d055..2b8c5fc 100644
--- a/mdp/parallel/scheduling.py
+++ b/mdp/parallel/scheduling.py
@@ -217,6 +217,7 @@ class Scheduler(object):
         self._last_callable = None  # last callable is stored
         # task index of the _last_callable, can be *.5 if updated between tasks
         self._last_callable_index = -1.0
+        self._task_errors = []  # exceptions of the failed tasks
 
     ## public read only properties ##
 
@@ -303,16 +304,39 @@ class Scheduler(object):
         self._n_open_tasks -= 1
         self._lock.release()
 
+    def _store_error(self, error, task_index):
+        """Register that a task has failed.
+
+        error -- The exception, it will be raised in get_results.
+        task_index -- Task index.
+        """
+        if not isinstance(error, Exception):
+            # e.g. SystemExit
+            error = Exception("task no. %d failed: %r" % (task_index, error))
+        self._lock.acquire()
+        self._task_errors.append(error)
+        if self.verbose:
+            print("    task no. %d failed" % task_index)
+        self._n_open_tasks -= 1
+        self._lock.release()
+
     def get_results(self):
         """Get the accumulated results from the result container.
 
-        This method blocks if there are open tasks.
+        This method blocks if there are open tasks. If a task has failed then
+        the results are dropped and the exception is raised.
         """
         while True:
             self._lock.acquire()
             if self._n_open_tasks == 0:
-                results = self.result_container.get_results()
-                self._lock.release()
+                errors = self._task_errors
+                self._task_errors = []
+                try:
+                    results = self.result_container.get_results()
+                finally:
+                    self._lock.release()
+                if errors:
+                    raise errors[0]
                 return results
             else:
                 self._lock.release()
diff --git a/mdp/parallel/thread_schedule.py b/mdp/parallel/thread_schedule.py
index 09a4d11..ecbaeab 100644
--- a/mdp/parallel/thread_schedule.py
+++ b/mdp/parallel/thread_schedule.py
@@ -60,14 +60,22 @@ class ThreadScheduler(Scheduler):
                 time.sleep(SLEEP_TIME)
                 self._lock.acquire()
             else:
+                self._n_active_threads += 1
                 self._lock.release()
-                task_callable = task_callable.fork()
-                if self.copy_callable:
-                    # create a deep copy of the task_callable,
-                    # since it might not be thread safe 
-                    # (but the fork is still required)
-                    as_str = pickle.dumps(task_callable, -1)
-                    task_callable = pickle.loads(as_str)
+                try:
+                    task_callable = task_callable.fork()
+                    if self.copy_callable:
+                        # create a deep copy of the task_callable,
+                        # since it might not be thread safe 
+                        # (but the fork is still required)
+                        as_str = pickle.dumps(task_callable, -1)
+                        task_callable = pickle.loads(as_str)
+                except:
+                    self._lock.acquire()
+                    self._n_active_threads -= 1
+                    self._n_open_tasks -= 1
+                    self._lock.release()
+                    raise
                 try:
                     thread = threading.Thread(target=self._task_thread,
                                               args=(data, task_callable,
@@ -79,9 +87,20 @@ class ThreadScheduler(Scheduler):
                         print ("unable to create new thread,"
                                " waiting 2 seconds...")
                     time.sleep(2)
+                    self._lock.acquire()
+                    self._n_active_threads -= 1
 
     def _task_thread(self, data, task_callable, task_index):
         """Thread function which processes a single task."""
-        result = task_callable(data)
-        self._store_result(result, task_index)
+        error = None
+        try:
+            result = task_callable(data)
+        except BaseException as exception:
+            error = exception
+        self._lock.acquire()
         self._n_active_threads -= 1
+        self._lock.release()
+        if error is None:
+            self._store_result(result, task_index)
+        else:
+            self._store_error(error, task_index)
-- 
2.43.0


From cc8e14fb01a67ebd352017654d1dd170082cf8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:06 +0000
Subject: [PATCH 069/185] fix: ProcessScheduler always forks the task callable

---
 mdp/parallel/process_schedule.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdp/parallel/process_schedule.py b/mdp/parallel/process_schedule.py
index cb99cd2..3f0f29a 100644
--- a/mdp/parallel/process_schedule.py
+++ b/mdp/parallel/process_schedule.py
@@ -233,6 +233,7 @@ def _process_run(cache_callable=True):
                     task_callable = task_callable.fork()
                 else:
                     task_callable.setup_environment()
+                    task_callable = task_callable.fork()
                 result = task_callable(data)
                 del task_callable  # free memory
                 pickle.dump(result, pickle_out, protocol=-1)
-- 
2.43.0


From 480a1eb447e5b07ec90150965322b1b43f147394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:06 +0000
Subject: [PATCH 070/185] fix: ProcessScheduler runs each task with the
 callable that was current for it

---
 mdp/parallel/process_schedule.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mdp/parallel/process_schedule.py b/mdp/parallel/process_schedule.py
index 3f0f29a..8301718 100644
--- a/mdp/parallel/process_schedule.py
+++ b/mdp/parallel/process_schedule.py
@@ -141,6 +141,9 @@ class ProcessScheduler(Scheduler):
         It blocks when the system is not able to start a new thread
         or when the processes are all in use.
         """
+        # remember which callable belongs to this task, since newer tasks
+        # could be added before the task is pushed to the process
+        callable_index = self._last_callable_index
         task_started = False
         while not task_started:
             if not len(self._free_processes):
@@ -154,7 +157,8 @@ class ProcessScheduler(Scheduler):
                     self._lock.release()
                     thread = threading.Thread(target=self._task_thread,
                                               args=(process, data,
-                                                    task_callable, task_index))
+                                                    task_callable, task_index,
+                                                    callable_index))
                     thread.start()
                     task_started = True
                 except thread.error:
@@ -163,7 +167,8 @@ class ProcessScheduler(Scheduler):
                                " waiting 2 seconds...")
                     time.sleep(2)
 
-    def _task_thread(self, process, data, task_callable, task_index):
+    def _task_thread(self, process, data, task_callable, task_index,
+                     callable_index):
         """Thread function which cares for a single task.
 
         The task is pushed to the process via stdin, then we wait for the
@@ -173,8 +178,8 @@ class ProcessScheduler(Scheduler):
         try:
             if self._cache_callable:
                 # check if the cached callable is up to date
-                if process._callable_index < self._last_callable_index:
-                    process._callable_index = self._last_callable_index
+                if process._callable_index != callable_index:
+                    process._callable_index = callable_index
                 else:
                     task_callable = None
             # push the task to the process
-- 
2.43.0


From 9802b4e8009e2ab78f183b16bad1005d9d203ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:06 +0000
Subject: [PATCH 071/185] fix: ProcessScheduler reports failing tasks and stays
 usable

---
 mdp/parallel/process_schedule.py | 49 +++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/mdp/parallel/process_schedule.py b/mdp/parallel/process_schedule.py
index 8301718..dc8cc93 100644
--- a/mdp/parallel/process_schedule.py
+++ b/mdp/parallel/process_schedule.py
@@ -106,20 +106,25 @@ class ProcessScheduler(Scheduler):
         if source_paths is None:
             source_paths = sys.path
         process_args += source_paths
+        self._process_args = process_args
         # list of processes not in use, start the processes now
-        self._free_processes = [subprocess.Popen(args=process_args,
-                                                 stdout=subprocess.PIPE,
-                                                 stdin=subprocess.PIPE)
+        self._free_processes = [self._start_process()
                                 for _ in range(self._n_processes)]
-        # tag each process with its cached callable task_index,
-        # this is compared with _last_callable_index to check if the cached
-        # task_callable is still up to date
-        for process in self._free_processes:
-            process._callable_index = -1
         if self.verbose:
             print ("scheduler initialized with %d processes" %
                    self._n_processes)
 
+    def _start_process(self):
+        """Start a new slave process and return it."""
+        process = subprocess.Popen(args=self._process_args,
+                                   stdout=subprocess.PIPE,
+                                   stdin=subprocess.PIPE)
+        # tag each process with its cached callable task_index,
+        # this is compared with the index of the callable of a task to check
+        # if the cached task_callable is still up to date
+        process._callable_index = -1
+        return process
+
     def _shutdown(self):
         """Shut down the slave processes.
 
@@ -127,6 +132,7 @@ class ProcessScheduler(Scheduler):
         """
         self._lock.acquire()
         if len(self._free_processes) < self._n_processes:
+            self._lock.release()
             raise Exception("some slave process is still working")
         for process in self._free_processes:
             pickle.dump("EXIT", process.stdin)
@@ -161,11 +167,13 @@ class ProcessScheduler(Scheduler):
                                                     callable_index))
                     thread.start()
                     task_started = True
-                except thread.error:
+                except Exception:
                     if self.verbose:
                         print ("unable to create new task thread,"
                                " waiting 2 seconds...")
                     time.sleep(2)
+                    self._lock.acquire()
+                    self._free_processes.append(process)
 
     def _task_thread(self, process, data, task_callable, task_index,
                      callable_index):
@@ -188,13 +196,26 @@ class ProcessScheduler(Scheduler):
             process.stdin.flush()
             # wait for result to arrive
             result = pickle.load(process.stdout)
-        except:
+        except Exception as exception:
             traceback.print_exc()
-            self._free_processes.append(process)
-            sys.exit("failed to execute task %d in process:" % task_index)
-        # store the result and clean up
-        self._store_result(result, task_index)
+            # the process has exited or is in an undefined state, replace it
+            process.kill()
+            process.wait()
+            process.stdout.close()
+            try:
+                process.stdin.close()
+            except Exception:
+                # unsent data
+                pass
+            self._free_processes.append(self._start_process())
+            if isinstance(exception, (EOFError, IOError)):
+                exception = Exception("failed to execute task %d in process"
+                                      % task_index)
+            self._store_error(exception, task_index)
+            return
+        # free the process and store the result
         self._free_processes.append(process)
+        self._store_result(result, task_index)
 
 
 def _process_run(cache_callable=True):
-- 
2.43.0


From 3f89c2ec659260a51aec712154aa9c4aab4a0a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:02 +0000
Subject: [PATCH 072/185] fix: NIPALSNode and VartimeSFANode are trained
 locally in a parallel flow

---
 mdp/parallel/parallelnodes.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/mdp/parallel/parallelnodes.py b/mdp/parallel/parallelnodes.py
index b0ca7cc..5acebde 100644
--- a/mdp/parallel/parallelnodes.py
+++ b/mdp/parallel/parallelnodes.py
@@ -208,6 +208,24 @@ class ParallelSFANode(ParallelExtensionNode, mdp.nodes.SFANode):
             self._join_covariance(self._dcov_mtx, forked_node._dcov_mtx)
 
 
+class ParallelNIPALSNode(ParallelExtensionNode, mdp.nodes.NIPALSNode):
+    """NIPALSNode needs all the data at once, so it is not parallelized."""
+
+    def _fork(self):
+        raise NotForkableParallelException("NIPALSNode can not be forked, "
+                                           "it needs all the data")
+
+
+class ParallelVartimeSFANode(ParallelExtensionNode, mdp.nodes.VartimeSFANode):
+    """VartimeSFANode depends on the transitions between the data chunks, so
+    it is not parallelized.
+    """
+
+    def _fork(self):
+        raise NotForkableParallelException("VartimeSFANode can not be forked, "
+                                           "the chunks are not independent")
+
+
 class ParallelFDANode(ParallelExtensionNode, mdp.nodes.FDANode):
 
     def _fork(self):
-- 
2.43.0


From aefdc41ce25c421520a854d57f4807cc41f86c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:02 +0000
Subject: [PATCH 073/185] fix: ParallelFlow.execute with a scheduler does not
 ignore nodenr

---
 mdp/parallel/parallelflows.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 9eb2e44..7b31e52 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -622,6 +622,7 @@ class ParallelFlow(mdp.Flow):
         # forked in the scheduler.
         self._next_task = (task_data_chunk,
                            self._execute_callable_class(self._flownode,
+                                                        nodenr=nodenr,
                                                         purge_nodes=True))
 
     def _create_execute_task(self):
-- 
2.43.0


From d73036c02cce3ecdf8d411b6905c1ee9b5d36664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:02 +0000
Subject: [PATCH 074/185] fix: parallel training with an iterable of schedulers
 if all nodes are already trained

---
 mdp/parallel/parallelflows.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 7b31e52..316fe22 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -324,19 +324,19 @@ class ParallelFlow(mdp.Flow):
                     # self._i_train_node was set in setup_parallel_training
                     schedulers = iter(scheduler)
                     scheduler = next(schedulers)
-                    if self._i_train_node > 0:
-                        # dispose schedulers for pretrained nodes
-                        for _ in range(self._i_train_node):
-                            if scheduler is not None:
-                                scheduler.shutdown()
-                            scheduler = next(schedulers)
-                    elif self._i_train_node is None:
+                    if self._i_train_node is None:
                         # all nodes are already trained, dispose schedulers
                         for _ in range(len(self.flow) - 1):
                             if scheduler is not None:
                                 scheduler.shutdown()
                             # the last scheduler will be shutdown in finally
                             scheduler = next(schedulers)
+                    elif self._i_train_node > 0:
+                        # dispose schedulers for pretrained nodes
+                        for _ in range(self._i_train_node):
+                            if scheduler is not None:
+                                scheduler.shutdown()
+                            scheduler = next(schedulers)
                     last_trained_node = self._i_train_node
                 else:
                     schedulers = None
-- 
2.43.0


From 313e0b216e84f6ae381ef115b6c237c2ef7b36fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:02 +0000
Subject: [PATCH 075/185] fix: a failed parallel training does not leave the
 flow in parallel training

---
 mdp/parallel/parallelflows.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 316fe22..a31d60b 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -378,6 +378,9 @@ class ParallelFlow(mdp.Flow):
                 # reset iterable references, which cannot be pickled
                 self._train_data_iterables = None
                 self._train_data_iterator = None
+                # only relevant after an exception
+                self._i_train_node = None
+                self._next_task = None
                 if (schedulers is not None) and (scheduler is not None):
                     scheduler.shutdown()
 
-- 
2.43.0


From 39a95e8d6039dce938276fac7d6b645e55abca21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:02 +0000
Subject: [PATCH 076/185] fix: ParallelCheckpointFlow can be trained without a
 scheduler

---
 mdp/parallel/parallelflows.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index a31d60b..fcc6c84 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -729,7 +729,7 @@ class ParallelCheckpointFlow(ParallelFlow, mdp.CheckpointFlow):
                                                      **kwargs)
 
     def train(self, data_iterables, checkpoints, scheduler=None,
-              train_callable_class=FlowTrainCallable,
+              train_callable_class=None,
               overwrite_result_container=True,
               **kwargs):
         """Train all trainable nodes in the flow.
-- 
2.43.0


From 6ee9abe1df566b2a4574dc4dfc12a92adc9f2bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:57 +0000
Subject: [PATCH 077/185] fix: a ParallelFlow can be copied after manual
 parallel training

---
 mdp/parallel/parallelflows.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index fcc6c84..650a952 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -479,6 +479,9 @@ class ParallelFlow(mdp.Flow):
         else:
             # training is finished
             self._i_train_node = None
+            # reset iterable references, which cannot be pickled
+            self._train_data_iterables = None
+            self._train_data_iterator = None
 
     def _local_train_phase(self, data_iterable):
         """Perform a single training phase locally.
-- 
2.43.0


From 3528211e980bab17374ff67ed75570dbac7488ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:15 +0000
Subject: [PATCH 078/185] fix: FlowNode with a single node of fixed output
 dimension

---
 mdp/hinet/flownode.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mdp/hinet/flownode.py b/mdp/hinet/flownode.py
index 140461a..2479eae 100644
--- a/mdp/hinet/flownode.py
+++ b/mdp/hinet/flownode.py
@@ -81,9 +81,12 @@ class FlowNode(mdp.Node):
 
     def _set_output_dim(self, n):
         last_node = self._flow[-1]
-        if len(self._flow) == 1:
-            self._flow[-1].output_dim = n
-        elif last_node.output_dim is None:
+        if last_node.output_dim is not None:
+            # nothing to set (not all nodes allow to set it explicitly)
+            pass
+        elif len(self._flow) == 1:
+            last_node.output_dim = n
+        else:
             self._fix_nodes_dimensions()
             # check if it worked
             if last_node.output_dim is None:
-- 
2.43.0


From 1ae0dc6e697670d778e476b6f409f1840f019162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:24 +0000
Subject: [PATCH 079/185] fix: parallel execution with nodenr does not depend
 on the last node's dimensions

---
 mdp/parallel/parallelflows.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 650a952..65ed9b9 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -159,7 +159,12 @@ class FlowExecuteCallable(FlowTaskCallable):
         If use_fork_execute is True for the flownode then it is returned
         in the result tuple.
         """
-        y = self._flownode.execute(x, nodenr=self._nodenr)
+        if self._nodenr is None:
+            y = self._flownode.execute(x)
+        else:
+            # the output dimension of the FlowNode is that of its last node,
+            # so it does not apply when the execution stops at another node
+            y = self._flownode._flow.execute(x, nodenr=self._nodenr)
         if self._flownode.use_execute_fork():
             if self._purge_nodes:
                 _purge_flownode(self._flownode)
-- 
2.43.0


From 95690f0887973f957aad74d7996879b4df953bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 080/185] fix: the output dimension of a FlowNode is that of
 its nodes, not its input dimension

---
 bimdp/hinet/biflownode.py |  4 ++++
 mdp/hinet/flownode.py     | 22 ++++++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/bimdp/hinet/biflownode.py b/bimdp/hinet/biflownode.py
index 78d2dd2..8ac8fab 100644
--- a/bimdp/hinet/biflownode.py
+++ b/bimdp/hinet/biflownode.py
@@ -76,6 +76,10 @@ class BiFlowNode(BiNode, hinet.FlowNode):
                     self._last_id_request = len(self._flow) - 1
         return default_method, target
 
+    def _find_output_dim(self, dtype):
+        # the data does not have to pass through all the nodes
+        pass
+
     def _execute(self, x, msg=None):
         target = self._get_target()
         i_node = self._flow._target_to_index(target)
diff --git a/mdp/hinet/flownode.py b/mdp/hinet/flownode.py
index 2479eae..8985187 100644
--- a/mdp/hinet/flownode.py
+++ b/mdp/hinet/flownode.py
@@ -118,6 +118,28 @@ class FlowNode(mdp.Node):
             # additional checks are performed here
             self.output_dim = self._flow[-1].output_dim
 
+    def _check_input(self, x):
+        super(FlowNode, self)._check_input(x)
+        if self.output_dim is None and not self.is_training():
+            self._find_output_dim(x.dtype)
+
+    def _find_output_dim(self, dtype):
+        """Set the output_dim to the one that results from the internal nodes.
+
+        For the trained nodes it is the one they get when they are executed.
+        """
+        prev_node = None
+        for node in self._flow:
+            if node.input_dim is None and prev_node is not None:
+                node.input_dim = prev_node.output_dim
+            if node.output_dim is None:
+                if node.input_dim is None or node.is_training():
+                    return
+                node._pre_execution_checks(
+                    mdp.numx.zeros((1, node.input_dim), dtype=dtype))
+            prev_node = node
+        self._fix_nodes_dimensions()
+
     def _set_dtype(self, t):
         # dtype can not be set for sure in arbitrary flows
         # but here we want to be sure that FlowNode *can*
-- 
2.43.0


From 1f51d7d771c1b10e6ed3cbe3221697bd90791c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:35 +0000
Subject: [PATCH 081/185] fix: a parallel FlowNode can be joined before all its
 nodes know their dimensions

---
 mdp/parallel/parallelhinet.py | 7 +++++++
 mdp/parallel/parallelnodes.py | 8 ++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/mdp/parallel/parallelhinet.py b/mdp/parallel/parallelhinet.py
index ac95fde..875b720 100644
--- a/mdp/parallel/parallelhinet.py
+++ b/mdp/parallel/parallelhinet.py
@@ -30,6 +30,11 @@ class ParallelFlowNode(hinet.FlowNode, parallelnodes.ParallelExtensionNode):
                 node_list.append(node)
         return self.__class__(self._flow.__class__(node_list))
     
+    def _join_output_dim(self, forked_node):
+        # the output_dim is that of the last node (see _join), which can't be
+        # set while the dimensions of the nodes before it are unknown
+        pass
+
     def _join(self, forked_node):
         """Join the required nodes from the forked node into this FlowNode."""
         found_train_node = False  # set to True at the first training node          
@@ -39,6 +44,8 @@ class ParallelFlowNode(hinet.FlowNode, parallelnodes.ParallelExtensionNode):
                 self._flow[i_node].join(node)
             elif node.use_execute_fork():
                 self._flow[i_node].join(node)
+        if self.output_dim is None:
+            self.output_dim = self._flow[-1].output_dim
     
     def use_execute_fork(self):
         return any(node.use_execute_fork() for node in self._flow)
diff --git a/mdp/parallel/parallelnodes.py b/mdp/parallel/parallelnodes.py
index 5acebde..6c46837 100644
--- a/mdp/parallel/parallelnodes.py
+++ b/mdp/parallel/parallelnodes.py
@@ -75,12 +75,16 @@ class ParallelExtensionNode(mdp.ExtensionNode, mdp.Node):
             self.dtype = forked_node.dtype
         if self.input_dim is None:
             self.input_dim = forked_node.input_dim
-        if self.output_dim is None:
-            self.output_dim = forked_node.output_dim
+        self._join_output_dim(forked_node)
         if forked_node._train_phase_started and not self._train_phase_started:
             self._train_phase_started = True
         self._join(forked_node)
 
+    def _join_output_dim(self, forked_node):
+        """Take over the output_dim of the fork if it is not known yet."""
+        if self.output_dim is None:
+            self.output_dim = forked_node.output_dim
+
     ## overwrite these methods ##
 
     def _fork(self):
-- 
2.43.0


From c6d8a53ed590e431d7e3528e807cdaf6ce9f8e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:28 +0000
Subject: [PATCH 082/185] fix: parallel execution of a Layer with nodes that
 need a fork collects their results

---
 mdp/parallel/parallelhinet.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/mdp/parallel/parallelhinet.py b/mdp/parallel/parallelhinet.py
index 875b720..91dd107 100644
--- a/mdp/parallel/parallelhinet.py
+++ b/mdp/parallel/parallelhinet.py
@@ -58,17 +58,23 @@ class ParallelLayer(hinet.Layer, parallelnodes.ParallelExtensionNode):
         """Fork or copy all the nodes in the layer to fork the layer."""
         forked_nodes = []
         for node in self.nodes:
-            if node.is_training():
+            if node.is_training() or node.use_execute_fork():
                 forked_nodes.append(node.fork())
             else:
                 forked_nodes.append(node)
         return self.__class__(forked_nodes)
 
+    def _join_output_dim(self, forked_node):
+        # the output_dim must not be set before that of all the nodes is known
+        pass
+
     def _join(self, forked_node):
-        """Join the trained nodes from the forked layer."""
+        """Join the required nodes from the forked layer."""
         for i_node, layer_node in enumerate(self.nodes):
-            if layer_node.is_training():
+            if layer_node.is_training() or layer_node.use_execute_fork():
                 layer_node.join(forked_node.nodes[i_node])
+        if self.output_dim is None:
+            self.output_dim = self._get_output_dim_from_nodes()
     
     def use_execute_fork(self):
         return any(node.use_execute_fork() for node in self.nodes)
@@ -81,9 +87,15 @@ class ParallelCloneLayer(hinet.CloneLayer, parallelnodes.ParallelExtensionNode):
         """Fork the internal node in the clone layer."""
         return self.__class__(self.node.fork(), n_nodes=len(self.nodes))
 
+    def _join_output_dim(self, forked_node):
+        # the output_dim must not be set before that of the node is known
+        pass
+
     def _join(self, forked_node):
         """Join the internal node in the clone layer."""
         self.node.join(forked_node.node)
+        if self.output_dim is None:
+            self.output_dim = self._get_output_dim_from_nodes()
     
     def use_execute_fork(self):
         return self.node.use_execute_fork()
-- 
2.43.0


From 41485afd914d060478096cf49d84df253c5c3a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:04 +0000
Subject: [PATCH 083/185] fix: a Layer does not count the training phases its
 nodes have already finished

---
 mdp/hinet/layer.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mdp/hinet/layer.py b/mdp/hinet/layer.py
index 1894d5d..b671c49 100644
--- a/mdp/hinet/layer.py
+++ b/mdp/hinet/layer.py
@@ -51,6 +51,9 @@ class Layer(mdp.Node):
             self.node_input_dims[index] = node.input_dim
         output_dim = self._get_output_dim_from_nodes()
 
+        # store which nodes are pretrained up to what phase
+        self._pretrained_phase = [node.get_current_train_phase()
+                                  for node in nodes]
         # set layer state
         nodes_is_training = [node.is_training() for node in nodes]
         if mdp.numx.any(nodes_is_training):
@@ -138,8 +141,11 @@ class Layer(mdp.Node):
         The length is set by the node with maximum length.
         """
         max_train_length = 0
-        for node in self.nodes:
-            node_length = len(node._get_train_seq())
+        for node, pretrained_phase in zip(self.nodes, self._pretrained_phase):
+            if not node.is_trainable():
+                continue
+            # phases that were finished before do not count
+            node_length = len(node._get_train_seq()) - pretrained_phase
             if node_length > max_train_length:
                 max_train_length = node_length
         return [[self._train, self._stop_training]] * max_train_length
@@ -308,6 +314,9 @@ class SameInputLayer(Layer):
                 raise mdp.NodeException(err)
         output_dim = self._get_output_dim_from_nodes()
 
+        # store which nodes are pretrained up to what phase
+        self._pretrained_phase = [node.get_current_train_phase()
+                                  for node in nodes]
         # set layer state
         nodes_is_training = [node.is_training() for node in nodes]
         if mdp.numx.any(nodes_is_training):
-- 
2.43.0


From bc3b70207c60eaf2eb4d22b07950e0e0116c05e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:05 +0000
Subject: [PATCH 084/185] fix: CloneLayer forwards additional execute and
 inverse arguments

---
 mdp/hinet/layer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mdp/hinet/layer.py b/mdp/hinet/layer.py
index b671c49..f252b1d 100644
--- a/mdp/hinet/layer.py
+++ b/mdp/hinet/layer.py
@@ -275,12 +275,18 @@ class CloneLayer(Layer):
             self.output_dim = self._get_output_dim_from_nodes()
 
     def _execute(self, x, *args, **kwargs):
+        if args or kwargs:
+            # the arguments belong to the whole chunk
+            return super(CloneLayer, self)._execute(x, *args, **kwargs)
         n_samples = x.shape[0]
         x = x.reshape(n_samples * x.shape[1] // self.node.input_dim, self.node.input_dim)
         y = self.node.execute(x)
         return y.reshape(n_samples, self.output_dim)
 
     def _inverse(self, x, *args, **kwargs):
+        if args or kwargs:
+            # the arguments belong to the whole chunk
+            return super(CloneLayer, self)._inverse(x, *args, **kwargs)
         n_samples = x.shape[0]
         x = x.reshape(n_samples * x.shape[1] // self.node.output_dim, self.node.output_dim)
         y = self.node.inverse(x)
-- 
2.43.0


From 3ed6438be8bf29d9b37b7130a6e738f6e30b1bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:03 +0000
Subject: [PATCH 085/185] fix: executing an untrained layer trains it as a
 layer, not its nodes one by one

---
 mdp/hinet/layer.py        |  6 ++++++
 mdp/signal_node.py        | 15 +++++++++------
 mdp/signal_node_online.py |  9 ++++++---
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/mdp/hinet/layer.py b/mdp/hinet/layer.py
index f252b1d..c2e99ac 100644
--- a/mdp/hinet/layer.py
+++ b/mdp/hinet/layer.py
@@ -170,6 +170,9 @@ class Layer(mdp.Node):
 
     def _pre_execution_checks(self, x):
         """Make sure that output_dim is set and then perform normal checks."""
+        if self.output_dim is None:
+            # the nodes are trained by the layer, not one by one
+            self._train_if_not_started(x)
         if self.output_dim is None:
             # first make sure that the output_dim is set for all nodes
             in_start = 0
@@ -349,6 +352,9 @@ class SameInputLayer(Layer):
 
     def _pre_execution_checks(self, x):
         """Make sure that output_dim is set and then perform nromal checks."""
+        if self.output_dim is None:
+            # the nodes are trained by the layer, not one by one
+            self._train_if_not_started(x)
         if self.output_dim is None:
             # first make sure that the output_dim is set for all nodes
             for node in self.nodes:
diff --git a/mdp/signal_node.py b/mdp/signal_node.py
index 946a66a..46b19a0 100644
--- a/mdp/signal_node.py
+++ b/mdp/signal_node.py
@@ -521,12 +521,8 @@ class Node(with_metaclass(NodeMetaclass, object)):
                 error_str = "The training phases are not completed yet."
                 raise TrainingException(error_str)
 
-    def _pre_execution_checks(self, x):
-        """This method contains all pre-execution checks.
-
-        It can be used when a subclass defines multiple execution methods.
-        """
-        # if training has not started yet, assume we want to train the node
+    def _train_if_not_started(self, x):
+        """If training has not started yet, assume we want to train the node."""
         if (self.get_current_train_phase() == 0 and
             not self._train_phase_started):
             while True:
@@ -536,6 +532,13 @@ class Node(with_metaclass(NodeMetaclass, object)):
                 else:
                     break
 
+    def _pre_execution_checks(self, x):
+        """This method contains all pre-execution checks.
+
+        It can be used when a subclass defines multiple execution methods.
+        """
+        self._train_if_not_started(x)
+
         self._if_training_stop_training()
 
         # control the dimension x
diff --git a/mdp/signal_node_online.py b/mdp/signal_node_online.py
index 5582a66..3f0e0ed 100644
--- a/mdp/signal_node_online.py
+++ b/mdp/signal_node_online.py
@@ -172,15 +172,18 @@ class OnlineNode(Node):
 
     # check functions
 
+    def _train_if_not_started(self, x):
+        """If training has not started yet, assume we want to train the node."""
+        if (self.get_current_train_phase() == 0) and not self._train_phase_started:
+            self.train(x)
+
     # The stop-training operation is removed to support continual training
     # and execution phases.
     def _pre_execution_checks(self, x):
         """This method contains all pre-execution checks.
         It can be used when a subclass defines multiple execution methods.
         """
-        # if training has not started yet, assume we want to train the node
-        if (self.get_current_train_phase() == 0) and not self._train_phase_started:
-            self.train(x)
+        self._train_if_not_started(x)
 
         # control the dimension x
         self._check_input(x)
-- 
2.43.0


From 09470b2ef13999ed8953983c9a6a18384414aef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:58 +0000
Subject: [PATCH 086/185] fix: the factory of DoubleRhomb2dSwitchboard passes
 the right argument

---
 mdp/hinet/switchboard_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/hinet/switchboard_factory.py b/mdp/hinet/switchboard_factory.py
index 6df50eb..784c99f 100644
--- a/mdp/hinet/switchboard_factory.py
+++ b/mdp/hinet/switchboard_factory.py
@@ -132,6 +132,6 @@ class FactoryDoubleRhomb2dSwitchboard(FactoryExtensionChannelSwitchboard,
     def _get_switchboard_kwargs(free_params, prev_switchboard,
                                 prev_output_dim):
         in_channel_dim = (prev_output_dim // prev_switchboard.output_channels)
-        return {"long_out_channels_xy": prev_switchboard.long_out_channels_xy,
+        return {"long_in_channels_xy": prev_switchboard.long_out_channels_xy,
                 "diag_field_channels": free_params["field_size"],
                 "in_channel_dim": in_channel_dim}
-- 
2.43.0


From 7664c1d1344122c82e50500ed0390435f22162de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:58 +0000
Subject: [PATCH 087/185] fix: Switchboard refuses negative connection indices

---
 mdp/hinet/switchboard.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdp/hinet/switchboard.py b/mdp/hinet/switchboard.py
index c90f07e..0322e43 100644
--- a/mdp/hinet/switchboard.py
+++ b/mdp/hinet/switchboard.py
@@ -56,6 +56,9 @@ class Switchboard(mdp.Node):
             err = ("One or more switchboard connection "
                    "indices exceed the input dimension.")
             raise SwitchboardException(err)
+        if numx.nanmin(connections) < 0:
+            err = "One or more switchboard connection indices are negative."
+            raise SwitchboardException(err)
         # checks passed
         self.connections = numx.array(connections)
         output_dim = len(connections)
-- 
2.43.0


From 8bfd76aafc5ae09731e7e25a50637ad8b1753253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:58 +0000
Subject: [PATCH 088/185] fix: the inverse of MeanInverseSwitchboard keeps the
 data type

---
 mdp/hinet/switchboard.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdp/hinet/switchboard.py b/mdp/hinet/switchboard.py
index 0322e43..1816efa 100644
--- a/mdp/hinet/switchboard.py
+++ b/mdp/hinet/switchboard.py
@@ -110,7 +110,9 @@ class MeanInverseSwitchboard(Switchboard):
         """Take the mean of overlapping values."""
         n_y_cons = numx.bincount(self.connections)  # n. connections to y_i
         y_cons = numx.argsort(self.connections)  # x indices for y_i
-        y = numx.zeros((len(x), self.input_dim))
+        # the mean values of integers are generally not integers
+        dtype = x.dtype if x.dtype.kind in "fc" else "d"
+        y = numx.zeros((len(x), self.input_dim), dtype=dtype)
         i_x_counter = 0  # counter for processed x indices
         i_y = 0  # current y index
         while True:
-- 
2.43.0


From 60c689502a163c142b2167fc40bd99181b0d059c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:58 +0000
Subject: [PATCH 089/185] fix: Rectangular2dSwitchboard refuses fields with
 gaps between them

---
 mdp/hinet/switchboard.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mdp/hinet/switchboard.py b/mdp/hinet/switchboard.py
index 1816efa..3e41077 100644
--- a/mdp/hinet/switchboard.py
+++ b/mdp/hinet/switchboard.py
@@ -301,6 +301,14 @@ class Rectangular2dSwitchboard(ChannelSwitchboard):
                 err = ("Channel fields do not "
                        "cover all input channels in %s-direction." % name)
                 raise Rectangular2dSwitchboardException(err)
+        # there can be uncovered channels between the fields as well
+        for i, (name, out_channels) in enumerate([("x", x_out_channels),
+                                                  ("y", y_out_channels)]):
+            if (out_channels > 1 and not ignore_cover and
+                field_spacing_xy[i] > field_channels_xy[i]):
+                err = ("Channel fields do not cover the input channels "
+                       "between them in %s-direction." % name)
+                raise Rectangular2dSwitchboardException(err)
         self.out_channels_xy = (x_out_channels, y_out_channels)
         ## end of parameters checks
         # TODO: rewrite all this leveraging numpy?
-- 
2.43.0


From 7c3d8cf843b96aa878ce64ddbaa0693d2ce0be20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:15 +0000
Subject: [PATCH 090/185] fix: MeanInverseSwitchboard inverts message arrays of
 higher dimension in a BiSwitchboard

---
 mdp/hinet/switchboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/hinet/switchboard.py b/mdp/hinet/switchboard.py
index 3e41077..d55408c 100644
--- a/mdp/hinet/switchboard.py
+++ b/mdp/hinet/switchboard.py
@@ -112,7 +112,7 @@ class MeanInverseSwitchboard(Switchboard):
         y_cons = numx.argsort(self.connections)  # x indices for y_i
         # the mean values of integers are generally not integers
         dtype = x.dtype if x.dtype.kind in "fc" else "d"
-        y = numx.zeros((len(x), self.input_dim), dtype=dtype)
+        y = numx.zeros((len(x), self.input_dim) + x.shape[2:], dtype=dtype)
         i_x_counter = 0  # counter for processed x indices
         i_y = 0  # current y index
         while True:
-- 
2.43.0


From 53f2480e4e4e8cb68423dc95d78f7de229aaab4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:41 +0000
Subject: [PATCH 091/185] fix: OnlineFlow trains a terminal batch node with all
 the data and in all its phases

---
 mdp/linear_flows_online.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index b8543f0..5883ea1 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -100,7 +100,8 @@ class OnlineFlow(mdp.Flow):
         _train_args_needed_list = [bool(len(train_arg_keys)) for train_arg_keys in _train_arg_keys_list]
         return _train_arg_keys_list, _train_args_needed_list
 
-    def _train_nodes(self, data_iterables):
+    def _train_nodes(self, data_iterables, first_nodenr=0):
+        # the nodes in front of 'first_nodenr' are executed but not trained.
         empty_iterator = True
         for x in data_iterables:
             if (type(x) is tuple) or (type(x) is list):
@@ -116,8 +117,10 @@ class OnlineFlow(mdp.Flow):
             for nodenr in range(len(self.flow)):
                 try:
                     node = self.flow[nodenr]
+                    # a trained or non-trainable node takes no arguments
+                    training = node.is_training() and nodenr >= first_nodenr
                     # check if the required number of arguments was given
-                    if self._train_args_needed_list[nodenr]:
+                    if training and self._train_args_needed_list[nodenr]:
                         # the nodenr'th arguments tuple are passed only to the
                         # currently training node, allowing the implementation of
                         # supervised nodes
@@ -131,14 +134,14 @@ class OnlineFlow(mdp.Flow):
                                    "List of required argument keys: " +
                                    str(self._train_arg_keys_list[nodenr]))
                             raise OnlineFlowException(err)
-                        if node.is_training():
-                            node.train(x, *arg)
-                    else:
-                        if node.is_training():
-                            node.train(x)
+                        node.train(x, *arg)
+                    elif training:
+                        node.train(x)
 
-                    # input for the next node
-                    x = node.execute(x)
+                    # input for the next node. The execution would end the
+                    # training of a terminal node that is not an OnlineNode.
+                    if isinstance(node, mdp.OnlineNode) or not node.is_training():
+                        x = node.execute(x)
                 except FlowExceptionCR as e:
                     # this exception was already propagated,
                     # probably during the execution  of a node upstream in the flow
@@ -165,9 +168,6 @@ class OnlineFlow(mdp.Flow):
                            "is empty.")
                 raise FlowException(err_str)
         self._stop_training_hook()
-        if self.flow[-1].get_remaining_train_phase() > 1:
-            # close the previous training phase
-            self.flow[-1].stop_training()
 
     def _train_check_iterables(self, data_iterables):
         """Return the data iterable after some checks and sanitizing.
@@ -227,6 +227,11 @@ class OnlineFlow(mdp.Flow):
 
         # close training the terminal node only if it is a trainable Node
         if not isinstance(self.flow[-1], mdp.OnlineNode):
+            while self.flow[-1].get_remaining_train_phase() > 1:
+                # close the previous training phase and go through the data
+                # again for the next one
+                self.flow[-1].stop_training()
+                self._train_nodes(data_iterables, len(self.flow) - 1)
             self._close_last_node()
 
     # private container methods
-- 
2.43.0


From da1321fbbd02294465ca83918cb97940a94125f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:13 +0000
Subject: [PATCH 092/185] fix: OnlineFlowNode and CircularOnlineFlowNode only
 train nodes that are not yet trained

---
 mdp/hinet/flownode_online.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mdp/hinet/flownode_online.py b/mdp/hinet/flownode_online.py
index 1eb5067..5ec2e9c 100644
--- a/mdp/hinet/flownode_online.py
+++ b/mdp/hinet/flownode_online.py
@@ -115,11 +115,17 @@ class OnlineFlowNode(FlowNode, mdp.OnlineNode):
         trainable_nodes_nrs = []  # list of trainable node ids
         trainable_nodes = []  # list of trainable nodes
         for i_node, node in enumerate(self._flow):
-            if node.is_trainable():
+            # nodes that were already trained when they were wrapped are
+            # only executed
+            if node.is_trainable() and (len(node._get_train_seq()) >
+                                        self._pretrained_phase[i_node]):
                 trainable_nodes_nrs.append(i_node)
                 trainable_nodes.append(node)
 
         train_seq = []
+        if not trainable_nodes:
+            return train_seq
+
         # if the first node is not trainable, channel the input data through
         # the nodes until the first trainable-node.
         if trainable_nodes_nrs[0] > 0:
@@ -283,11 +289,17 @@ class CircularOnlineFlowNode(FlowNode, mdp.OnlineNode):
         trainable_nodes_nrs = []  # list of trainable node ids
         trainable_nodes = []  # list of trainable nodes
         for i_node, node in enumerate(self._flow):
-            if node.is_trainable():
+            # nodes that were already trained when they were wrapped are
+            # only executed
+            if node.is_trainable() and (len(node._get_train_seq()) >
+                                        self._pretrained_phase[i_node]):
                 trainable_nodes_nrs.append(i_node)
                 trainable_nodes.append(node)
 
         train_seq = []
+        if not trainable_nodes:
+            return train_seq
+
         # if the first node is not trainable, channel the input data through
         # the nodes until the first trainable-node.
         if trainable_nodes_nrs[0] > 0:
-- 
2.43.0


From 6bd642c1f105021a2874ce7e1b436af098008cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:13 +0000
Subject: [PATCH 093/185] fix: a refused += leaves an OnlineFlow unchanged

---
 mdp/linear_flows_online.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 5883ea1..335ca49 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -309,16 +309,19 @@ class OnlineFlow(mdp.Flow):
 
     def __iadd__(self, other):
         # append other to self
+        flow_copy = list(self.flow)
         if isinstance(other, mdp.Flow):
-            self.flow += other.flow
+            flow_copy.extend(other.flow)
         elif isinstance(other, mdp.Node):
-            self.flow.append(other)
+            flow_copy.append(other)
         else:
             err_str = ('can only concatenate flow or node'
                        ' (not \'%s\') to flow' % type(other).__name__)
             raise TypeError(err_str)
-        self._check_compatibility(self.flow)
-        self._check_nodes_consistency(self.flow)
+        self._check_compatibility(flow_copy)
+        self._check_nodes_consistency(flow_copy)
+        # if no exception was raised, accept the new sequence
+        self.flow = flow_copy
         self._train_arg_keys_list, self._train_args_needed_list = self._get_required_train_args_from_flow(self.flow)
         return self
 
@@ -624,16 +627,19 @@ class CircularOnlineFlow(OnlineFlow):
 
     def __iadd__(self, other):
         # append other to self
+        flow_copy = list(self.flow)
         if isinstance(other, OnlineFlow):
-            self.flow += other.flow
+            flow_copy.extend(other.flow)
         elif isinstance(other, mdp.OnlineNode):
-            self.flow.append(other)
+            flow_copy.append(other)
         else:
             err_str = ('can only concatenate OnlineFlow or OnlineNode'
                        ' (not \'%s\') to CircularOnlineFlow' % type(other).__name__)
             raise TypeError(err_str)
-        self._check_compatibility(self.flow)
-        self._check_nodes_consistency(self.flow)
+        self._check_compatibility(flow_copy)
+        self._check_nodes_consistency(flow_copy)
+        # if no exception was raised, accept the new sequence
+        self.flow = _deque(flow_copy)
         return self
 
     # public container methods
-- 
2.43.0


From 770e2c0b2d2f2c136e18d62a05992fd1d1bf4e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:05 +0000
Subject: [PATCH 094/185] fix: CircularOnlineFlow.set_stored_input does not
 drop the input when the input_dim is not known yet

---
 mdp/linear_flows_online.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 335ca49..2e41244 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -430,7 +430,7 @@ class CircularOnlineFlow(OnlineFlow):
             if x.shape[-1] != self.flow[0].input_dim:
                 raise CircularOnlineFlowException(
                     "Dimension mismatch! should be %d, given %d" % (self.flow[0].input_dim, x.shape[-1]))
-            self._stored_input = x
+        self._stored_input = x
 
     def get_stored_input(self):
         """return the current stored input"""
-- 
2.43.0


From 3887d0c10c3fcff55b7286d35d42dc4368e60560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:05 +0000
Subject: [PATCH 095/185] fix: CircularOnlineFlow.inverse inverts all nodes
 from the output node to the input node

---
 mdp/linear_flows_online.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 2e41244..4d300bd 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -545,8 +545,8 @@ class CircularOnlineFlow(OnlineFlow):
 
     def _inverse_seq(self, x):
         # Successively invert input data 'x' through all nodes backwards from the output node to the input node.
-        flow = self.flow[:self.output_node_idx]
-        for i in range(len(flow) - 1, -1, -1):
+        flow = self.flow
+        for i in range(self.output_node_idx, -1, -1):
             try:
                 x = flow[i].inverse(x)
             except Exception as e:
-- 
2.43.0


From 1bbe0daf26399d50ef698fc36d40622bff1ea1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:05 +0000
Subject: [PATCH 096/185] fix: CircularOnlineFlow refuses input and output node
 indices behind the last node

---
 mdp/linear_flows_online.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 4d300bd..d99720e 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -555,7 +555,7 @@ class CircularOnlineFlow(OnlineFlow):
 
     def set_input_node(self, node_idx):
         """Set the input node of the flow"""
-        if (node_idx > len(self.flow)) or (node_idx < 0):
+        if (node_idx >= len(self.flow)) or (node_idx < 0):
             raise CircularOnlineFlowException(
                 "Accepted 'node_idx' values: 0 <= node_idx < %d, given %d" % (len(self.flow), node_idx))
         self.flow.rotate(-node_idx)
@@ -563,7 +563,7 @@ class CircularOnlineFlow(OnlineFlow):
 
     def set_output_node(self, node_idx):
         """Set the output node of the flow"""
-        if (node_idx > len(self.flow)) or (node_idx < 0):
+        if (node_idx >= len(self.flow)) or (node_idx < 0):
             raise CircularOnlineFlowException(
                 "Accepted 'node_idx' values: 0 <= node_idx < %d, given %d" % (len(self.flow), node_idx))
         self.output_node_idx = node_idx
-- 
2.43.0


From 4bc68127c1b477f59aa9d92b165785717927de15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:05 +0000
Subject: [PATCH 097/185] fix: CircularOnlineFlow + OnlineFlow concatenates the
 nodes

---
 mdp/linear_flows_online.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index d99720e..50b6740 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -606,7 +606,7 @@ class CircularOnlineFlow(OnlineFlow):
         # append other to self
         if isinstance(other, OnlineFlow):
             flow_copy = list(self.flow)
-            flow_copy.append(other)
+            flow_copy.extend(other.flow)
             self._check_compatibility(flow_copy)
             self._check_nodes_consistency(flow_copy)
             # if no exception was raised, accept the new sequence
-- 
2.43.0


From faf09b0be46aa81eacf281c0b5aac576964d91f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:05 +0000
Subject: [PATCH 098/185] fix: items of a CircularOnlineFlow can be replaced,
 deleted and inserted

---
 mdp/linear_flows_online.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 50b6740..12f4ca3 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -578,9 +578,18 @@ class CircularOnlineFlow(OnlineFlow):
     # private container methods
 
     def __setitem__(self, key, value):
+        # keep track of the positions of the nodes
+        idx = list(range(len(self.flow)))
+        if isinstance(key, slice):
+            value = list(value)
+            idx[key] = [None] * len(value)
+        else:
+            idx[key] = None
         super(CircularOnlineFlow, self).__setitem__(key, value)
         self.flow = _deque(self.flow)
-        if (key.start < self.output_node_idx) and (self.output_node_idx < key.stop()):
+        if self.output_node_idx in idx:
+            self.output_node_idx = idx.index(self.output_node_idx)
+        else:
             print('Output node is replaced! Resetting the output node.')
             self.reset_output_node()
 
@@ -594,13 +603,16 @@ class CircularOnlineFlow(OnlineFlow):
             return self.flow[key]
 
     def __delitem__(self, key):
+        # keep track of the positions of the nodes
+        idx = list(range(len(self.flow)))
+        del idx[key]
         super(CircularOnlineFlow, self).__delitem__(key)
         self.flow = _deque(self.flow)
-        if (key.start < self.output_node_idx) and (self.output_node_idx < key.stop()):
+        if self.output_node_idx in idx:
+            self.output_node_idx = idx.index(self.output_node_idx)
+        else:
             print('Output node deleted! Resetting the output node to the default last node.')
             self.reset_output_node()
-        elif self.output_node_idx > key.stop():
-            self.set_output_node(self.output_node_idx - key.stop + key.start)
 
     def __add__(self, other):
         # append other to self
@@ -666,6 +678,3 @@ class CircularOnlineFlow(OnlineFlow):
         self[i:i] = [x]
         self._check_nodes_consistency(self.flow)
         self._check_compatibility(self.flow)
-
-        if self.output_node_idx >= i:
-            self.set_output_node(self.output_node_idx + 1)
-- 
2.43.0


From 5e936a1ab601bdcd43bfcd49fec6263633a9c417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:05 +0000
Subject: [PATCH 099/185] fix: the copy of a CircularOnlineFlowNode keeps a
 circular container for its nodes

---
 mdp/hinet/flownode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/hinet/flownode.py b/mdp/hinet/flownode.py
index 8985187..32b493d 100644
--- a/mdp/hinet/flownode.py
+++ b/mdp/hinet/flownode.py
@@ -229,7 +229,7 @@ class FlowNode(mdp.Node):
             new_flownode = _copy.deepcopy(self)
         finally:
             self._flow.flow = old_nodes
-        new_flownode._flow.flow = new_nodes
+        new_flownode._flow.flow = type(old_nodes)(new_nodes)
         return new_flownode
 
     ## container methods ##
-- 
2.43.0


From 59bba7a41278cb0d3fc27b860aa080e135bc3402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:05 +0000
Subject: [PATCH 100/185] fix: the output dimension of a CircularOnlineFlowNode
 is the one of the output node

---
 mdp/hinet/flownode.py        | 13 +++++++++----
 mdp/hinet/flownode_online.py |  3 +++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/mdp/hinet/flownode.py b/mdp/hinet/flownode.py
index 32b493d..76d4bd6 100644
--- a/mdp/hinet/flownode.py
+++ b/mdp/hinet/flownode.py
@@ -40,7 +40,7 @@ class FlowNode(mdp.Node):
         if input_dim is None:
             input_dim = self._flow[0].input_dim
         if output_dim is None:
-            output_dim = self._flow[-1].output_dim
+            output_dim = self._get_output_node().output_dim
         if dtype is None:
             dtype = self._flow[-1].dtype
         # store which nodes are pretrained up to what phase
@@ -71,6 +71,10 @@ class FlowNode(mdp.Node):
         """
         return self._flow
 
+    def _get_output_node(self):
+        # the node that provides the output
+        return self._flow[-1]
+
     def _set_input_dim(self, n):
         # try setting the input_dim of the first node
         self._flow[0].input_dim = n
@@ -80,7 +84,7 @@ class FlowNode(mdp.Node):
         self._input_dim = n
 
     def _set_output_dim(self, n):
-        last_node = self._flow[-1]
+        last_node = self._get_output_node()
         if last_node.output_dim is not None:
             # nothing to set (not all nodes allow to set it explicitly)
             pass
@@ -114,9 +118,10 @@ class FlowNode(mdp.Node):
                     node.input_dim = prev_node.output_dim
                 prev_node = node
             self._flow._check_nodes_consistency()
-        if self._flow[-1].output_dim is not None:
+        output_node = self._get_output_node()
+        if output_node.output_dim is not None:
             # additional checks are performed here
-            self.output_dim = self._flow[-1].output_dim
+            self.output_dim = output_node.output_dim
 
     def _check_input(self, x):
         super(FlowNode, self)._check_input(x)
diff --git a/mdp/hinet/flownode_online.py b/mdp/hinet/flownode_online.py
index 5ec2e9c..e0126a8 100644
--- a/mdp/hinet/flownode_online.py
+++ b/mdp/hinet/flownode_online.py
@@ -184,6 +184,9 @@ class CircularOnlineFlowNode(FlowNode, mdp.OnlineNode):
         self._ignore_input = flow._ignore_input
         self._stored_input = flow._stored_input
 
+    def _get_output_node(self):
+        return self._flow[self._flow.output_node_idx]
+
     def set_stored_input(self, x):
         """Sets the stored input."""
         self._stored_input = x
-- 
2.43.0


From 9329478e56994806b0ac4e5e545063c3e92853c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:41 +0000
Subject: [PATCH 101/185] fix: CCIPCANode and MCANode accept initial
 eigenvectors as an argument

---
 mdp/nodes/mca_nodes_online.py | 8 +++++++-
 mdp/nodes/pca_nodes_online.py | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/mca_nodes_online.py b/mdp/nodes/mca_nodes_online.py
index 653a234..adf3e57 100755
--- a/mdp/nodes/mca_nodes_online.py
+++ b/mdp/nodes/mca_nodes_online.py
@@ -100,7 +100,8 @@ class MCANode(mdp.OnlineNode):
                 '%d, given %d' % (self.output_dim,
                                   self._init_v.shape[1]))
         if self.v is None:
-            self.v = self._init_v.copy()
+            dtype = 'd' if self.dtype is None else self.dtype
+            self.v = self._init_v.astype(dtype)
             self.d = mdp.numx.sum(self.v ** 2, axis=0) ** 0.5  # identical with np.linalg.norm(self.v, axis=0)
             # Using this for backward numpy (versions below 1.8) compatibility.
 
@@ -111,6 +112,11 @@ class MCANode(mdp.OnlineNode):
                 self.init_eigen_vectors = 0.1 * self.numx_rng.randn(self.input_dim, self.output_dim).astype(self.dtype)
             else:
                 self.init_eigen_vectors = 0.1 * self.numx_rng.randn(self.input_dim, self.input_dim).astype(self.dtype)
+        elif self.v is None or (self.v.dtype != self.dtype and
+                                self.get_current_train_iteration() == 0):
+            # the initial vectors were given by the user
+            self.v = None
+            self.init_eigen_vectors = self._init_v
 
     def _train(self, x):
         """Update the minor components."""
diff --git a/mdp/nodes/pca_nodes_online.py b/mdp/nodes/pca_nodes_online.py
index a5b482a..1f4fdf9 100755
--- a/mdp/nodes/pca_nodes_online.py
+++ b/mdp/nodes/pca_nodes_online.py
@@ -105,7 +105,8 @@ class CCIPCANode(mdp.OnlineNode):
                 'Dimension mismatch. init_eigen_vectors shape[1] must be'
                 '%d, given %d' % (self.output_dim, self._init_v.shape[1]))
         if self.v is None:
-            self._v = self._init_v.copy()
+            dtype = 'd' if self.dtype is None else self.dtype
+            self._v = self._init_v.astype(dtype)
             self.d = mdp.numx.sum(self._v ** 2, axis=0) ** 0.5  # identical with np.linalg.norm(self._v, axis=0)
             # Using this for backward numpy (versions below 1.8) compatibility.
             self.v = old_div(self._v, self.d)
@@ -121,6 +122,11 @@ class CCIPCANode(mdp.OnlineNode):
                 self.init_eigen_vectors = 0.1 * self.numx_rng.randn(self.input_dim, self.output_dim).astype(self.dtype)
             else:
                 self.init_eigen_vectors = 0.1 * self.numx_rng.randn(self.input_dim, self.input_dim).astype(self.dtype)
+        elif self.v is None or (self.v.dtype != self.dtype and
+                                self.get_current_train_iteration() == 0):
+            # the initial vectors were given by the user
+            self.v = None
+            self.init_eigen_vectors = self._init_v
 
     def _amnesic(self, n):
         """Return amnesic weights.
-- 
2.43.0


From 9682b3fe94638273901674fcbdeafa25eb122546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:41 +0000
Subject: [PATCH 102/185] fix: CCIPCANode supports the training type 'batch'

---
 mdp/nodes/pca_nodes_online.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mdp/nodes/pca_nodes_online.py b/mdp/nodes/pca_nodes_online.py
index 1f4fdf9..f498ed5 100755
--- a/mdp/nodes/pca_nodes_online.py
+++ b/mdp/nodes/pca_nodes_online.py
@@ -152,7 +152,13 @@ class CCIPCANode(mdp.OnlineNode):
         :param x: Data vectors.
         :type x: numpy.ndarray
         """
-        [w1, w2] = self._amnesic(self.get_current_train_iteration() + 1)
+        # the update rule takes one sample at a time
+        for i in range(x.shape[0]):
+            self._update(x[i:i + 1], self.get_current_train_iteration() + i)
+
+    def _update(self, x, iteration):
+        """Update the principal components with a single sample."""
+        [w1, w2] = self._amnesic(iteration + 1)
         red_j = self.output_dim
         red_j_flag = False
         explained_var = 0.0
-- 
2.43.0


From ca90729b8636a7a18b9a3958af2eb78c83a45f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:41 +0000
Subject: [PATCH 103/185] fix: OnlineTimeDiffNode returns one row per sample
 when its first block has several samples

---
 mdp/nodes/stats_nodes_online.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/stats_nodes_online.py b/mdp/nodes/stats_nodes_online.py
index 3c3cdff..9c59032 100644
--- a/mdp/nodes/stats_nodes_online.py
+++ b/mdp/nodes/stats_nodes_online.py
@@ -169,8 +169,8 @@ class OnlineTimeDiffNode(mdp.PreserveDimOnlineNode):
 
     def _check_params(self, x):
         if self.x_prev is None:
-            self.x_prev = mdp.numx.zeros(x.shape, dtype=self.dtype)
-            self.x_cur = mdp.numx.zeros(x.shape, dtype=self.dtype)
+            self.x_prev = mdp.numx.zeros((1, x.shape[1]), dtype=self.dtype)
+            self.x_cur = mdp.numx.zeros((1, x.shape[1]), dtype=self.dtype)
 
     def _train(self, x):
         """Update the buffer."""
-- 
2.43.0


From e34d5c189eae8b4aece63b4a665747d2a436e9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:41 +0000
Subject: [PATCH 104/185] fix: IncSFANode works without mean removal

---
 mdp/nodes/sfa_nodes_online.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/sfa_nodes_online.py b/mdp/nodes/sfa_nodes_online.py
index 61adb08..2757d43 100644
--- a/mdp/nodes/sfa_nodes_online.py
+++ b/mdp/nodes/sfa_nodes_online.py
@@ -146,7 +146,7 @@ class IncSFANode(mdp.OnlineNode):
         if self._init_sf is None:
             if self.remove_mean:
                 self._pseudo_check_fn(self.avgnode, x)
-            x = self.avgnode.execute(x)
+                x = self.avgnode.execute(x)
             self._pseudo_check_fn(self.whiteningnode, x)
             x = self.whiteningnode.execute(x)
             self._pseudo_check_fn(self.tdiffnode, x)
@@ -235,7 +235,10 @@ class IncSFANode(mdp.OnlineNode):
 
         :return: The inverse of the slow feature response.
         """
-        return mult(y, pinv(self.sf)) + self.avgnode.avg
+        x = mult(y, pinv(self.sf))
+        if self.remove_mean:
+            x = x + self.avgnode.avg
+        return x
 
     def __repr__(self):
         """Print all args.
-- 
2.43.0


From 67aef5b767a0cadcd48ded21b28c948f2ebd0440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:41 +0000
Subject: [PATCH 105/185] fix: IncSFANode gives the same result for every
 division of the data into chunks

---
 mdp/nodes/sfa_nodes_online.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/sfa_nodes_online.py b/mdp/nodes/sfa_nodes_online.py
index 2757d43..28b780a 100644
--- a/mdp/nodes/sfa_nodes_online.py
+++ b/mdp/nodes/sfa_nodes_online.py
@@ -144,6 +144,8 @@ class IncSFANode(mdp.OnlineNode):
     def _check_params(self, x):
         """Initialize parameters."""
         if self._init_sf is None:
+            # initialize with the first sample only
+            x = x[:1]
             if self.remove_mean:
                 self._pseudo_check_fn(self.avgnode, x)
                 x = self.avgnode.execute(x)
@@ -158,8 +160,6 @@ class IncSFANode(mdp.OnlineNode):
 
         if self._new_episode is None:  # Set new_episode to True for the very first sample
             self._new_episode = True
-        elif self._new_episode:  # Set new_episode to False for the subsequent samples
-            self._new_episode = False
 
     @staticmethod
     def _pseudo_check_fn(node, x):
@@ -189,7 +189,7 @@ class IncSFANode(mdp.OnlineNode):
         self._pseudo_train_fn(self.tdiffnode, x)
 
         if self._new_episode:
-            return
+            return 0.0
 
         x = self.tdiffnode._execute(x)
 
@@ -217,6 +217,7 @@ class IncSFANode(mdp.OnlineNode):
             if new_episode is not None:
                 self._new_episode = new_episode
             sf_change = self._step_train(x)
+            self._new_episode = False  # for the subsequent samples
 
         self.wv = self.whiteningnode.v
         self.sf_change = sf_change
-- 
2.43.0


From ed9f16d0ebccd907f2d711f57aa60e26ad1c75eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:59 +0000
Subject: [PATCH 106/185] fix: OnlineLayers train sample by sample and count
 the samples

---
 mdp/hinet/layer_online.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/mdp/hinet/layer_online.py b/mdp/hinet/layer_online.py
index 9911284..8d63aae 100644
--- a/mdp/hinet/layer_online.py
+++ b/mdp/hinet/layer_online.py
@@ -94,6 +94,17 @@ class OnlineLayer(Layer, mdp.OnlineNode):
         """
         return mdp.OnlineNode._get_train_seq(self)
 
+    # The training methods are those of an OnlineNode, not the ones that
+    # Layer inherits from Node.
+
+    def train(self, x, *args, **kwargs):
+        """Update the internal nodes according to the input data `x`."""
+        mdp.OnlineNode.train(self, x, *args, **kwargs)
+
+    def stop_training(self, *args, **kwargs):
+        """Stop the training of the internal nodes."""
+        mdp.OnlineNode.stop_training(self, *args, **kwargs)
+
 
 class CloneOnlineLayer(CloneLayer, OnlineLayer):
     """OnlineLayer with a single node instance that is used multiple times.
@@ -123,6 +134,10 @@ class CloneOnlineLayer(CloneLayer, OnlineLayer):
         # set training type
         self._set_training_type_from_nodes([node])
 
+    def stop_training(self, *args, **kwargs):
+        """Stop the training of the internal node."""
+        mdp.OnlineNode.stop_training(self, *args, **kwargs)
+
 
 class SameInputOnlineLayer(SameInputLayer, OnlineLayer):
     """SameInputOnlineLayer is an OnlineLayer were all nodes receive the full input.
@@ -147,3 +162,7 @@ class SameInputOnlineLayer(SameInputLayer, OnlineLayer):
         self.numx_rng = numx_rng
         # set training type
         self._set_training_type_from_nodes(nodes)
+
+    def train(self, x, *args, **kwargs):
+        """Update the internal nodes according to the input data `x`."""
+        mdp.OnlineNode.train(self, x, *args, **kwargs)
-- 
2.43.0


From 8efe927f004fe90a950fc085177281fa3e240b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:26 +0000
Subject: [PATCH 107/185] fix: the training of an OnlineFlowNode that starts
 with a non-trainable node can be stopped

---
 mdp/hinet/flownode_online.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/hinet/flownode_online.py b/mdp/hinet/flownode_online.py
index e0126a8..5b856dc 100644
--- a/mdp/hinet/flownode_online.py
+++ b/mdp/hinet/flownode_online.py
@@ -107,7 +107,7 @@ class OnlineFlowNode(FlowNode, mdp.OnlineNode):
             return _execute
 
         def get_empty_function():
-            def _empty(x, *args, **kwargs):
+            def _empty(*args, **kwargs):
                 pass
 
             return _empty
@@ -260,7 +260,7 @@ class CircularOnlineFlowNode(FlowNode, mdp.OnlineNode):
             return _execute
 
         def get_empty_function():
-            def _empty(x, *args, **kwargs):
+            def _empty(*args, **kwargs):
                 pass
 
             return _empty
-- 
2.43.0


From 6458f2f4a65aa0bfffb530913b2cd415e1eba462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:26 +0000
Subject: [PATCH 108/185] fix: the nodes of a copied OnlineFlowNode share one
 random generator

---
 mdp/hinet/flownode_online.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mdp/hinet/flownode_online.py b/mdp/hinet/flownode_online.py
index 5b856dc..a68c3a1 100644
--- a/mdp/hinet/flownode_online.py
+++ b/mdp/hinet/flownode_online.py
@@ -84,6 +84,13 @@ class OnlineFlowNode(FlowNode, mdp.OnlineNode):
                 node.numx_rng = rng
         self._numx_rng = rng
 
+    def copy(self, protocol=None):
+        """Return a copy of this node (see FlowNode.copy)."""
+        new_node = super(OnlineFlowNode, self).copy(protocol)
+        # the internal nodes are copied one by one, but share one generator
+        new_node.numx_rng = new_node.numx_rng
+        return new_node
+
     def _get_train_seq(self):
         """Return a training sequence containing all training phases.
 
@@ -228,6 +235,13 @@ class CircularOnlineFlowNode(FlowNode, mdp.OnlineNode):
                 node.numx_rng = rng
         self._numx_rng = rng
 
+    def copy(self, protocol=None):
+        """Return a copy of this node (see FlowNode.copy)."""
+        new_node = super(CircularOnlineFlowNode, self).copy(protocol)
+        # the internal nodes are copied one by one, but share one generator
+        new_node.numx_rng = new_node.numx_rng
+        return new_node
+
     def _get_train_seq(self):
         """Return a training sequence containing all training phases.
 
-- 
2.43.0


From b8ada3fe94184c54093aa980be21cbd2d633364b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:29 +0000
Subject: [PATCH 109/185] fix: CloneLayer does not mix the time series of its
 parts when the node looks at neighbouring rows

---
 mdp/hinet/layer.py | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/mdp/hinet/layer.py b/mdp/hinet/layer.py
index c2e99ac..0d3eea6 100644
--- a/mdp/hinet/layer.py
+++ b/mdp/hinet/layer.py
@@ -277,24 +277,6 @@ class CloneLayer(Layer):
         if self.output_dim is None:
             self.output_dim = self._get_output_dim_from_nodes()
 
-    def _execute(self, x, *args, **kwargs):
-        if args or kwargs:
-            # the arguments belong to the whole chunk
-            return super(CloneLayer, self)._execute(x, *args, **kwargs)
-        n_samples = x.shape[0]
-        x = x.reshape(n_samples * x.shape[1] // self.node.input_dim, self.node.input_dim)
-        y = self.node.execute(x)
-        return y.reshape(n_samples, self.output_dim)
-
-    def _inverse(self, x, *args, **kwargs):
-        if args or kwargs:
-            # the arguments belong to the whole chunk
-            return super(CloneLayer, self)._inverse(x, *args, **kwargs)
-        n_samples = x.shape[0]
-        x = x.reshape(n_samples * x.shape[1] // self.node.output_dim, self.node.output_dim)
-        y = self.node.inverse(x)
-        return y.reshape(n_samples, self.input_dim)
-
 
 class SameInputLayer(Layer):
     """SameInputLayer is a layer were all nodes receive the full input.
-- 
2.43.0


From c3e5ae5c765e3be5d39ef26f768d4ba0e1def36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:33 +0000
Subject: [PATCH 110/185] fix: IncSFANode does not use its first sample twice

---
 mdp/nodes/sfa_nodes_online.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mdp/nodes/sfa_nodes_online.py b/mdp/nodes/sfa_nodes_online.py
index 28b780a..8c9ea3d 100644
--- a/mdp/nodes/sfa_nodes_online.py
+++ b/mdp/nodes/sfa_nodes_online.py
@@ -144,13 +144,11 @@ class IncSFANode(mdp.OnlineNode):
     def _check_params(self, x):
         """Initialize parameters."""
         if self._init_sf is None:
-            # initialize with the first sample only
-            x = x[:1]
+            # only initialize the nodes, without training them
             if self.remove_mean:
                 self._pseudo_check_fn(self.avgnode, x)
-                x = self.avgnode.execute(x)
             self._pseudo_check_fn(self.whiteningnode, x)
-            x = self.whiteningnode.execute(x)
+            x = self.whiteningnode._execute(x)
             self._pseudo_check_fn(self.tdiffnode, x)
             self._pseudo_check_fn(self.mcanode, x)
             self._init_sf = mult(self.whiteningnode.init_eigen_vectors, self.mcanode.init_eigen_vectors)
@@ -238,7 +236,7 @@ class IncSFANode(mdp.OnlineNode):
         """
         x = mult(y, pinv(self.sf))
         if self.remove_mean:
-            x = x + self.avgnode.avg
+            x = self.avgnode._inverse(x)
         return x
 
     def __repr__(self):
-- 
2.43.0


From e56c50f2793d0781f4daf626347b4df7e5f38b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:51 +0000
Subject: [PATCH 111/185] fix: extensions of a public node method also apply to
 subclasses of subclasses

The documentation wrapper of a class which inherits from a wrapped class
called the function found when the class was created, so that for example
WhiteningNode.execute was never cached, and a class created while an
extension was active kept calling the extension after its deactivation.
---
 mdp/signal_node.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/mdp/signal_node.py b/mdp/signal_node.py
index 46b19a0..e3fdb89 100644
--- a/mdp/signal_node.py
+++ b/mdp/signal_node.py
@@ -90,8 +90,10 @@ class NodeMetaclass(type):
             if recursed:
                 undec_pubmethod = orig_pubmethod._undecorated_
                 priv_info.update(NodeMetaclass._get_infos(undec_pubmethod))
-                wrapper_method = cls._wrap_function(undec_pubmethod,
-                                                    priv_info)
+                # the method is looked up when the wrapper is called, because
+                # it might have been replaced by an extension
+                wrapper_method = cls._wrap_function(
+                    cls._undecorated_method(new_cls, wrapper_name), priv_info)
                 wrapper_method._undecorated_ = undec_pubmethod
             else:
                 priv_info.update(NodeMetaclass._get_infos(orig_pubmethod))
@@ -191,6 +193,22 @@ class NodeMetaclass(type):
                     globals=func.__globals__,
                     closure=func.__closure__)
 
+    @staticmethod
+    def _undecorated_method(cls, name):
+        """Return a function that calls the inherited method.
+
+        :param cls: Class of which the superclasses are searched for the
+            method, ignoring all wrappers.
+        :param name: Name of the method.
+        """
+        def call_undecorated(*args, **kwargs):
+            for base in cls.__mro__[1:]:
+                method = base.__dict__.get(name)
+                if method is not None and not hasattr(method, '_undecorated_'):
+                    return method(*args, **kwargs)
+            raise AttributeError(name)
+        return call_undecorated
+
     @staticmethod
     def _wrap_function(original_func, wrapper_infodict):
         """Return a wrapped version of func.
-- 
2.43.0


From 4e27e509301c437e8e40da2e712a8e5966f0dad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:26 +0000
Subject: [PATCH 112/185] fix: nodes which cannot be pickled can be executed
 with active caching

The hash of such a node either failed with a PicklingError or, worse, was
computed from a part of its attributes only, so that the result of another
node could be returned.
---
 mdp/caching/caching_extension.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/mdp/caching/caching_extension.py b/mdp/caching/caching_extension.py
index fcb24b8..9d9a5b1 100644
--- a/mdp/caching/caching_extension.py
+++ b/mdp/caching/caching_extension.py
@@ -7,6 +7,8 @@ extension is based on joblib v. 0.4.6.
 from builtins import object
 __docformat__ = "restructuredtext en"
 
+import pickle
+
 import joblib
 
 from ..utils import TemporaryDirectory
@@ -114,14 +116,24 @@ class CacheExecuteExtensionNode(ExtensionNode, Node):
 
         if self not in _cached_methods:
             global _memory
-            _cached_methods[self] = _memory.cache(
-                self._non_extension_execute.__func__)
             # execute pre-execution checks once so that all automatic
             # settings of things like dtype and input_dim are done, and
             # caching begins from first execution, not the second
             self._pre_execution_checks(x)
+            try:
+                # the results are stored under a hash of the pickled node,
+                # which is not reliable if the node can not be pickled
+                pickle.dumps(self, -1)
+            except Exception:
+                return self._non_extension_execute(x, *args, **kwargs)
+            _cached_methods[self] = _memory.cache(
+                self._non_extension_execute.__func__)
 
-        return _cached_methods[self](self, x, *args, **kwargs)
+        try:
+            return _cached_methods[self](self, x, *args, **kwargs)
+        except pickle.PicklingError:
+            # the node or the arguments can not be hashed
+            return self._non_extension_execute(x, *args, **kwargs)
 
 
 # ------- helper functions and context manager
-- 
2.43.0


From ec1c41de69dde905862f81fcd4dfd9418d9e0e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:26 +0000
Subject: [PATCH 113/185] fix: activating the caching again does not keep the
 previously chosen classes and instances

---
 mdp/caching/caching_extension.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mdp/caching/caching_extension.py b/mdp/caching/caching_extension.py
index 9d9a5b1..6d46a15 100644
--- a/mdp/caching/caching_extension.py
+++ b/mdp/caching/caching_extension.py
@@ -167,10 +167,9 @@ def activate_caching(cachedir=None,
     _cache_active_global = (cache_classes is None and cache_instances is None)
 
     # active cache for specific classes and instances
-    if cache_classes is not None:
-        _cached_classes = list(cache_classes)
-    if cache_instances is not None:
-        _cached_instances = list(cache_instances)
+    # (and forget those of a previous activation)
+    _cached_classes = list(cache_classes or [])
+    _cached_instances = list(cache_instances or [])
 
     activate_extension('cache_execute')
 
-- 
2.43.0


From 4dd2d8c55c919c56d87cb953780c1ba33f859066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:46 +0000
Subject: [PATCH 114/185] fix: the caching of an instance which was activated
 twice can be deactivated

---
 mdp/caching/caching_extension.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/caching/caching_extension.py b/mdp/caching/caching_extension.py
index 6d46a15..cf73d01 100644
--- a/mdp/caching/caching_extension.py
+++ b/mdp/caching/caching_extension.py
@@ -101,7 +101,8 @@ class CacheExecuteExtensionNode(ExtensionNode, Node):
         # add to global dictionary
         global _cached_instances
         if active:
-            _cached_instances.append(self)
+            if self not in _cached_instances:
+                _cached_instances.append(self)
         else:
             if self in _cached_instances:
                 _cached_instances.remove(self)
-- 
2.43.0


From 7afa6b4fed97f9d2786f88d6dcfed0ea4a3182b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:10 +0000
Subject: [PATCH 115/185] fix: the BiNode versions of online nodes can be
 trained

BiNode.train called the training method with the whole chunk and did not
set up the parameters or count the iterations.
---
 bimdp/binode.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/bimdp/binode.py b/bimdp/binode.py
index e2fa7ac..16f1df4 100644
--- a/bimdp/binode.py
+++ b/bimdp/binode.py
@@ -187,6 +187,9 @@ class BiNode(mdp.Node):
             if x is None:
                 err = "Both x and msg are None."
                 raise BiNodeException(err)
+            if isinstance(self, mdp.OnlineNode):
+                # the training is more than a single call of a method
+                return super(BiNode, self).train(x)
             # no fall-back on Node.train because we might have a return value
             self._check_input(x)
             try:
@@ -204,6 +207,10 @@ class BiNode(mdp.Node):
         default_method = self._train_seq[self._train_phase][0]
         method, target = self._get_method(method_name, default_method, target)
         msg, arg_dict = self._extract_method_args(method, msg, msg_id_keys)
+        if (x is not None and method == default_method and
+                isinstance(self, mdp.OnlineNode)):
+            # the training is more than a single call of a method
+            return super(BiNode, self).train(x, **arg_dict)
         # perform specific checks
         if x is not None:
             if (not method_name) or (method_name == "train"):
@@ -251,8 +258,12 @@ class BiNode(mdp.Node):
             err = "The training phase has already finished."
             raise mdp.TrainingFinishedException(err)
         # call stop_training
+        is_online = isinstance(self, mdp.OnlineNode)
         if not msg:
-            result = self._train_seq[self._train_phase][1]()
+            if is_online:
+                result = super(BiNode, self).stop_training()
+            else:
+                result = self._train_seq[self._train_phase][1]()
             target = None
         else:
             msg_id_keys = self._get_msg_id_keys(msg)
@@ -262,9 +273,15 @@ class BiNode(mdp.Node):
             method, target = self._get_method(method_name,
                                               default_method, target)
             msg, arg_dict = self._extract_method_args(method, msg, msg_id_keys)
-            result = method(**arg_dict)
-        # close the current phase
-        self._train_phase += 1
+            if is_online and method == default_method:
+                result = super(BiNode, self).stop_training(**arg_dict)
+            else:
+                result = method(**arg_dict)
+        # close the current phase (an online node only has a single one)
+        if is_online:
+            self._train_phase = len(self._train_seq)
+        else:
+            self._train_phase += 1
         self._train_phase_started = False
         # check if we have some training phase left
         if self.get_remaining_train_phase() == 0:
-- 
2.43.0


From 11384d894e9e336414a402b928539def1b7f7e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:10 +0000
Subject: [PATCH 116/185] fix: a message key with more than one separator does
 not stop the BiNodes that it passes

---
 bimdp/binode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bimdp/binode.py b/bimdp/binode.py
index 16f1df4..b66341d 100644
--- a/bimdp/binode.py
+++ b/bimdp/binode.py
@@ -359,7 +359,7 @@ class BiNode(mdp.Node):
         msg_id_keys = []
         for fullkey in msg:
             if fullkey.find(MSG_ID_SEP) > 0:
-                node_id, key = fullkey.split(MSG_ID_SEP)
+                node_id, key = fullkey.split(MSG_ID_SEP, 1)
                 if node_id == self._node_id:
                     msg_id_keys.append((key, fullkey))
         return msg_id_keys
-- 
2.43.0


From 4e7cba1ee975d9161d5ef4c8c2f7f4e2ca6e7f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:10 +0000
Subject: [PATCH 117/185] fix: an inversion requested by a message uses the
 dtype of the node, like Node.inverse

---
 bimdp/binode.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bimdp/binode.py b/bimdp/binode.py
index b66341d..30fb0eb 100644
--- a/bimdp/binode.py
+++ b/bimdp/binode.py
@@ -159,6 +159,7 @@ class BiNode(mdp.Node):
             # resolution to internal nodes by manipulating _get_method
             elif method == self._inverse:
                 self._pre_inversion_checks(x)
+                x = self._refcast(x)
         result = method(x, **arg_dict)
         return self._combine_result(result, msg, target)
 
-- 
2.43.0


From ecaa4842466f3e3b002938196a18975e95e51eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:10 +0000
Subject: [PATCH 118/185] fix: a coroutine of a BiNode can return a result

The result was wrapped in a tuple of length one, which is no valid result.
---
 bimdp/binode.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/bimdp/binode.py b/bimdp/binode.py
index 30fb0eb..7406e8f 100644
--- a/bimdp/binode.py
+++ b/bimdp/binode.py
@@ -548,10 +548,8 @@ def binode_coroutine(args=None, defaults=()):
             except StopIteration as exception:
                 delattr(self, original_name)
                 del self._coroutine_instances[original_name]
-                if len(exception.args):
-                    return exception.args
-                else:
-                    return None
+                # the value of the return statement (or None)
+                return exception.value
         # turn the signature into the one specified by the args
         interface_infodict = infodict.copy()
         interface_infodict["signature"] = ", ".join(args)
@@ -573,10 +571,8 @@ def binode_coroutine(args=None, defaults=()):
             except StopIteration as exception:
                 delattr(self, original_name)
                 del self._coroutine_instances[original_name]
-                if len(exception.args):
-                    return exception.args
-                else:
-                    return None
+                # the value of the return statement (or None)
+                return exception.value
         coroutine_initialization = mdp.NodeMetaclass._wrap_function(
             _coroutine_initialization, infodict)
         return coroutine_initialization
-- 
2.43.0


From 5957e159c54883bf9ee0cbf4cd22019fada72166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:43 +0000
Subject: [PATCH 119/185] fix: a BiNode whose training sequence depends on the
 data can be trained with messages

XSFABiNode.train(x, msg) failed because the training method was looked up
before the input dimension was known.
---
 bimdp/binode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bimdp/binode.py b/bimdp/binode.py
index 7406e8f..089b56b 100644
--- a/bimdp/binode.py
+++ b/bimdp/binode.py
@@ -205,6 +205,9 @@ class BiNode(mdp.Node):
         msg_id_keys = self._get_msg_id_keys(msg)
         target = self._extract_message_key("target", msg, msg_id_keys)
         method_name = self._extract_message_key("method", msg, msg_id_keys)
+        if x is not None and ((not method_name) or (method_name == "train")):
+            # the training sequence might depend on the input dimension
+            self._check_input(x)
         default_method = self._train_seq[self._train_phase][0]
         method, target = self._get_method(method_name, default_method, target)
         msg, arg_dict = self._extract_method_args(method, msg, msg_id_keys)
@@ -215,7 +218,6 @@ class BiNode(mdp.Node):
         # perform specific checks
         if x is not None:
             if (not method_name) or (method_name == "train"):
-                self._check_input(x)
                 try:
                     self._check_train_args(x, **arg_dict)
                 except TypeError:
-- 
2.43.0


From 7c17c575e9df4cf80316513b469a9a5942189ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:21 +0000
Subject: [PATCH 120/185] fix: XSFABiNode can be trained with messages

The training method was not known before the first data. This also undoes
the previous commit, which looked for the cause in the wrong place.
---
 bimdp/binode.py         | 4 +---
 mdp/nodes/xsfa_nodes.py | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/bimdp/binode.py b/bimdp/binode.py
index 089b56b..7406e8f 100644
--- a/bimdp/binode.py
+++ b/bimdp/binode.py
@@ -205,9 +205,6 @@ class BiNode(mdp.Node):
         msg_id_keys = self._get_msg_id_keys(msg)
         target = self._extract_message_key("target", msg, msg_id_keys)
         method_name = self._extract_message_key("method", msg, msg_id_keys)
-        if x is not None and ((not method_name) or (method_name == "train")):
-            # the training sequence might depend on the input dimension
-            self._check_input(x)
         default_method = self._train_seq[self._train_phase][0]
         method, target = self._get_method(method_name, default_method, target)
         msg, arg_dict = self._extract_method_args(method, msg, msg_id_keys)
@@ -218,6 +215,7 @@ class BiNode(mdp.Node):
         # perform specific checks
         if x is not None:
             if (not method_name) or (method_name == "train"):
+                self._check_input(x)
                 try:
                     self._check_train_args(x, **arg_dict)
                 except TypeError:
diff --git a/mdp/nodes/xsfa_nodes.py b/mdp/nodes/xsfa_nodes.py
index 59d0d8d..6ab8900 100644
--- a/mdp/nodes/xsfa_nodes.py
+++ b/mdp/nodes/xsfa_nodes.py
@@ -149,7 +149,7 @@ class XSFANode(mdp.Node):
         if self._flow is None:
             # we still don't know the number of training_phases yet,
             # but we can assure that we will have more than 1:
-            return [(None, None), (None, None)]
+            return [(self._train, self._stop_training)] * 2
         else:
             return ([(self._train, self._stop_training)] *
                     sum(self._training_phases))
-- 
2.43.0


From 8bc8d7ee1b435714683d30dedfdee9bcb440ac3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:59 +0000
Subject: [PATCH 121/185] fix: joining the message results of a BiFlow does not
 change the first message

---
 bimdp/biflow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index c5e9395..e681066 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -68,7 +68,9 @@ class MessageResultContainer(object):
                         self._msg_results[key] = msg[key]
                     else:
                         try:
-                            self._msg_results[key] += msg[key]
+                            # not in place, the first value is not ours
+                            self._msg_results[key] = (self._msg_results[key] +
+                                                      msg[key])
                         except:
                             err = ("Could not combine final msg results "
                                    "in BiFlow.")
-- 
2.43.0


From 808600550b8637be0bb409d1931a6d255cacc551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:59 +0000
Subject: [PATCH 122/185] fix: a BiFlow can be executed on several chunks
 without data results

---
 bimdp/biflow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index e681066..a3e873e 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -350,7 +350,7 @@ class BiFlow(mdp.Flow):
             else:
                 if y_results is None:
                     y_results = False
-                else:
+                elif y_results is not False:
                     err = "Some but not all y return values were None."
                     raise BiFlowException(err)
         if empty_iterator:
@@ -359,6 +359,8 @@ class BiFlow(mdp.Flow):
         # consolidate results
         if y_results:
             y_results = n.concatenate(y_results)
+        else:
+            y_results = None
         result_msg = msg_results.get_message()
         return y_results, result_msg
 
-- 
2.43.0


From d1f1aa2bb86e6f3f5b8d49f20fb13ff031fff25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:00 +0000
Subject: [PATCH 123/185] fix: a BiFlow does not remove entries from the
 messages it is given

---
 bimdp/biflow.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index a3e873e..5fbf657 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -178,6 +178,10 @@ class BiFlow(mdp.Flow):
         empty_iterator = True
         for (x, msg) in zip(iterable, msg_iterable):
             empty_iterator = False
+            if msg is not None:
+                # the nodes remove entries, but the message is used again in
+                # the next training phase or for the next node
+                msg = dict(msg)
             ## execute the flow until the nodes return value is right
             i_node = 0
             while True:
@@ -254,7 +258,7 @@ class BiFlow(mdp.Flow):
         if stop_msg is None:
             result = self.flow[nodenr].stop_training()
         else:
-            result = self.flow[nodenr].stop_training(stop_msg)
+            result = self.flow[nodenr].stop_training(dict(stop_msg))
         if result is None:
             # the training phase ends here without an execute phase
             return
@@ -313,6 +317,9 @@ class BiFlow(mdp.Flow):
         for (x, msg, target) in zip(iterable, msg_iterable,
                                                target_iterable):
             empty_iterator = False
+            if msg is not None:
+                # the nodes remove entries, so use a copy
+                msg = dict(msg)
             if not target:
                 i_node = 0
             else:
-- 
2.43.0


From 59807a88438a0a666ce64ea533c2235ef549f84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:00 +0000
Subject: [PATCH 124/185] fix: a BiFlow can be executed with an iterable of
 messages and without data

---
 bimdp/biflow.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index 5fbf657..92edefc 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -471,6 +471,8 @@ class BiFlow(mdp.Flow):
                 if isinstance(msg_iterable, dict):
                     msg_iterable = [msg_iterable]
                     target_iterable = [target_iterable]
+                elif target_iterable is None:
+                    target_iterable = NoneIterable()
         else:
             if msg_iterable is None:
                 msg_iterable = NoneIterable()
-- 
2.43.0


From a7a42f9ba1930c1eb4684a6ca966274848c181ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:00 +0000
Subject: [PATCH 125/185] fix: a relative target beyond the BiFlow is refused
 instead of wrapping around

---
 bimdp/biflow.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index 92edefc..b164b96 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -571,6 +571,11 @@ class BiFlow(mdp.Flow):
                         return (x, msg)
                 elif i_node == -1:
                     return x, msg, -1
+                elif not 0 <= i_node < len(self.flow):
+                    err = ("Target int value references a node beyond the " +
+                           "flow (target " + str(target) + ", current node " +
+                           str(i_node - target) + ").")
+                    raise BiFlowException(err)
             else:
                 i_node = self._target_to_index(target, i_node)
                 if not isinstance(i_node, int):
-- 
2.43.0


From f8545089192cd9d381c80ed71cbae8ee6c4b6510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:00 +0000
Subject: [PATCH 126/185] fix: an unknown target or an invalid result is
 reported with the BiFlowException

---
 bimdp/biflow.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index b164b96..e2e5d9d 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -238,6 +238,10 @@ class BiFlow(mdp.Flow):
                            "during training: " + str(result))
                     raise BiFlowException(err)
                 i_node = self._target_to_index(target, nodenr)
+                if not isinstance(i_node, int):
+                    err = ("Target node not found in flow during " +
+                           "training, last target value: " + str(target))
+                    raise BiFlowException(err)
             self._bi_reset()
         if empty_iterator:
             if self.flow[nodenr].get_current_train_phase() == 1:
@@ -279,6 +283,10 @@ class BiFlow(mdp.Flow):
                    "for stop_training: " + str(result))
             raise BiFlowException(err)
         i_node = self._target_to_index(target, nodenr)
+        if not isinstance(i_node, int):
+            err = ("Target node not found in flow during " +
+                   "stop_training phase, last target value: " + str(target))
+            raise BiFlowException(err)
         result = self._execute_seq(x, msg, i_node=i_node)
         # check that we reached the end of flow or get EXIT_TARGET,
         # only complain if the target was not found
@@ -324,6 +332,10 @@ class BiFlow(mdp.Flow):
                 i_node = 0
             else:
                 i_node = self._target_to_index(target)
+                if not isinstance(i_node, int):
+                    err = ("Target node not found in flow during execute, " +
+                           "start target value: " + str(target))
+                    raise BiFlowException(err)
             result = self._execute_seq(x=x, msg=msg, i_node=i_node)
             if not isinstance(result, tuple):
                 y = result
@@ -339,7 +351,7 @@ class BiFlow(mdp.Flow):
                 raise BiFlowException(err)
             else:
                 err = ("BiNode execution returned invalid result type: " +
-                       result)
+                       str(result))
                 raise BiFlowException(err)
             self._bi_reset()
             if msg:
@@ -553,7 +565,7 @@ class BiFlow(mdp.Flow):
                     x, msg, target = result
                 else:
                     err = ("BiNode execution returned invalid result type: " +
-                           result)
+                           str(result))
                     raise BiFlowException(err)
             else:
                 # just a normal MDP node
-- 
2.43.0


From 74169ab22cd6f2cd6c7310b3fa801ef39a5c9edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:00 +0000
Subject: [PATCH 127/185] fix: a checkpoint function of a BiCheckpointFlow can
 return None

---
 bimdp/biflow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index e2e5d9d..7eac598 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -635,9 +635,9 @@ class BiCheckpointFlow(BiFlow, mdp.CheckpointFlow):
                        (i_node, str(self.flow[i_node])))
             self._train_node(data_iterables[i_node], i_node,
                              msg_iterables[i_node], stop_messages[i_node])
-            if i_node <= len(checkpoints) and checkpoints[i_node] is not None:
+            if i_node < len(checkpoints) and checkpoints[i_node] is not None:
                 checkpoint_dict = checkpoints[i_node](self.flow[i_node])
-                if dict:
+                if checkpoint_dict:
                     self.__dict__.update(checkpoint_dict)
             if self.verbose:
                 print("training finished")
-- 
2.43.0


From 0c4f01fcfe6a1ec55f2f0203c2a3103069deebd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:13 +0000
Subject: [PATCH 128/185] fix: a relative target beyond a BiFlowNode is refused
 as well

---
 bimdp/biflow.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index 7eac598..3a97574 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -551,6 +551,10 @@ class BiFlow(mdp.Flow):
         """
         ## this method is also used by other classes, like BiFlowNode
         while i_node != stop_at_node:
+            if not 0 <= i_node < len(self.flow):
+                err = ("Target int value references a node at position %d, " %
+                       i_node + "which is not in the flow.")
+                raise BiFlowException(err)
             if isinstance(self.flow[i_node], BiNode):
                 result = self.flow[i_node].execute(x, msg)
                 # check the type of the result
@@ -583,11 +587,6 @@ class BiFlow(mdp.Flow):
                         return (x, msg)
                 elif i_node == -1:
                     return x, msg, -1
-                elif not 0 <= i_node < len(self.flow):
-                    err = ("Target int value references a node beyond the " +
-                           "flow (target " + str(target) + ", current node " +
-                           str(i_node - target) + ").")
-                    raise BiFlowException(err)
             else:
                 i_node = self._target_to_index(target, i_node)
                 if not isinstance(i_node, int):
-- 
2.43.0


From 251efa7c5146572ec9f08fc839e5149402847449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:25 +0000
Subject: [PATCH 129/185] fix: a CloneBiLayer can be switched back to a single
 node instance

---
 bimdp/hinet/bilayer.py            | 4 ----
 bimdp/parallel/parallelbihinet.py | 3 ---
 2 files changed, 7 deletions(-)

diff --git a/bimdp/hinet/bilayer.py b/bimdp/hinet/bilayer.py
index c8d3e28..afe0484 100644
--- a/bimdp/hinet/bilayer.py
+++ b/bimdp/hinet/bilayer.py
@@ -80,10 +80,6 @@ class CloneBiLayer(BiNode, hinet.CloneLayer):
                 err = ("Calling switch_to_instance during training will "
                        "probably result in lost training data.")
                 raise CloneBiLayerException(err)
-            elif self.is_bi_training():
-                err = ("Calling switch_to_instance during bi_learning will "
-                       "probably result in lost learning data.")
-                raise CloneBiLayerException(err)
             self.node = self.nodes[0]
             self.nodes = [self.node] * len(self.nodes)
 
diff --git a/bimdp/parallel/parallelbihinet.py b/bimdp/parallel/parallelbihinet.py
index c32ad76..0cc81d1 100644
--- a/bimdp/parallel/parallelbihinet.py
+++ b/bimdp/parallel/parallelbihinet.py
@@ -35,9 +35,6 @@ class ParallelCloneBiLayer(CloneBiLayer, mdp.parallel.ParallelExtensionNode):
             if self.is_training():
                 for forked_node in self.nodes[1:]:
                     self.nodes[0].join(forked_node)
-            elif self.is_bi_training():
-                for forked_node in self.nodes[1:]:
-                    self.nodes[0].bi_join(forked_node)
             self.node = self.nodes[0]
             self.nodes = (self.node,) * len(self.nodes)
 
-- 
2.43.0


From 25353bfb518f10e95a217b0a5ab3e8d28de19635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:18 +0000
Subject: [PATCH 130/185] fix: a BiFlowNode of nodes without fixed dimensions
 can be executed

---
 bimdp/hinet/biflownode.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/bimdp/hinet/biflownode.py b/bimdp/hinet/biflownode.py
index 8ac8fab..8bbdec0 100644
--- a/bimdp/hinet/biflownode.py
+++ b/bimdp/hinet/biflownode.py
@@ -80,11 +80,23 @@ class BiFlowNode(BiNode, hinet.FlowNode):
         # the data does not have to pass through all the nodes
         pass
 
+    def _pre_execution_checks(self, x):
+        """Perform the checks, but do not set the output_dim.
+
+        It is not known before the internal nodes are executed.
+        """
+        self._train_if_not_started(x)
+        self._if_training_stop_training()
+        self._check_input(x)
+
     def _execute(self, x, msg=None):
         target = self._get_target()
         i_node = self._flow._target_to_index(target)
         # we know that _get_target returned a valid target, so no check
-        return self._flow._execute_seq(x, msg, i_node)
+        result = self._flow._execute_seq(x, msg, i_node)
+        if self.output_dim is None and self._flow[-1].output_dim is not None:
+            self.output_dim = self._flow[-1].output_dim
+        return result
 
     def _get_execute_method(self, x, method_name, target):
         """Return _execute and the provided target.
-- 
2.43.0


From c0eac7f9c3469b2bebbf5d7fdb619714470927b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:45 +0000
Subject: [PATCH 131/185] fix: the stop message reaches the last node of a
 BiFlowNode

---
 bimdp/hinet/biflownode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bimdp/hinet/biflownode.py b/bimdp/hinet/biflownode.py
index 8bbdec0..7dc6bb6 100644
--- a/bimdp/hinet/biflownode.py
+++ b/bimdp/hinet/biflownode.py
@@ -242,8 +242,9 @@ class BiFlowNode(BiNode, hinet.FlowNode):
         """Return wrapper for stop_training to set BiFlowNode outputdim."""
         # We have to overwrite the version from FlowNode to take care of the
         # optional return value.
-        def _stop_training_wrapper(*args, **kwargs):
-            result = func(*args, **kwargs)
+        # The msg has to be in the signature for the message parsing.
+        def _stop_training_wrapper(msg=None):
+            result = func(msg)
             self.output_dim = node.output_dim
             return result
         return _stop_training_wrapper
-- 
2.43.0


From 91aeb6621fd144834e36cb317397c5e2a85aca09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:46 +0000
Subject: [PATCH 132/185] fix: a use_copies message entry for the id of a
 CloneBiLayer is not ignored

---
 bimdp/hinet/bilayer.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/bimdp/hinet/bilayer.py b/bimdp/hinet/bilayer.py
index afe0484..427fd7d 100644
--- a/bimdp/hinet/bilayer.py
+++ b/bimdp/hinet/bilayer.py
@@ -100,10 +100,10 @@ class CloneBiLayer(BiNode, hinet.CloneLayer):
         """
         pass
 
-    def _execute(self, x, msg=None):
+    def _execute(self, x, msg=None, use_copies=None):
         """Process the data through the internal nodes."""
-        if msg is not None:
-            self._extract_message_copy_flag(msg)
+        if use_copies is not None:
+            self.use_copies = use_copies
         y_results = []
         msg_results = []
         target = None
@@ -148,12 +148,12 @@ class CloneBiLayer(BiNode, hinet.CloneLayer):
         else:
             return y
 
-    def _train(self, x, msg=None):
+    def _train(self, x, msg=None, use_copies=None):
         """Perform single training step by training the internal nodes."""
         ## this code is mostly identical to the execute code,
         ## currently the only difference is that train is called
-        if msg is not None:
-            self._extract_message_copy_flag(msg)
+        if use_copies is not None:
+            self.use_copies = use_copies
         y_results = []
         msg_results = []
         target = None
@@ -198,14 +198,14 @@ class CloneBiLayer(BiNode, hinet.CloneLayer):
         else:
             return y
 
-    def _stop_training(self, msg=None):
+    def _stop_training(self, msg=None, use_copies=None):
         """Call stop_training on the internal nodes.
 
         The outgoing result message is also searched for a use_copies key,
         which is then applied if found.
         """
-        if msg is not None:
-            self._extract_message_copy_flag(msg)
+        if use_copies is not None:
+            self.use_copies = use_copies
         target = None
         if self.use_copies:
             ## have to call stop_training for each node
-- 
2.43.0


From 8410c2c965c3bc1888bb9de773a45790ab6c0dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:54 +0000
Subject: [PATCH 133/185] fix: a missed training node in a ParallelBiFlow
 raises a BiFlowException

---
 bimdp/parallel/parallelbiflow.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index fceac56..e60ce18 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -35,17 +35,13 @@ class BiFlowTrainCallable(parallel.FlowTrainCallable):
         data -- tuple containing x and msg
         """
         x, msg = data
-        while True:
-            result = self._flownode.train(x, msg)
-            if (result is None) or isinstance(result, dict):
-                break
-            elif (isinstance(result, tuple) and
-                (result[2] in [1, -1, EXIT_TARGET])):
-                break
-            else:
-                err = ("Target node not found in flow during " +
-                       "training, last result: " + str(result))
-                raise BiFlowException(err)
+        result = self._flownode.train(x, msg)
+        if not ((result is None) or isinstance(result, dict) or
+                (isinstance(result, tuple) and (len(result) == 3) and
+                 (result[2] in [1, -1, EXIT_TARGET]))):
+            err = ("Target node not found in flow during " +
+                   "training, last result: " + str(result))
+            raise BiFlowException(err)
         self._flownode.bi_reset()
         if self._purge_nodes:
             parallel._purge_flownode(self._flownode)
-- 
2.43.0


From 0cb3074b32fd645059dc8edc6f3cd02bf44fe6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:54 +0000
Subject: [PATCH 134/185] fix: stop_training execution in a ParallelBiFlow can
 reach the end of the flow

---
 bimdp/parallel/parallelbiflow.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index e60ce18..841a855 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -374,16 +374,22 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
         result = self._flownode.stop_training(
                                 self._stop_messages[self._i_train_node])
         self._post_stop_training_hook()
-        if (result is not None) and (not isinstance(result, dict)):
-            if (isinstance(result, tuple) and
-                (result[2] in [1, -1, EXIT_TARGET])):
-                pass
-            else:
+        self._check_stop_training_result(result)
+        self._bi_reset()
+
+    def _check_stop_training_result(self, result):
+        """Check that the target of the stop_training execution was found.
+
+        Like in a BiFlow it is fine to reach the end of the flow, and the
+        values of +1, -1 and EXIT_TARGET are tolerated.
+        """
+        if isinstance(result, tuple) and (len(result) == 3):
+            target = result[2]
+            if target not in [1, -1, EXIT_TARGET]:
                 err = ("Target node not found in flow during " +
                        "stop_training phase, last result: " +
                        str(result))
                 raise BiFlowException(err)
-        self._bi_reset()
 
     def _create_train_task(self):
         """Create and return a single training task without callable.
@@ -540,14 +546,7 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
             result = self._flownode.stop_training(
                                     self._stop_messages[self._i_train_node])
             self._post_stop_training_hook()
-            if (result is not None):
-                target = result[2]
-                # values of +1, -1 and EXIT_TARGET are tolerated
-                if target not in [1, -1, EXIT_TARGET]:
-                    err = ("Target node not found in flow during " +
-                           "stop_training phase, last result: " +
-                           str(result))
-                    raise BiFlowException(err)
+            self._check_stop_training_result(result)
             self._flownode.bi_reset()
             if self.verbose:
                 print ("finished parallel training phase of node no. " +
-- 
2.43.0


From 834d69628be2c85e7f9cc916f7073f4cc64df0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:54 +0000
Subject: [PATCH 135/185] fix: ParallelBiFlow training does not change the
 given messages

---
 bimdp/parallel/parallelbiflow.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index 841a855..1d4edd9 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -364,6 +364,9 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
         i_task = 0
         for (x, msg) in zip(iterable, msg_iterable):
             i_task += 1
+            if msg is not None:
+                # the nodes remove entries, so use a copy
+                msg = dict(msg)
             # Note: if x contains additional args assume that the
             # callable can handle this
             task_callable((x, msg))
@@ -371,12 +374,19 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                 print ("    finished nonparallel task no. %d" % i_task)
         # perform stop_training with result check
         self._stop_training_hook()
-        result = self._flownode.stop_training(
-                                self._stop_messages[self._i_train_node])
+        result = self._flownode.stop_training(self._get_stop_message())
         self._post_stop_training_hook()
         self._check_stop_training_result(result)
         self._bi_reset()
 
+    def _get_stop_message(self):
+        """Return the stop message for the current node."""
+        stop_msg = self._stop_messages[self._i_train_node]
+        if stop_msg is not None:
+            # the nodes remove entries, so use a copy
+            stop_msg = dict(stop_msg)
+        return stop_msg
+
     def _check_stop_training_result(self, result):
         """Check that the target of the stop_training execution was found.
 
@@ -400,6 +410,9 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
         try:
             x = next(self._train_data_iterator)
             msg = next(self._train_msg_iterator)
+            if msg is not None:
+                # the nodes remove entries, so use a copy
+                msg = dict(msg)
             return ((x, msg), None)
         except StopIteration:
             return None
@@ -543,8 +556,7 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                 self._flownode.join(result)
             # perform local stop_training with result check
             self._stop_training_hook()
-            result = self._flownode.stop_training(
-                                    self._stop_messages[self._i_train_node])
+            result = self._flownode.stop_training(self._get_stop_message())
             self._post_stop_training_hook()
             self._check_stop_training_result(result)
             self._flownode.bi_reset()
-- 
2.43.0


From bdd7b056e40188b2b948d78d84109dffa99f0688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:54 +0000
Subject: [PATCH 136/185] fix: ParallelBiFlow training with a sequence of
 schedulers

---
 bimdp/parallel/parallelbiflow.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index 1d4edd9..8283681 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -181,19 +181,19 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                     # self._i_train_node was set in setup_parallel_training
                     schedulers = iter(scheduler)
                     scheduler = next(schedulers)
-                    if self._i_train_node > 0:
-                        # dispose schedulers for pretrained nodes
-                        for _ in range(self._i_train_node):
-                            if scheduler is not None:
-                                scheduler.shutdown()
-                            scheduler = next(schedulers)
-                    elif self._i_train_node is None:
+                    if self._i_train_node is None:
                         # all nodes are already trained, dispose schedulers
                         for _ in range(len(self.flow) - 1):
                             if scheduler is not None:
                                 scheduler.shutdown()
                             # the last scheduler will be shutdown in finally
                             scheduler = next(schedulers)
+                    elif self._i_train_node > 0:
+                        # dispose schedulers for pretrained nodes
+                        for _ in range(self._i_train_node):
+                            if scheduler is not None:
+                                scheduler.shutdown()
+                            scheduler = next(schedulers)
                     last_trained_node = self._i_train_node
                 else:
                     schedulers = None
@@ -217,6 +217,7 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                         self.use_results(results)
                     # check if we have to switch to next scheduler
                     if ((schedulers is not None) and
+                        (self._i_train_node is not None) and
                         (self._i_train_node > last_trained_node)):
                         # dispose unused schedulers
                         for _ in range(self._i_train_node - last_trained_node):
-- 
2.43.0


From 40c2d17361266f5abcd7c1980cb56e4fb0d76924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:54 +0000
Subject: [PATCH 137/185] fix: a failed ParallelBiFlow training does not block
 the flow

---
 bimdp/parallel/parallelbiflow.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index 8283681..6a2bf0a 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -234,8 +234,13 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                                             parallel.TrainResultContainer()
             finally:
                 # reset remaining iterator references, which cannot be pickled
+                self._train_data_iterables = None
+                self._train_msg_iterables = None
                 self._train_data_iterator = None
                 self._train_msg_iterator = None
+                # only relevant after an exception
+                self._i_train_node = None
+                self._next_task = None
                 if (schedulers is not None) and (scheduler is not None):
                     scheduler.shutdown()
 
-- 
2.43.0


From 110f552148ea4bdb34df296124f6e8eced6bb9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:54 +0000
Subject: [PATCH 138/185] fix: a failed ParallelBiFlow execution leaves no task
 behind

---
 bimdp/parallel/parallelbiflow.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index 6a2bf0a..9ed2574 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -485,6 +485,7 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
             self._exec_data_iterator = None
             self._exec_msg_iterator = None
             self._exec_target_iterator = None
+            self._next_task = None  # only relevant after an exception
         return result
 
     def setup_parallel_execution(self, iterable, msg_iterable=None,
-- 
2.43.0


From 252c2b5931b60d82a8e5fee47ca85dc147dc9e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:54 +0000
Subject: [PATCH 139/185] fix: empty training data for a locally trained node
 in a ParallelBiFlow

---
 bimdp/parallel/parallelbiflow.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index 9ed2574..717d957 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -378,6 +378,18 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
             task_callable((x, msg))
             if self.verbose:
                 print ("    finished nonparallel task no. %d" % i_task)
+        if not i_task:
+            if self.flow[self._i_train_node].get_current_train_phase() == 1:
+                err_str = ("The training data iteration for node "
+                           "no. %d could not be repeated for the "
+                           "second training phase, you probably "
+                           "provided an iterator instead of an "
+                           "iterable." % (self._i_train_node+1))
+                raise BiFlowException(err_str)
+            else:
+                err_str = ("The training data iterator for node "
+                           "no. %d is empty." % (self._i_train_node+1))
+                raise BiFlowException(err_str)
         # perform stop_training with result check
         self._stop_training_hook()
         result = self._flownode.stop_training(self._get_stop_message())
-- 
2.43.0


From 38efdb735d0c0e93dc3c983143328d88c36d42eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:54 +0000
Subject: [PATCH 140/185] fix: partially missing results are noticed in
 ParallelBiFlow execution

---
 bimdp/parallel/parallelbiflow.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index 717d957..c9d4942 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -589,7 +589,7 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
             self._exec_data_iterator = None
             self._exec_msg_iterator = None
             self._exec_target_iterator = None
-            y_results = []
+            y_results = None
             msg_results = MessageResultContainer()
             # use internal flownode to join all biflownodes
             self._flownode = BiFlowNode(BiFlow(self.flow))
@@ -602,19 +602,27 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                 else:
                     y = result
                 if y is not None:
-                    try:
-                        y_results.append(y)
-                    except:
+                    if y_results is None:
+                        y_results = [y]
+                    elif y_results is False:
                         err = "Some but not all y return values were None."
                         raise BiFlowException(err)
+                    else:
+                        y_results.append(y)
                 else:
-                    y_results = None
+                    if y_results is None:
+                        y_results = False
+                    elif y_results is not False:
+                        err = "Some but not all y return values were None."
+                        raise BiFlowException(err)
                 # join biflownode
                 if forked_biflownode is not None:
                     self._flownode.join(forked_biflownode)
             # return results
-            if y_results is not None:
+            if y_results:
                 y_results = n.concatenate(y_results)
+            else:
+                y_results = None
             return (y_results, msg_results.get_message())
         else:
             err = "It seems that there are no results to retrieve."
-- 
2.43.0


From 6b13e1f2b8579b22340514b1386f7a8a477790f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:54 +0000
Subject: [PATCH 141/185] fix: ParallelCheckpointBiFlow can be trained without
 a scheduler

---
 bimdp/parallel/parallelbiflow.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index c9d4942..d7b7e13 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -160,8 +160,9 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                 err = ("A train_callable_class was specified but no scheduler "
                        "was given, so the train_callable_class has no effect.")
                 raise ParallelBiFlowException(err)
-            super(ParallelBiFlow, self).train(data_iterables, msg_iterables,
-                                              stop_messages,
+            super(ParallelBiFlow, self).train(data_iterables,
+                                              msg_iterables=msg_iterables,
+                                              stop_messages=stop_messages,
                                               **kwargs)
         else:
             if train_callable_class is None:
-- 
2.43.0


From 288b82ad6d0b6707d23beb752e8862d72a73c10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:54 +0000
Subject: [PATCH 142/185] fix: ParallelCheckpointBiFlow uses the stop messages

---
 bimdp/parallel/parallelbiflow.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index d7b7e13..b93ce26 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -658,6 +658,7 @@ class ParallelCheckpointBiFlow(mdp.parallel.ParallelCheckpointFlow,
                         train_callable_class=train_callable_class,
                         overwrite_result_container=overwrite_result_container,
                         msg_iterables=msg_iterables,
+                        stop_messages=stop_messages,
                         **kwargs)
 
     def setup_parallel_training(self, data_iterables, checkpoints,
-- 
2.43.0


From db00bbf9d05f87273e6de02b9d2bf1a65faaef0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:28 +0000
Subject: [PATCH 143/185] fix: ExecuteResultContainer hands out the joined flow
 node only once

---
 mdp/parallel/parallelflows.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 65ed9b9..c012f8f 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -212,6 +212,7 @@ class ExecuteResultContainer(OrderedResultContainer):
         excecute_results = super(ExecuteResultContainer, self).get_results()
         flownode_results = ([self._flownode,]
                               + ([None] * (len(excecute_results)-1)))
+        self._flownode = None
         return list(zip(excecute_results, flownode_results))
 
 ### ParallelFlow Class ###
-- 
2.43.0


From 5e5784dfbf4ab7bad6611ad5705078c860ccafb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:28 +0000
Subject: [PATCH 144/185] fix: the fork of a BiFlowNode keeps its node_id

---
 bimdp/parallel/__init__.py        |  2 +-
 bimdp/parallel/parallelbihinet.py | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/bimdp/parallel/__init__.py b/bimdp/parallel/__init__.py
index 1091fd8..490b213 100644
--- a/bimdp/parallel/__init__.py
+++ b/bimdp/parallel/__init__.py
@@ -2,7 +2,7 @@
 from .parallelbiflow import (
     BiFlowTrainCallable, BiFlowExecuteCallable,
     ParallelBiFlowException, ParallelBiFlow, ParallelCheckpointBiFlow)
-from .parallelbihinet import ParallelCloneBiLayer
+from .parallelbihinet import ParallelBiFlowNode, ParallelCloneBiLayer
 
 del parallelbiflow
 del parallelbihinet
diff --git a/bimdp/parallel/parallelbihinet.py b/bimdp/parallel/parallelbihinet.py
index 0cc81d1..e31b111 100644
--- a/bimdp/parallel/parallelbihinet.py
+++ b/bimdp/parallel/parallelbihinet.py
@@ -4,7 +4,17 @@ Parallel version of bihinet.
 from builtins import range
 
 import mdp
-from bimdp.hinet import CloneBiLayer
+from bimdp.hinet import BiFlowNode, CloneBiLayer
+
+
+class ParallelBiFlowNode(BiFlowNode, mdp.parallel.ParallelExtensionNode):
+    """Parallel version of BiFlowNode."""
+
+    def _fork(self):
+        """Fork like a FlowNode, but keep the node_id."""
+        forked_node = mdp.parallel.ParallelFlowNode._fork(self)
+        forked_node._node_id = self._node_id
+        return forked_node
 
 
 class ParallelCloneBiLayer(CloneBiLayer, mdp.parallel.ParallelExtensionNode):
-- 
2.43.0


From e01540e835187f9ad610bb8d251a85d9257638da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:58 +0000
Subject: [PATCH 145/185] fix: a ParallelBiFlow can be pickled after its
 training tasks are done

---
 bimdp/parallel/parallelbiflow.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index b93ce26..79d2d1d 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -360,6 +360,11 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
         else:
             # training is finished
             self._i_train_node = None
+            # reset iterable references, which cannot be pickled
+            self._train_data_iterables = None
+            self._train_msg_iterables = None
+            self._train_data_iterator = None
+            self._train_msg_iterator = None
 
     def _local_train_phase(self, iterable, msg_iterable):
         """Perform a single training phase locally.
-- 
2.43.0


From 3e5e324e7a4931a40feb50c942565cad0455d98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:36 +0000
Subject: [PATCH 146/185] fix: training with messages only is not lost in a
 ParallelBiFlow

---
 mdp/parallel/parallelflows.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index c012f8f..a723fe7 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -38,8 +38,12 @@ _DUMMY_NODE = _DummyNode()
 
 def _purge_flownode(flownode):
     """Replace nodes that are """
+    found_train_node = False  # same as in join
     for i_node, node in enumerate(flownode._flow):
-        if not (node._train_phase_started or node.use_execute_fork()):
+        if not found_train_node and node.is_training():
+            # keep it, even if it was only trained with messages so far
+            found_train_node = True
+        elif not (node._train_phase_started or node.use_execute_fork()):
             flownode._flow.flow[i_node] = _DUMMY_NODE
 
 
-- 
2.43.0


From 5261cc54344f57a343004a0b7a4922ebbae3cd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:14 +0000
Subject: [PATCH 147/185] fix: the fork of a BiFlowNode keeps its input_dim and
 dtype

---
 bimdp/parallel/parallelbihinet.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bimdp/parallel/parallelbihinet.py b/bimdp/parallel/parallelbihinet.py
index e31b111..3821973 100644
--- a/bimdp/parallel/parallelbihinet.py
+++ b/bimdp/parallel/parallelbihinet.py
@@ -11,10 +11,12 @@ class ParallelBiFlowNode(BiFlowNode, mdp.parallel.ParallelExtensionNode):
     """Parallel version of BiFlowNode."""
 
     def _fork(self):
-        """Fork like a FlowNode, but keep the node_id."""
-        forked_node = mdp.parallel.ParallelFlowNode._fork(self)
-        forked_node._node_id = self._node_id
-        return forked_node
+        """Fork like a FlowNode, but keep what was specified for this node."""
+        forked_flow = mdp.parallel.ParallelFlowNode._fork(self)._flow
+        return self.__class__(forked_flow,
+                              input_dim=self.input_dim,
+                              dtype=self.dtype,
+                              node_id=self._node_id)
 
 
 class ParallelCloneBiLayer(CloneBiLayer, mdp.parallel.ParallelExtensionNode):
-- 
2.43.0


From 29c4de6d36afa51121a02252dd7ef704826db404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:14 +0000
Subject: [PATCH 148/185] fix: joining a CloneBiLayer that was switched by a
 message in the fork

---
 bimdp/parallel/parallelbihinet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bimdp/parallel/parallelbihinet.py b/bimdp/parallel/parallelbihinet.py
index 3821973..475ef7b 100644
--- a/bimdp/parallel/parallelbihinet.py
+++ b/bimdp/parallel/parallelbihinet.py
@@ -68,6 +68,8 @@ class ParallelCloneBiLayer(CloneBiLayer, mdp.parallel.ParallelExtensionNode):
 
     def _join(self, forked_node):
         """Join the trained nodes from the forked layer."""
+        # the fork might have been switched by a message
+        self.use_copies = forked_node.use_copies
         if self.use_copies:
             for i_node, layer_node in enumerate(self.nodes):
                 layer_node.join(forked_node.nodes[i_node])
-- 
2.43.0


From de086eae61c6b8f2b38570ca1424d748d3a73fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:04 +0000
Subject: [PATCH 149/185] fix: gradient of a node that was not executed before

IdentityNode and QuadraticExpansionNode get their dimensions only with the
first execution, so the gradient at the end of a trained flow failed.
---
 bimdp/nodes/gradient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bimdp/nodes/gradient.py b/bimdp/nodes/gradient.py
index 47c1493..79cda85 100644
--- a/bimdp/nodes/gradient.py
+++ b/bimdp/nodes/gradient.py
@@ -40,6 +40,8 @@ class GradientExtensionNode(mdp.ExtensionNode, mdp.Node):
         """
         if self.is_training():
             raise mdp.TrainingException("The training is not completed yet.")
+        self._pre_execution_checks(x)
+        x = self._refcast(x)
         if grad is None:
             grad = np.zeros((len(x), self.input_dim, self.input_dim))
             diag_indices = np.arange(self.input_dim)
-- 
2.43.0


From 5882f63c729c42e87197f0d1364d39308dbf77d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:04 +0000
Subject: [PATCH 150/185] fix: gradient of a SameInputLayer

It used the block-diagonal gradient of the normal Layer.
---
 bimdp/nodes/gradient.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bimdp/nodes/gradient.py b/bimdp/nodes/gradient.py
index 79cda85..01c7049 100644
--- a/bimdp/nodes/gradient.py
+++ b/bimdp/nodes/gradient.py
@@ -148,6 +148,11 @@ def _layer_grad(self, x):
                 node._get_grad(x[:, in_start:in_stop])
     return grad
 
+@mdp.extension_method("gradient", mdp.hinet.SameInputLayer, "_get_grad")
+def _same_input_layer_grad(self, x):
+    # all the nodes get the same input
+    return np.concatenate([node._get_grad(x) for node in self.nodes], axis=1)
+
 # this is an optimized implementation, the original implementation is
 # used for reference in the unittest
 @mdp.extension_method("gradient", mdp.hinet.Switchboard, "_gradient")
-- 
2.43.0


From ad8a12f491be756353aac238caa6f1d156ea1e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:04 +0000
Subject: [PATCH 151/185] fix: gradient of a flow that starts with a
 CloneBiLayer

The gradients of the internal nodes were stacked as if all nodes had the same
input, instead of being combined into a block-diagonal gradient.
---
 bimdp/nodes/gradient.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/bimdp/nodes/gradient.py b/bimdp/nodes/gradient.py
index 01c7049..bee97e7 100644
--- a/bimdp/nodes/gradient.py
+++ b/bimdp/nodes/gradient.py
@@ -6,6 +6,7 @@ from builtins import range
 
 import mdp
 import bimdp
+from bimdp.hinet.bilayer import CloneBiLayer
 np = mdp.numx
 
 class NotDifferentiableException(mdp.NodeException):
@@ -122,6 +123,21 @@ def _sfa2_grad(self, x):
     return np.asarray([np.dot(sfa_grad[i], quadex_grad[i])
                        for i in range(len(sfa_grad))])
 
+## bimdp.hinet nodes ##
+
+@mdp.extension_method("gradient", CloneBiLayer, "_execute")
+def _clonebilayer_execute(self, x, msg=None, use_copies=None):
+    # The internal nodes combine their gradients with the part of the grad
+    # array that belongs to them. If there is no grad array yet they would
+    # take their part of x for the original x.
+    if (x is not None and msg and msg.get("method") == "gradient" and
+            msg.get("grad") is None):
+        grad = np.zeros((len(x), x.shape[1], x.shape[1]))
+        diag_indices = np.arange(x.shape[1])
+        grad[:,diag_indices,diag_indices] = 1.0
+        msg = dict(msg, grad=grad)
+    return self._non_extension__execute(x, msg, use_copies)
+
 ## mdp.hinet nodes ##
 
 @mdp.extension_method("gradient", mdp.hinet.Layer, "_get_grad")
-- 
2.43.0


From bf151467543605ebc498444b0e98d6f20eeef299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:04 +0000
Subject: [PATCH 152/185] fix: a graph node with an edge to itself can be
 removed

The edge is both an entering and an outgoing edge and was removed twice.
---
 mdp/graph/graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mdp/graph/graph.py b/mdp/graph/graph.py
index 7f66e5e..9f46e0b 100644
--- a/mdp/graph/graph.py
+++ b/mdp/graph/graph.py
@@ -153,7 +153,10 @@ class Graph(object):
             raise GraphException(errstr)
 
         # remove all edges containing this node
-        for edge in node.get_edges():
+        for edge in node.get_edges_in():
+            self.remove_edge(edge)
+        # edges from the node to itself have already been removed
+        for edge in node.get_edges_out():
             self.remove_edge(edge)
         # remove the node
         self.nodes.remove(node)
-- 
2.43.0


From 361f7e8668cb6efd5d24ad12521127833af33cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:04 +0000
Subject: [PATCH 153/185] fix: depth-first order of the nodes of a graph

A node was marked as visited when it was put on the stack, so that it came too
late if it could also be reached from a node visited before it.
---
 mdp/graph/graph.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mdp/graph/graph.py b/mdp/graph/graph.py
index 9f46e0b..a19f161 100644
--- a/mdp/graph/graph.py
+++ b/mdp/graph/graph.py
@@ -290,7 +290,7 @@ class Graph(object):
         # result list containing the nodes in Depth-First order
         dfs_list = []
         # keep track of all already visited nodes
-        visited_nodes = { root: None }
+        visited_nodes = {}
 
         # stack (lifo) list
         dfs_stack = []
@@ -299,6 +299,10 @@ class Graph(object):
         while len(dfs_stack):
             # consider the next node on the stack
             node = dfs_stack.pop()
+            # it was reached on another way in the meantime
+            if node in visited_nodes:
+                continue
+            visited_nodes[node] = None
             dfs_list.append(node)
             # visit the node
             if visit_fct is not None:
@@ -306,7 +310,6 @@ class Graph(object):
             # add all sons to the stack (if not already visited)
             for son in neighbors_fct(node):
                 if son not in visited_nodes:
-                    visited_nodes[son] = None
                     dfs_stack.append(son)
 
         return dfs_list
-- 
2.43.0


From 36951bf8b6ec14100d9dd02d5444271c55fbae73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:15 +0000
Subject: [PATCH 154/185] fix: regularization in the execution of LLENode and
 HLLENode

The constant r was added to the local covariance matrix instead of multiplying
its trace, as in the training, so that the result depended on the scale of the
data. With r=None the value for the first sample was used for all the others,
and training samples could lead to a singular matrix.
---
 mdp/nodes/lle_nodes.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mdp/nodes/lle_nodes.py b/mdp/nodes/lle_nodes.py
index 6f50e95..fdbc8ca 100644
--- a/mdp/nodes/lle_nodes.py
+++ b/mdp/nodes/lle_nodes.py
@@ -302,12 +302,15 @@ class LLENode(Cumulator):
 
             #find corrected covariance matrix Q
             Q = mult(M_xi, M_xi.T)
-            if r is None and k > d_out:
+            trace = Q.trace()
+            if r is None:
                 sig2 = (svd(M_xi, compute_uv=0))**2
-                r = numx.sum(sig2[d_out:])
-                Q[Q_diag_idx, Q_diag_idx] += r
-            if r is not None:
-                Q[Q_diag_idx, Q_diag_idx] += r
+                reg = numx.sum(sig2[d_out:])
+            else:
+                reg = r*trace
+            # Q is singular if x[row] is a training sample
+            reg = max(reg, numx.finfo(Q.dtype).eps*trace) or 1.
+            Q[Q_diag_idx, Q_diag_idx] += reg
 
             #solve for weights
             w = self._refcast(numx_linalg.solve(Q , numx.ones(k)))
-- 
2.43.0


From fb40b32d26f5626ce80bc14629677777aae1cde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:15 +0000
Subject: [PATCH 155/185] fix: LLENode and HLLENode with output_dim=1.0

The sum of the normalized variances can be rounded to a value below 1, and the
number of dimensions to a value above the existing ones.
---
 mdp/nodes/lle_nodes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/lle_nodes.py b/mdp/nodes/lle_nodes.py
index fdbc8ca..455bf63 100644
--- a/mdp/nodes/lle_nodes.py
+++ b/mdp/nodes/lle_nodes.py
@@ -264,12 +264,13 @@ class LLENode(Cumulator):
             #-----------------------------------------------
             sig2 /= sig2.sum()
             S = sig2.cumsum()
-            m_est = S.searchsorted(self.desired_variance)
+            # (S[-1] can be rounded to less than 1)
+            m_est = min(S.searchsorted(self.desired_variance), len(S)-1)
             if m_est > 0:
                 m_est += old_div((self.desired_variance-S[m_est-1]),sig2[m_est])
             else:
                 m_est = old_div(self.desired_variance,sig2[m_est])
-            m_est_array.append(m_est)
+            m_est_array.append(min(m_est, len(S)))
 
         m_est_array = numx.asarray(m_est_array)
         self.output_dim = int( numx.ceil( numx.median(m_est_array) ) )
-- 
2.43.0


From 550bd9ef3f2c1e68d26840539c77e8c07c06561f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:15 +0000
Subject: [PATCH 156/185] fix: LLENode and HLLENode need more than k training
 points

A sample is not its own neighbour, so k neighbours are not available in k
samples and the training failed with an index error.
---
 mdp/nodes/lle_nodes.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mdp/nodes/lle_nodes.py b/mdp/nodes/lle_nodes.py
index 455bf63..7bf9de2 100644
--- a/mdp/nodes/lle_nodes.py
+++ b/mdp/nodes/lle_nodes.py
@@ -114,9 +114,9 @@ class LLENode(Cumulator):
         W_diag_idx = numx.arange(N)
         Q_diag_idx = numx.arange(k)
 
-        if k > N:
-            err = ('k=%i must be less than or '
-                   'equal to number of training points N=%i' % (k, N))
+        if k >= N:
+            err = ('k=%i must be less than the '
+                   'number of training points N=%i' % (k, N))
             raise TrainingException(err)
 
         # determines number of output dimensions: if desired_variance
@@ -427,9 +427,9 @@ class HLLENode(LLENode):
         M = self.data
         N = M.shape[0]
 
-        if k > N:
-            err = ('k=%i must be less than'
-                   ' or equal to number of training points N=%i' % (k, N))
+        if k >= N:
+            err = ('k=%i must be less than the'
+                   ' number of training points N=%i' % (k, N))
             raise TrainingException(err)
 
         if self.verbose:
-- 
2.43.0


From e80370b8de3ba201651a0e8df461e7181e275357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:02 +0000
Subject: [PATCH 157/185] fix: scikits nodes report the output dimension of the
 wrapped algorithm

---
 mdp/nodes/scikits_nodes.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/mdp/nodes/scikits_nodes.py b/mdp/nodes/scikits_nodes.py
index e7c04b8..4fc4f25 100644
--- a/mdp/nodes/scikits_nodes.py
+++ b/mdp/nodes/scikits_nodes.py
@@ -352,6 +352,15 @@ def wrap_scikits_transformer(scikits_class):
             super(ScikitsNode, self)._stop_training(self)
             return self.scikits_alg.fit(self.data, **kwargs)
 
+        def _pre_execution_checks(self, x):
+            unknown = self.output_dim is None
+            super(ScikitsNode, self)._pre_execution_checks(x)
+            if unknown:
+                # the output dimension is decided by the algorithm
+                self._output_dim = None
+                y = self._execute(self._refcast(x[:1]))
+                self._output_dim = y.shape[1] if y.ndim > 1 else 1
+
         def _execute(self, x):
             return self.scikits_alg.transform(x)
 
@@ -451,6 +460,15 @@ def wrap_scikits_predictor(scikits_class):
             super(ScikitsNode, self)._stop_training(self)
             return self.scikits_alg.fit(self.data, **kwargs)
 
+        def _pre_execution_checks(self, x):
+            unknown = self.output_dim is None
+            super(ScikitsNode, self)._pre_execution_checks(x)
+            if unknown:
+                # the output dimension is decided by the algorithm
+                self._output_dim = None
+                y = self._execute(self._refcast(x[:1]))
+                self._output_dim = y.shape[1] if y.ndim > 1 else 1
+
         def _execute(self, x):
             return self.scikits_alg.predict(x)
 
-- 
2.43.0


From 7868ec6e095b2d5b20f5d4e47a3801a3f6296557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:57 +0000
Subject: [PATCH 158/185] fix: a failing inspection trace leaves no wrappers in
 the flow

---
 bimdp/inspection/tracer.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/bimdp/inspection/tracer.py b/bimdp/inspection/tracer.py
index 6d00df1..3865471 100644
--- a/bimdp/inspection/tracer.py
+++ b/bimdp/inspection/tracer.py
@@ -130,6 +130,16 @@ class InspectionHTMLTracer(object):
         self._trace_name = trace_name + "_t"
         self._flow = flow
         self._tracing_decorator.decorate_flow(flow)
+        try:
+            return self._trace_decorated_training(flow, x, msg, stop_msg,
+                                                  trace_name, debug, **kwargs)
+        finally:
+            # restore undecorated flow
+            self._tracing_decorator.decorate_flow(flow, undecorate_mode=True)
+
+    def _trace_decorated_training(self, flow, x, msg, stop_msg, trace_name,
+                                  debug, **kwargs):
+        """Perform the tracing for trace_training on the decorated flow."""
         biflownode = BiFlowNode(BiFlow(flow.flow))
         try:
             biflownode.train(x=x, msg=msg, **kwargs)
@@ -165,8 +175,6 @@ class InspectionHTMLTracer(object):
                 raise
         stop_filenames = self._slide_filenames
         stop_node_ids = self._slide_node_ids
-        # restore undecorated flow
-        self._tracing_decorator.decorate_flow(flow, undecorate_mode=True)
         return train_filenames, train_node_ids, stop_filenames, stop_node_ids
 
     def trace_execution(self, path, trace_name, flow, x, msg=None, target=None,
@@ -186,12 +194,12 @@ class InspectionHTMLTracer(object):
         self._trace_path = path
         self._trace_name = trace_name
         self._flow = flow
-        self._tracing_decorator.decorate_flow(flow)
         if (not (isinstance(flow, BiFlow) or isinstance(flow, BiNode)) and
             (msg is not None)):
             # a msg would be interpreted as nodenr by a Flow, so check this
             err = "A msg was given for a normal Flow (need BiFlow)."
             raise Exception(err)
+        self._tracing_decorator.decorate_flow(flow)
         try:
             if msg or target:
                 result = self._flow.execute(x, msg, target, **kwargs)
@@ -212,7 +220,9 @@ class InspectionHTMLTracer(object):
                 raise TraceDebugException(result=result)
             else:
                 raise
-        self._tracing_decorator.decorate_flow(flow, undecorate_mode=True)
+        finally:
+            # restore undecorated flow
+            self._tracing_decorator.decorate_flow(flow, undecorate_mode=True)
         if not self._section_ids:
             self._section_ids = None
         else:
-- 
2.43.0


From 3734ea5a28b4aeae47ab9bcf4c9ebe524fd7a0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:57 +0000
Subject: [PATCH 159/185] fix: inspection of a flow that contains the same node
 twice

---
 bimdp/inspection/tracer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bimdp/inspection/tracer.py b/bimdp/inspection/tracer.py
index 3865471..f6eba20 100644
--- a/bimdp/inspection/tracer.py
+++ b/bimdp/inspection/tracer.py
@@ -319,6 +319,9 @@ class InspectionHTMLTracer(object):
 
     def _standard_tracer_decorate(self, node):
         """Adds a tracer wrapper to the node via monkey patching."""
+        if hasattr(node, TRACING_WRAP_FLAG):
+            # a node can be contained several times in a flow
+            return
         # add a marker to show that this node is wrapped
         setattr(node, TRACING_WRAP_FLAG, True)
         trace_method_names = list(NODE_TRACE_METHOD_NAMES)
-- 
2.43.0


From d643eaba7f449a7ccda003e7eed21871b9bb0aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:57 +0000
Subject: [PATCH 160/185] fix: inspection in debug mode can write the error
 slide

---
 bimdp/inspection/tracer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bimdp/inspection/tracer.py b/bimdp/inspection/tracer.py
index f6eba20..4f566c0 100644
--- a/bimdp/inspection/tracer.py
+++ b/bimdp/inspection/tracer.py
@@ -292,7 +292,8 @@ class InspectionHTMLTracer(object):
         html_file.close()
 
     def _write_error_frame(self):
-        with self._begin_HTML_frame() as html_file:
+        html_file = self._begin_HTML_frame()
+        try:
             html_file.write('<div class="error">')
             html_file.write('<h3>Encountered Exception</h3>')
             traceback_html = traceback.format_exc().replace('\n', '<br>')
@@ -313,6 +314,7 @@ class InspectionHTMLTracer(object):
 #        traceback_html = buffer.getvalue()
             html_file.write(traceback_html)
             html_file.write('</div>')
+        finally:
             self._end_HTML_frame(html_file)
 
     ## monkey patching tracing decorator wrapper methods ##
-- 
2.43.0


From c987cbd904b5ef28963714bb5fdaffc2f63c4f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:57 +0000
Subject: [PATCH 161/185] fix: HTML representation of a CloneBiLayer that uses
 copies

---
 bimdp/hinet/bihtmlvisitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bimdp/hinet/bihtmlvisitor.py b/bimdp/hinet/bihtmlvisitor.py
index 33f401a..3872b98 100644
--- a/bimdp/hinet/bihtmlvisitor.py
+++ b/bimdp/hinet/bihtmlvisitor.py
@@ -35,7 +35,7 @@ class BiHiNetHTMLVisitor(mdp.hinet.HiNetHTMLVisitor):
         css = super(BiHiNetHTMLVisitor, cls).hinet_css()
         return css + cls._BIHINET_STYLE
 
-    def _translate_clonelayer(self, clonelayer):
+    def _visit_clonelayer(self, clonelayer):
         """This specialized version checks for CloneBiLayer."""
         f = self._file
         self._open_node_env(clonelayer, "layer")
-- 
2.43.0


From 1cbca10d3a7c197297c008d49423ba8caa1158a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:57 +0000
Subject: [PATCH 162/185] fix: inspect more than ten training snapshots in the
 right order

---
 bimdp/inspection/tracer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bimdp/inspection/tracer.py b/bimdp/inspection/tracer.py
index 4f566c0..9d9b3d1 100644
--- a/bimdp/inspection/tracer.py
+++ b/bimdp/inspection/tracer.py
@@ -851,7 +851,8 @@ def _trace_biflow_training(snapshot_path, inspection_path,
         for file_path, dirs, files in os.walk(os.path.abspath(snapshot_path)):
             dirs.sort()
             files = fnmatch.filter(files, SNAPSHOT_FILENAME + "*" + PICKLE_EXT)
-            files.sort()
+            # the snapshot numbers have no leading zeros
+            files.sort(key=lambda name: (len(name), name))
             for filename in files:
                 filename = os.path.join(file_path, filename)
                 # load the flow snapshot
-- 
2.43.0


From ab17da3dd3003c8f79654a03597a575599dfd69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:57 +0000
Subject: [PATCH 163/185] fix: show_training does not replace the items of the
 given data lists

---
 bimdp/inspection/facade.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bimdp/inspection/facade.py b/bimdp/inspection/facade.py
index afefa90..29b5d27 100644
--- a/bimdp/inspection/facade.py
+++ b/bimdp/inspection/facade.py
@@ -162,6 +162,8 @@ def show_training(flow, data_iterables, msg_iterables=None, stop_messages=None,
     # if data_iterables is an array, wrap it up in a list
     if isinstance(data_iterables, numx.ndarray):
         data_iterables = [[data_iterables]] * len(flow)
+    # do not change the lists of the caller
+    data_iterables = list(data_iterables)
     x_samples = []
     for i, data_iterable in enumerate(data_iterables):
         if data_iterable is None:
@@ -172,6 +174,7 @@ def show_training(flow, data_iterables, msg_iterables=None, stop_messages=None,
         data_iterables[i] = new_data_iterable
     del x_sample
     if msg_iterables:
+        msg_iterables = list(msg_iterables)
         msg_samples = []
         for i, msg_iterable in enumerate(msg_iterables):
             if msg_iterable is None:
-- 
2.43.0


From bcfa76da820b98fcacf20bd025fc9ccfe9858f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:57 +0000
Subject: [PATCH 164/185] fix: show_training removes its hooks from the flow
 when the training fails

---
 bimdp/inspection/facade.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bimdp/inspection/facade.py b/bimdp/inspection/facade.py
index 29b5d27..5a91134 100644
--- a/bimdp/inspection/facade.py
+++ b/bimdp/inspection/facade.py
@@ -215,7 +215,8 @@ def show_training(flow, data_iterables, msg_iterables=None, stop_messages=None,
             robust_pickle(flow._snapshot_path_, filename, flow)
         else:
             raise
-    remove_inspection_residues(flow)
+    finally:
+        remove_inspection_residues(flow)
     # reload data samples
     with open(os.path.join(path, "training_data_samples.pckl"), "rb") as sample_file:
         x_samples, msg_samples, stop_messages = pickle.load(sample_file)
-- 
2.43.0


From 39ed1f846ca17aca7bb96c20afcd9f854e3a0015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:57 +0000
Subject: [PATCH 165/185] fix: show_execution completes the slideshow file
 before it opens the browser

---
 bimdp/inspection/facade.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bimdp/inspection/facade.py b/bimdp/inspection/facade.py
index 5a91134..14495fb 100644
--- a/bimdp/inspection/facade.py
+++ b/bimdp/inspection/facade.py
@@ -368,7 +368,6 @@ def show_execution(flow, x, msg=None, target=None, path=None, name=None,
                         **kwargs)
     # inspect execution created the path if required, so no need to check here
     with open(filename, 'w') as html_file:
-        html_file = open(filename, 'w')
         html_file.write('<html>\n<head>\n<title>%s</title>\n' % title)
         html_file.write('<style type="text/css" media="screen">')
         html_file.write(standard_css())
-- 
2.43.0


From e2ef0f63bfdc52508c9c1475f6c70cd2bad4a65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:57 +0000
Subject: [PATCH 166/185] fix: show_image_slideshow with a temporary file

---
 mdp/utils/slideshow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdp/utils/slideshow.py b/mdp/utils/slideshow.py
index f47aebd..2310b36 100644
--- a/mdp/utils/slideshow.py
+++ b/mdp/utils/slideshow.py
@@ -742,7 +742,8 @@ def show_image_slideshow(filenames, image_size, filename=None, title=None,
     For additional keyword arguments see the ImageHTMLSlideShow class.
     """
     if filename is None:
-        html_file = tempfile.NamedTemporaryFile(suffix=".html", prefix="MDP_")
+        html_file = tempfile.NamedTemporaryFile(mode='w', suffix=".html",
+                                                prefix="MDP_")
     else:
         html_file = open(filename, 'w')
     html_file.write('<html>\n<head>\n<title>%s</title>\n' % title)
@@ -757,6 +758,7 @@ def show_image_slideshow(filenames, image_size, filename=None, title=None,
     html_file.write('</body>\n</html>')
     html_file.flush()
 
+    filename = html_file.name
     if open_browser:
         if isinstance(open_browser, str):
             try:
-- 
2.43.0


From 1c1a0bd9d26a5d4b497f08ff697b81b8150f9c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:57 +0000
Subject: [PATCH 167/185] fix: unicode templates

---
 mdp/utils/templet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/utils/templet.py b/mdp/utils/templet.py
index d11ad10..39cf09e 100644
--- a/mdp/utils/templet.py
+++ b/mdp/utils/templet.py
@@ -254,7 +254,7 @@ class UnicodeTemplate(with_metaclass(_TemplateMetaClass, object)):
         return u''.join(self.out)
 
     def __str__(self):
-        return str(self).encode('utf-8')
+        return self.__unicode__()
 
 
 def _templatefunction(func, listname, stringtype):
@@ -283,7 +283,7 @@ def stringfunction(func):
 
 def unicodefunction(func):
     """Function attribute for unicode template functions"""
-    return _templatefunction(func, listname='out', stringtype='unicode')
+    return _templatefunction(func, listname='out', stringtype='str')
 
 
 # When executed as a script, run some testing code.
-- 
2.43.0


From ca5d67101ee6484d5009bac16ac4eb682999df53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:57 +0000
Subject: [PATCH 168/185] fix: dig_node for nodes with numpy scalars or without
 arrays

---
 mdp/utils/introspection.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mdp/utils/introspection.py b/mdp/utils/introspection.py
index a86d51f..71a4a88 100644
--- a/mdp/utils/introspection.py
+++ b/mdp/utils/introspection.py
@@ -25,7 +25,11 @@ class _Walk(object):
         # loop through the object dictionary
         for name in dir(x):
             # get the corresponding member
-            obj = getattr(x, name)
+            try:
+                obj = getattr(x, name)
+            except Exception:
+                # not every member is readable
+                continue
             if id(obj) in list(self.allobjs.keys()):
                 # if we already examined the member, skip to the next
                 continue
@@ -62,8 +66,8 @@ class _Walk(object):
         return arrays
 
 def _format_dig(dict_):
-    longest_name = max(list(map(len, list(dict_.keys()))))
-    longest_size = max([len('%d'%x[0]) for x in list(dict_.values())])
+    longest_name = max([len(name) for name in dict_] + [0])
+    longest_size = max([len('%d'%x[0]) for x in list(dict_.values())] + [0])
     msgs = []
     total_size = 0
     for name in sorted(dict_.keys()):
-- 
2.43.0


From 9e8fc7ac14e89ef547484487c10f5777220a8650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:57 +0000
Subject: [PATCH 169/185] fix: TemporaryDirectory does not delete the contents
 of linked directories

---
 mdp/utils/temporarydir.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdp/utils/temporarydir.py b/mdp/utils/temporarydir.py
index ac2a082..3883565 100644
--- a/mdp/utils/temporarydir.py
+++ b/mdp/utils/temporarydir.py
@@ -62,6 +62,7 @@ class TemporaryDirectory(object):
     _listdir = staticmethod(_os.listdir)
     _path_join = staticmethod(_os.path.join)
     _isdir = staticmethod(_os.path.isdir)
+    _islink = staticmethod(_os.path.islink)
     _remove = staticmethod(_os.remove)
     _rmdir = staticmethod(_os.rmdir)
     _os_error = _os.error
@@ -72,7 +73,8 @@ class TemporaryDirectory(object):
         for name in self._listdir(path):
             fullname = self._path_join(path, name)
             try:
-                isdir = self._isdir(fullname)
+                # do not follow symbolic links
+                isdir = self._isdir(fullname) and not self._islink(fullname)
             except self._os_error:
                 isdir = False
             if isdir:
-- 
2.43.0


From f440e64a36e508f004837d1c82c04d8f1c4fa7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:27 +0000
Subject: [PATCH 170/185] fix: training inspection of a flow with supervised
 training data

---
 bimdp/inspection/tracer.py | 49 +++++++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/bimdp/inspection/tracer.py b/bimdp/inspection/tracer.py
index 9d9b3d1..e173eb1 100644
--- a/bimdp/inspection/tracer.py
+++ b/bimdp/inspection/tracer.py
@@ -140,11 +140,19 @@ class InspectionHTMLTracer(object):
     def _trace_decorated_training(self, flow, x, msg, stop_msg, trace_name,
                                   debug, **kwargs):
         """Perform the tracing for trace_training on the decorated flow."""
-        biflownode = BiFlowNode(BiFlow(flow.flow))
+        if isinstance(x, (tuple, list)):
+            # supervised training data for a normal mdp.Flow
+            train, stop_training = self._get_supervised_training(flow, x)
+        else:
+            biflownode = BiFlowNode(BiFlow(flow.flow))
+            def train():
+                biflownode.train(x=x, msg=msg, **kwargs)
+                # reset is important for the following stop_training
+                biflownode.bi_reset()
+            def stop_training():
+                biflownode.stop_training(stop_msg)
         try:
-            biflownode.train(x=x, msg=msg, **kwargs)
-            # reset is important for the following stop_training
-            biflownode.bi_reset()
+            train()
         # Note: this also catches legacy string exceptions (which are still
         #    used in numpy, e.g. np.core.multiarray.error)
         except:
@@ -162,7 +170,7 @@ class InspectionHTMLTracer(object):
         self._reset()
         self._trace_name = trace_name + "_s"
         try:
-            biflownode.stop_training(stop_msg)
+            stop_training()
         except:
             if debug:
                 # insert the error slide and encapsulate the exception
@@ -177,6 +185,25 @@ class InspectionHTMLTracer(object):
         stop_node_ids = self._slide_node_ids
         return train_filenames, train_node_ids, stop_filenames, stop_node_ids
 
+    @staticmethod
+    def _get_supervised_training(flow, chunk):
+        """Return functions for the training and the stop_training of the
+        first untrained node in a normal Flow.
+
+        chunk -- Data chunk in which the array is followed by the additional
+            arguments for the trained node (like in the data for Flow.train).
+        """
+        nodes = list(flow)
+        i_train_node = [node.get_remaining_train_phase() > 0
+                        for node in nodes].index(True)
+        train_node = nodes[i_train_node]
+        def train():
+            x = chunk[0]
+            for node in nodes[:i_train_node]:
+                x = node.execute(x)
+            train_node.train(x, *chunk[1:])
+        return train, train_node.stop_training
+
     def trace_execution(self, path, trace_name, flow, x, msg=None, target=None,
                         debug=False, **kwargs):
         """Trace a single execution.
@@ -692,7 +719,17 @@ class TraceHTMLConverter(object):
                         '</td></tr>')
         # remaining arg is message
         method_args = method_args[1:]
-        if method_args and method_args[0] is not None:
+        if (method_args and method_args[0] is not None and
+            not isinstance(method_args[0], dict)):
+            # additional training arguments of a supervised node
+            for arg in method_args:
+                if isinstance(arg, n.ndarray):
+                    arg_str = self._array_pretty_html(arg)
+                else:
+                    arg_str = str(arg)
+                f.write('<tr><td><pre>arg = </pre></td><td>' + arg_str +
+                        '</td></tr>')
+        elif method_args and method_args[0] is not None:
             f.write('<tr><td><pre>msg = </pre></td><td>' +
                     self._dict_pretty_html(method_args[0]) + '</td></tr>')
         # normally the kwargs should be empty
-- 
2.43.0


From 4bb75c3d5872350f9fe7056301598e5c586f680d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:14 +0000
Subject: [PATCH 171/185] fix: HTML representation of DoubleRect2dSwitchboard

---
 mdp/hinet/htmlvisitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/hinet/htmlvisitor.py b/mdp/hinet/htmlvisitor.py
index 652a63f..1735b6d 100644
--- a/mdp/hinet/htmlvisitor.py
+++ b/mdp/hinet/htmlvisitor.py
@@ -243,7 +243,7 @@ def _double_rect2d_switchoard_html(self):
              'total number of receptive fields: %d' %
                 self.output_channels,
              'channel width: %d' % self.in_channel_dim]
-    if self.x_unused_channels or self.y_unused_channels:
+    if any(self.unused_channels_xy):
         lines.append('unused channels: ' + str(self.unused_channels_xy))
     return lines
 
-- 
2.43.0


From fb2f44a286bf49108c0ac45796300872571f4b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:14 +0000
Subject: [PATCH 172/185] fix: HTML representation shows the unused channels of
 Rectangular2dSwitchboard

---
 mdp/hinet/htmlvisitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/hinet/htmlvisitor.py b/mdp/hinet/htmlvisitor.py
index 1735b6d..aaef2e6 100644
--- a/mdp/hinet/htmlvisitor.py
+++ b/mdp/hinet/htmlvisitor.py
@@ -228,7 +228,7 @@ def _rect2d_switchoard_html(self):
              'rec. field distances (in channels): ' +
                 str(self.field_spacing_xy),
              'channel width: %d' % self.in_channel_dim]
-    if not all(self.unused_channels_xy):
+    if any(self.unused_channels_xy):
         lines.append('unused channels: ' + str(self.unused_channels_xy))
     return lines
 
-- 
2.43.0


From d63eaa318236f28ccee9554d633f5a7b9fcabfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:53 +0000
Subject: [PATCH 173/185] fix: progressinfo for an empty sequence

---
 mdp/utils/progress_bar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/utils/progress_bar.py b/mdp/utils/progress_bar.py
index b113074..b4735c9 100644
--- a/mdp/utils/progress_bar.py
+++ b/mdp/utils/progress_bar.py
@@ -239,6 +239,7 @@ def progressinfo(sequence, length = None, style = 'bar', custom = None):
 
     # start main loop
     last = None
+    count = -1
     for count, value in enumerate(sequence):
         # generate progress info
         if iterate_on_items:
@@ -250,7 +251,7 @@ def progressinfo(sequence, length = None, style = 'bar', custom = None):
         # we need this for the 100% notice
         if iterate_on_items:
             last = _progress(1., last, style, layout)
-        else:
+        elif count >= 0:
             last = _progress(old_div((count+1),length), last, style, layout)
     # clean up terminal
     sys.stdout.write('\n\r')
-- 
2.43.0


From 5cdbde954ba8b2d71aa46addce5cf4781b8abd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:53 +0000
Subject: [PATCH 174/185] fix: progressinfo with the speed of the last step
 when iterating on items

---
 mdp/utils/progress_bar.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mdp/utils/progress_bar.py b/mdp/utils/progress_bar.py
index b4735c9..12167d0 100644
--- a/mdp/utils/progress_bar.py
+++ b/mdp/utils/progress_bar.py
@@ -71,12 +71,13 @@ def _progress(percent, last, style, layout):
             # Elapsed
             elapsed = now - layout['t_start']
             # Estimated total time
-            if layout['speed'] == 'mean':
+            progress = percent - layout.get('last_percent', 0)
+            if layout['speed'] == 'mean' or progress == 0:
                 e_t_a = old_div(elapsed,percent) - elapsed
             else:
                 # instantaneous speed
-                progress = percent-_progress.last_percent
-                e_t_a = (1 - percent)/progress*(now-_progress.last_time)
+                last_time = layout.get('last_time', layout['t_start'])
+                e_t_a = (1 - percent)/progress*(now-last_time)
             # build the time box
             tbox = ''.join([fmt_time(elapsed, layout['delimiters']),
                             layout['separator'],
@@ -95,8 +96,8 @@ def _progress(percent, last, style, layout):
                            ' ',
                            percent_s])
 
-        _progress.last_percent = percent
-        _progress.last_time = now
+        layout['last_percent'] = percent
+        layout['last_time'] = now
 
     # print it only if something changed from last time
     if box != last:
-- 
2.43.0


From 2b44db586aff0da99859e3c153b4bded21ff6353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:54 +0000
Subject: [PATCH 175/185] fix: show_flow for a CloneBiLayer that uses copies

---
 mdp/hinet/htmlvisitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/hinet/htmlvisitor.py b/mdp/hinet/htmlvisitor.py
index aaef2e6..26ff3d2 100644
--- a/mdp/hinet/htmlvisitor.py
+++ b/mdp/hinet/htmlvisitor.py
@@ -127,7 +127,7 @@ class HiNetHTMLVisitor(object):
         f.write('%d repetitions' % len(layer))
         f.write('</td>')
         f.write('<td>')
-        self._visit_node(layer.node)
+        self._visit_node(layer.nodes[0])
         f.write('</td></tr>')
         self._close_node_env(layer)
 
-- 
2.43.0


From bc0e25672fa60931299593832f4a93a177dfbccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:42 +0000
Subject: [PATCH 176/185] fix: the execution inspection passes an empty message
 on

---
 bimdp/inspection/tracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bimdp/inspection/tracer.py b/bimdp/inspection/tracer.py
index e173eb1..e161382 100644
--- a/bimdp/inspection/tracer.py
+++ b/bimdp/inspection/tracer.py
@@ -228,7 +228,7 @@ class InspectionHTMLTracer(object):
             raise Exception(err)
         self._tracing_decorator.decorate_flow(flow)
         try:
-            if msg or target:
+            if (msg is not None) or target:
                 result = self._flow.execute(x, msg, target, **kwargs)
             # this case also works for mdp.Flow
             else:
-- 
2.43.0


From 6106b897a8b4a164ef025d433975e61247bc53f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:47 +0000
Subject: [PATCH 177/185] fix: the learning of RBMNode does not depend on
 verbose

---
 mdp/nodes/rbm_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/nodes/rbm_nodes.py b/mdp/nodes/rbm_nodes.py
index 62da662..45b6d5d 100644
--- a/mdp/nodes/rbm_nodes.py
+++ b/mdp/nodes/rbm_nodes.py
@@ -180,7 +180,8 @@ class RBMNode(mdp.Node):
 
         if verbose:
             print('training error', old_div(self._train_err,v.shape[0]))
-            ph, h = self._sample_h(v)
+            # no sampling here, a report must not consume random numbers
+            ph = old_div(1.,(1. + exp(-self.bh - mult(v, self.w))))
             print('energy', self._energy(v, ph).sum())
 
     def _stop_training(self):
-- 
2.43.0


From 3bcc11afee4948416d249bcd04b8252ce5bf70ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:04 +0000
Subject: [PATCH 178/185] fix: FastICANode transforms a given mixing matrix to
 the space of the white data

---
 mdp/nodes/ica_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/nodes/ica_nodes.py b/mdp/nodes/ica_nodes.py
index 24abcf8..30ce18d 100644
--- a/mdp/nodes/ica_nodes.py
+++ b/mdp/nodes/ica_nodes.py
@@ -553,7 +553,8 @@ class FastICANode(ICANode):
             # (copy it, the vectors are changed in place)
             guess = self._refcast(self.guess).copy()
             if not self.whitened:
-                guess = mult(guess, self.white.get_recmatrix(transposed=1))
+                # the filters act on the white data
+                guess = mult(self.white.get_projmatrix(transposed=0), guess)
 
         limit = self.limit
         coarse_limit = self.coarse_limit
-- 
2.43.0


From 4a8416ad9718038d40bb98bb33952e9d63024d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:56 +0000
Subject: [PATCH 179/185] fix: the inverse with the first n components uses the
 first n columns

---
 mdp/nodes/mca_nodes_online.py | 2 +-
 mdp/nodes/pca_nodes.py        | 2 +-
 mdp/nodes/pca_nodes_online.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/mca_nodes_online.py b/mdp/nodes/mca_nodes_online.py
index adf3e57..0987103 100755
--- a/mdp/nodes/mca_nodes_online.py
+++ b/mdp/nodes/mca_nodes_online.py
@@ -208,7 +208,7 @@ class MCANode(mdp.OnlineNode):
 
         v = self.get_recmatrix()
         if n is not None:
-            return mult(y, v[:n, :])
+            return mult(y[:, :n], v[:n, :])
         return mult(y, v)
 
     def __repr__(self):
diff --git a/mdp/nodes/pca_nodes.py b/mdp/nodes/pca_nodes.py
index 6446cd3..6cb727e 100644
--- a/mdp/nodes/pca_nodes.py
+++ b/mdp/nodes/pca_nodes.py
@@ -370,7 +370,7 @@ class PCANode(mdp.Node):
 
         v = self.get_recmatrix()
         if n is not None:
-            return mult(y, v[:n, :]) + self.avg
+            return mult(y[:, :n], v[:n, :]) + self.avg
         return mult(y, v) + self.avg
 
 
diff --git a/mdp/nodes/pca_nodes_online.py b/mdp/nodes/pca_nodes_online.py
index f498ed5..4ab3f5f 100755
--- a/mdp/nodes/pca_nodes_online.py
+++ b/mdp/nodes/pca_nodes_online.py
@@ -263,7 +263,7 @@ class CCIPCANode(mdp.OnlineNode):
 
         v = self.get_recmatrix()
         if n is not None:
-            return mult(y, v[:n, :])
+            return mult(y[:, :n], v[:n, :])
         return mult(y, v)
 
     def __repr__(self):
-- 
2.43.0


From 07299122d32762cff7ebbd348fde9bab7565fc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:28 +0000
Subject: [PATCH 180/185] fix: RBM nodes refuse to be inverted

---
 mdp/nodes/rbm_nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/rbm_nodes.py b/mdp/nodes/rbm_nodes.py
index 45b6d5d..a157727 100644
--- a/mdp/nodes/rbm_nodes.py
+++ b/mdp/nodes/rbm_nodes.py
@@ -195,7 +195,7 @@ class RBMNode(mdp.Node):
     def is_invertible():
         return False
 
-    def _pre_inversion_checks(self, y):
+    def _pre_sampling_checks(self, y):
         self._if_training_stop_training()
         # control the dimension of y
         self._check_output(y)
@@ -227,7 +227,7 @@ class RBMNode(mdp.Node):
             conditional probability.
         :rtype: tuple
         """
-        self._pre_inversion_checks(h)
+        self._pre_sampling_checks(h)
         return self._sample_v(h)
 
     def _energy(self, v, h):
@@ -416,7 +416,7 @@ class RBMWithLabelsNode(RBMNode):
           active at any time.
         :rtype: tuple
         """
-        self._pre_inversion_checks(h)
+        self._pre_sampling_checks(h)
 
         probs_v, probs_l, v, l = self._sample_v(h, sample_l=True,
                                                 concatenate=False)
-- 
2.43.0


From 20b1a80a22984b9f7521e7692006bda6f5e19c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:19 +0000
Subject: [PATCH 181/185] fix: QR scaling of iGSFANode with the scipy backend

---
 mdp/nodes/gsfa_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdp/nodes/gsfa_nodes.py b/mdp/nodes/gsfa_nodes.py
index 57cebf9..6ac8f2f 100644
--- a/mdp/nodes/gsfa_nodes.py
+++ b/mdp/nodes/gsfa_nodes.py
@@ -1568,6 +1568,9 @@ class iGSFANode(mdp.Node):
             # A bias term is included by default, we do not need it
             M = self.lr_node.beta[1:, :].T
             Q, R = numx.linalg.qr(M)
+            # scipy returns the complete decomposition by default
+            rank = min(M.shape)
+            Q, R = Q[:, :rank], R[:rank]
             self.Q = Q
             self.R = R
             self.Rpinv = pinv(R)
-- 
2.43.0


From 57a3a59acc42794ce6cd604b7d923f5c884f28fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:19 +0000
Subject: [PATCH 182/185] fix: stationary point of quadratic forms with the
 scipy backend

---
 mdp/utils/quad_forms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdp/utils/quad_forms.py b/mdp/utils/quad_forms.py
index 468deec..14806b9 100644
--- a/mdp/utils/quad_forms.py
+++ b/mdp/utils/quad_forms.py
@@ -77,7 +77,9 @@ class QuadraticForm(object):
                 H_definite_negative = True
 
             # stationary point, does not always exist if H is singular
-            x0 = numx_linalg.lstsq(-H, f, rcond=None)[0]
+            # (the name of the third argument depends on the backend)
+            cutoff = H.shape[0] * numx.finfo(H.dtype).eps
+            x0 = numx_linalg.lstsq(-H, f, cutoff)[0]
             inside = (numx.allclose(mdp.utils.mult(-H, x0), f)
                       and mdp.utils.norm2(x0) <= norm)
             if H_definite_positive and inside:
-- 
2.43.0


From a534df2e8422df1419989f15e06a6876552e0689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:51 +0000
Subject: [PATCH 183/185] fix: matmult with an added matrix (scipy backend)

---
 mdp/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/utils/__init__.py b/mdp/utils/__init__.py
index 50ecf38..28d9825 100644
--- a/mdp/utils/__init__.py
+++ b/mdp/utils/__init__.py
@@ -57,7 +57,7 @@ if _mdp.numx_description == 'scipy':
         trans_b : 0 (b not transposed), 1 (b transposed),
                   2 (b conjugate transposed)
         """
-        if c:
+        if c is not None:
             gemm, = _mdp.numx_linalg.get_blas_funcs(('gemm',), (a, b, c))
         else:
             gemm, = _mdp.numx_linalg.get_blas_funcs(('gemm',), (a, b))
-- 
2.43.0


From 9547d9049244ec2eb6dfa76f019a5964cdaf33de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:26 +0000
Subject: [PATCH 184/185] fix: posterior probabilities of GaussianClassifier
 for points far from all classes

---
 mdp/nodes/classifier_nodes.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/mdp/nodes/classifier_nodes.py b/mdp/nodes/classifier_nodes.py
index b8ad007..809cc29 100644
--- a/mdp/nodes/classifier_nodes.py
+++ b/mdp/nodes/classifier_nodes.py
@@ -558,6 +558,12 @@ class GaussianClassifier(ClassifierNode):
             gaussian
         :rtype: float
         """
+        return numx.exp(self._log_gaussian_prob(x, lbl_idx))
+
+    def _log_gaussian_prob(self, x, lbl_idx):
+        """Return the logarithm of the probability of the data points x with
+        respect to a gaussian.
+        """
         x = self._refcast(x)
 
         dim = self.input_dim
@@ -568,9 +574,9 @@ class GaussianClassifier(ClassifierNode):
         # exponent
         exponent = -0.5 * (utils.mult(x_mn, invS)*x_mn).sum(axis=1)
         # constant
-        constant = old_div((2.*numx.pi)**(old_div(-dim,2.)), sqrt_detS)
-        # probability
-        return constant * numx.exp(exponent)
+        constant = -0.5*dim*numx.log(2.*numx.pi) - numx.log(sqrt_detS)
+        # logarithm of the probability
+        return constant + exponent
 
     def class_probabilities(self, x):
         """Return the posterior probability of each class given the input.
@@ -582,12 +588,17 @@ class GaussianClassifier(ClassifierNode):
         """
         self._pre_execution_checks(x)
 
-        # compute the probability for each class
+        # compute the logarithm of the probability for each class (the
+        # probabilities of points far from all classes are too small to be
+        # represented)
         tmp_prob = numx.zeros((x.shape[0], len(self.labels)),
                               dtype=self.dtype)
         for i in range(len(self.labels)):
-            tmp_prob[:, i] = self._gaussian_prob(x, i)
-            tmp_prob[:, i] *= self.p[i]
+            tmp_prob[:, i] = self._log_gaussian_prob(x, i)
+            tmp_prob[:, i] += numx.log(self.p[i])
+        # probabilities up to a common factor
+        tmp_prob -= tmp_prob.max(axis=1)[:, numx.newaxis]
+        tmp_prob = numx.exp(tmp_prob)
 
         # normalize to probability 1
         # (not necessary, but sometimes useful)
-- 
2.43.0


From 94e28cff31ad2488a2430aaf346afee133955f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:20 +0000
Subject: [PATCH 185/185] fix: dimensions of one parallel flow leaking into
 others through the shared dummy node

---
 mdp/parallel/parallelflows.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index a723fe7..5c18350 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -34,8 +34,6 @@ class _DummyNode(mdp.Node):
         raise mdp.NodeException(err)
 
 
-_DUMMY_NODE = _DummyNode()
-
 def _purge_flownode(flownode):
     """Replace nodes that are """
     found_train_node = False  # same as in join
@@ -44,7 +42,8 @@ def _purge_flownode(flownode):
             # keep it, even if it was only trained with messages so far
             found_train_node = True
         elif not (node._train_phase_started or node.use_execute_fork()):
-            flownode._flow.flow[i_node] = _DUMMY_NODE
+            # don't share it, since it gets the dimensions of the flow
+            flownode._flow.flow[i_node] = _DummyNode()
 
 
 ### Train task classes ###
-- 
2.43.0

