From c4a4dbcbda275aad65d32d5f4d42a24a5d5770d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 01/65] fix: finite bounds were lost in normalized coordinates
 when another bound is infinite

---
 psdr/domains/euclidean.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 4f38fed..01b7e9a 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -954,15 +954,17 @@ class EuclideanDomain(Domain):
 	
 	@property
 	def lb_norm(self):
-		lb_norm = self.normalize(self.lb)
+		# Infinite bounds are masked out before normalization as 0*inf = nan 
+		# would otherwise contaminate the finite bounds
 		I = ~np.isfinite(self.lb)
+		lb_norm = self.normalize(np.where(I, 0., self.lb))
 		lb_norm[I] = -np.inf
 		return lb_norm
 
 	@property
 	def ub_norm(self):
-		ub_norm = self.normalize(self.ub)
 		I = ~np.isfinite(self.ub)
+		ub_norm = self.normalize(np.where(I, 0., self.ub))
 		ub_norm[I] = np.inf
 		return ub_norm
 
-- 
2.43.0


From 470b13b5feb28ab16c3fdaad6d81d1d6d0b043b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 02/65] fix: centers of quadratic constraints were not scaled
 in normalized coordinates

---
 psdr/domains/euclidean.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 01b7e9a..69817b6 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -996,7 +996,8 @@ class EuclideanDomain(Domain):
 	@property
 	def ys_norm(self):
 		c = self._center()
-		return [y - c for y in self.ys]	
+		D = self._normalize_der()
+		return [D.dot(y - c) for y in self.ys]	
 
 	@property
 	def rhos_norm(self):
-- 
2.43.0


From 25d3203aedacb70a33980990454f98cc1d4d4e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 03/65] fix: constrained least squares solved for the wrong
 right hand side off-center

---
 psdr/domains/euclidean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 69817b6..8ee79ed 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -356,7 +356,7 @@ class EuclideanDomain(Domain):
 		c = self._center()	
 			
 		# \| A x - b\|_2 
-		obj = cp.norm( (A @ D) @ x_norm - b - (A @ c) )
+		obj = cp.norm( (A @ D) @ x_norm - b + (A @ c) )
 		constraints = self._build_constraints_norm(x_norm)
 		problem = cp.Problem(cp.Minimize(obj), constraints)
 		problem.solve(**kwargs)
-- 
2.43.0


From 3e6e7f0a7228468d023aac13c2c3338bc744a611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 04/65] fix: extent ignored bounds violated within tolerance

---
 psdr/domains/euclidean.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 8ee79ed..2ab3699 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -1159,27 +1159,21 @@ class EuclideanDomain(Domain):
 		"""Check the extent from the box constraints"""
 		alpha = np.inf
 		
-		# If on the boundary, the direction needs to point inside the domain
-		# otherwise we cannot move
-		if np.any(p[self.lb == x] < 0):
-			return 0.
-		if np.any(p[self.ub == x] > 0):
-			return 0.	
-		
 		# To prevent divide-by-zero we ignore directions we are not moving in
-		I = np.nonzero(p)
+		# and only consider the bound we are moving towards
 
 		# Check upper bounds
-		y = (self.ub - x)[I]/p[I]
-		if np.any(y>0):
-			alpha = min(alpha, np.min(y[y>0]))	
+		I = p > 0
+		if np.any(I):
+			alpha = min(alpha, np.min((self.ub - x)[I]/p[I]))
 
 		# Check lower bounds
-		y = (self.lb - x)[I]/p[I]
-		if np.any(y>0):
-			alpha = min(alpha, np.min(y[y>0]))
+		I = p < 0
+		if np.any(I):
+			alpha = min(alpha, np.min((self.lb - x)[I]/p[I]))
 		
-		return alpha
+		# If on the boundary (to within tolerance) and pointing outside we cannot move
+		return max(alpha, 0.)
 
 	def _extent_ineq(self, x, p):
 		""" check the extent from the inequality constraints """
-- 
2.43.0


From b3472e97eb0d7ee0022644cc5e332292c533b465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 05/65] fix: extent ignored active linear inequality
 constraints

---
 psdr/domains/euclidean.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 2ab3699..b2c9a0e 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -1178,11 +1178,13 @@ class EuclideanDomain(Domain):
 	def _extent_ineq(self, x, p):
 		""" check the extent from the inequality constraints """
 		alpha = np.inf
-		# positive extent
-		with np.errstate(divide = 'ignore'):
-			y = (self.b - np.dot(self.A, x)	)/np.dot(self.A, p)
-		if np.sum(y>0) > 0:
-			alpha = min(alpha, np.min(y[y>0]))
+		# Only those constraints we are moving towards limit the extent;
+		# if on the boundary (to within tolerance), we cannot move more than rounding error
+		Ap = np.dot(self.A, p)
+		slack = np.maximum(self.b - np.dot(self.A, x), 1e-15)
+		I = Ap > 0
+		if np.any(I):
+			alpha = min(alpha, np.min(slack[I]/Ap[I]))
 
 		return alpha
 	
-- 
2.43.0


From 2feea81068018bec52ddfc03617b930709759d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 06/65] fix: extent picked the wrong root of active quadratic
 constraints

---
 psdr/domains/euclidean.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index b2c9a0e..89fff54 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -1199,9 +1199,9 @@ class EuclideanDomain(Domain):
 			b = 2*Lp.T.dot(Lxy)
 			c = Lxy.T.dot(Lxy) - rho**2
 			
-			roots = np.roots([a,b,c])
-			real_roots = roots[np.isreal(roots)]
-			pos_roots = real_roots[real_roots>=0]
-			if len(pos_roots) > 0:
-				alpha = min(alpha, min(pos_roots))
+			# As x is inside, this constraint is satisfied up to the largest root;
+			# if a is zero we can move as far as we like
+			if a > 0:
+				root = (-b + np.sqrt(max(b**2 - 4*a*c, 0.)))/(2*a)
+				alpha = min(alpha, max(root, 0.))
 		return alpha
-- 
2.43.0


From af2c0965a0565404ae1cdd991401eea2df118442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 07/65] fix: extent ignored the equality constraints of
 LinIneqDomain

---
 psdr/domains/linineq.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/psdr/domains/linineq.py b/psdr/domains/linineq.py
index e5e0072..06a50fd 100644
--- a/psdr/domains/linineq.py
+++ b/psdr/domains/linineq.py
@@ -50,7 +50,11 @@ class LinIneqDomain(LinQuadDomain):
 		return self._isinside_bounds(X, tol = tol) & self._isinside_ineq(X, tol = tol) & self._isinside_eq(X, tol = tol)
 
 	def _extent(self, x, p):
-		return min(self._extent_bounds(x, p), self._extent_ineq(x, p))
+		# Check that direction satisfies equality constraints to a tolerance
+		if self.A_eq.shape[0] == 0 or np.all(np.abs(self.A_eq.dot(p) ) < self.tol):
+			return min(self._extent_bounds(x, p), self._extent_ineq(x, p))
+		else:
+			return 0.
 	
 	def _normalized_domain(self, **kwargs):
 		names_norm = [name + ' (normalized)' for name in self.names]
-- 
2.43.0


From e0df813008807e8857e5918da37d45ac0229d623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 08/65] fix: TensorProductDomain dropped the quadratic
 constraints of its factors

---
 psdr/domains/tensor.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/psdr/domains/tensor.py b/psdr/domains/tensor.py
index c22f574..c3533cb 100644
--- a/psdr/domains/tensor.py
+++ b/psdr/domains/tensor.py
@@ -160,6 +160,30 @@ class TensorProductDomain(EuclideanDomain):
 	def b_eq(self):
 		return np.concatenate([dom.b_eq for dom in self.domains])
 
+	@property
+	def Ls(self):
+		Ls = []
+		for dom, I in zip(self.domains, self._slices):
+			for L in dom.Ls:
+				L_tmp = np.zeros((len(L), len(self)))
+				L_tmp[:,I] = L
+				Ls.append(L_tmp)
+		return Ls
+
+	@property
+	def ys(self):
+		ys = []
+		for dom, I in zip(self.domains, self._slices):
+			for y in dom.ys:
+				y_tmp = np.zeros(len(self))
+				y_tmp[I] = y
+				ys.append(y_tmp)
+		return ys
+
+	@property
+	def rhos(self):
+		return list(itertools.chain(*[dom.rhos for dom in self.domains]))
+
 	def add_constraints(self, *args, **kwargs):
 		if self.is_linquad_domain:
 			from .linquad import LinQuadDomain
-- 
2.43.0


From 58c2a1e36ca16e6949a5052cb6e6dd7bed0c8c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 09/65] fix: center of a TensorProductDomain must match the
 normalization of its factors

---
 psdr/domains/tensor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/domains/tensor.py b/psdr/domains/tensor.py
index c3533cb..969a1a2 100644
--- a/psdr/domains/tensor.py
+++ b/psdr/domains/tensor.py
@@ -94,6 +94,9 @@ class TensorProductDomain(EuclideanDomain):
 	def _unnormalize(self, X_norm):
 		return np.hstack([dom.unnormalize(X_norm[:,I]) for dom, I in zip(self.domains, self._slices)])
 
+	def _center(self):
+		return np.hstack([dom._center() for dom in self.domains])
+
 	def _unnormalize_der(self):
 		return np.diag(np.hstack([np.diag(dom._unnormalize_der()) for dom in self.domains]))
 
-- 
2.43.0


From 6c9d96baea236ea309c00c41128b51fb81c94903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 10/65] fix: extent of ConvexHullDomain applied additional
 constraints to the starting point

---
 psdr/domains/convexhull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index babea3a..b15b7ac 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -79,7 +79,7 @@ class _Extent:
 			self.domain._X_norm.T @ self.alpha == self.p_norm * self.beta + self.x_norm,
 			cp.sum(self.alpha) == 1
 		] 
-		self.constraints += LinQuadDomain._build_constraints_norm(domain, self.x_norm) 
+		self.constraints += LinQuadDomain._build_constraints_norm(domain, self.p_norm * self.beta + self.x_norm) 
 		
 		self.prob = cp.Problem(self.obj, self.constraints)
 
-- 
2.43.0


From 24151cbd010575fd8576a960506e2443bf1bca40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 11/65] fix: ConvexHullDomain.to_linineq dropped the bound
 constraints

---
 psdr/domains/convexhull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index b15b7ac..8783edc 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -195,7 +195,7 @@ class ConvexHullDomain(LinQuadDomain):
 		dom_hull = LinQuadDomain(A = A, b = b, A_eq = A_eq, b_eq = b_eq, names = self.names, **kwargs)
 		dom_hull.vertices = np.copy(vertices)
 		# Add back in non-hull constraints
-		dom = dom_hull.add_constraints(A = self.A, b = self.b, A_eq = self.A_eq, b_eq = self.b_eq,
+		dom = dom_hull.add_constraints(lb = self.lb, ub = self.ub, A = self.A, b = self.b, A_eq = self.A_eq, b_eq = self.b_eq,
 				Ls = self.Ls, ys = self.ys, rhos = self.rhos)
 		return dom
 
-- 
2.43.0


From 52019fe797716a3ed3f88962fdd6629385a72e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 12/65] fix: ConvexHullDomain._build_constraints had mismatched
 dimensions

---
 psdr/domains/convexhull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index 8783edc..0e79465 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -248,7 +248,7 @@ class ConvexHullDomain(LinQuadDomain):
 	def _build_constraints(self, x):
 		
 		alpha = cp.Variable(len(self.X), name = 'alpha')
-		constraints = [x == alpha @ self._X.T,  alpha >=0, cp.sum(alpha) == 1]
+		constraints = [x == alpha @ self._X,  alpha >=0, cp.sum(alpha) == 1]
 		constraints += LinQuadDomain._build_constraints(self, x)
 		return constraints
 		
-- 
2.43.0


From 08650b84dd5705ccf7935630e752aa5be5f4a8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 13/65] fix: sweep modified the direction provided by the user

---
 psdr/domains/euclidean.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 89fff54..5794ee1 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -418,6 +418,8 @@ class EuclideanDomain(Domain):
 			p = np.random.randn(len(self))
 		else:
 			assert len(p) == len(self), "Length of direction vector 'p' does not match the domain"
+			# Copy so that we do not modify the direction provided by the user below
+			p = np.array(p, dtype = float)
 
 		if corner:
 			# Two end points for search
-- 
2.43.0


From 257757fcf59b655c242ec6088da95d17d30de03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 14/65] fix: density of LogNormalDomain was not normalized

---
 psdr/domains/lognormal.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/psdr/domains/lognormal.py b/psdr/domains/lognormal.py
index 7973b80..f69f031 100644
--- a/psdr/domains/lognormal.py
+++ b/psdr/domains/lognormal.py
@@ -75,6 +75,12 @@ class LogNormalDomain(BoxDomain, RandomDomain):
 			return self
 
 	def _pdf(self, X):
-		X_norm = (X - self.offset)/self.scaling
-		p = np.exp(-(np.log(X_norm) - self.mean)**2/(2*self.cov))/(X_norm*self.cov*np.sqrt(2*np.pi))
+		X_norm = ((X - self.offset)/self.scaling).flatten()
+		p = np.zeros(X_norm.shape)
+		# The density is zero outside of the support
+		I = X_norm > 0
+		p[I] = np.exp(-(np.log(X_norm[I]) - self.mean)**2/(2*self.cov))/(X_norm[I]*np.sqrt(2*np.pi*self.cov))
+		if self.truncate is not None:
+			p /= (1-self.truncate)
+			p *= self.isinside(X)
 		return p
-- 
2.43.0


From c5d643a628f3706b53b65d527d02475774aaadda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 15/65] fix: lower bound of LogNormalDomain ignored the offset

---
 psdr/domains/lognormal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/domains/lognormal.py b/psdr/domains/lognormal.py
index f69f031..64dd69c 100644
--- a/psdr/domains/lognormal.py
+++ b/psdr/domains/lognormal.py
@@ -52,7 +52,7 @@ class LogNormalDomain(BoxDomain, RandomDomain):
 			self._lb = self.offset + self.scaling*np.exp(self.normal_domain.norm_lb)
 			self._ub = self.offset + self.scaling*np.exp(self.normal_domain.norm_ub)
 		else:
-			self._lb = 0.*np.ones(1)
+			self._lb = self.offset*np.ones(1)
 			self._ub = np.inf*np.ones(1)
 
 		self._init_names(names)
-- 
2.43.0


From 8a5602619647357fb383797c7e3667abc5151080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 16/65] fix: solver based methods of LogNormalDomain raised
 AttributeError

---
 psdr/domains/lognormal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/psdr/domains/lognormal.py b/psdr/domains/lognormal.py
index 64dd69c..e47cf46 100644
--- a/psdr/domains/lognormal.py
+++ b/psdr/domains/lognormal.py
@@ -1,7 +1,8 @@
 from __future__ import division
 
 import numpy as np
-from .domain import TOL
+from ..misc import merge
+from .domain import TOL, DEFAULT_CVXPY_KWARGS
 from .box import BoxDomain
 from .random import RandomDomain
 from .normal import NormalDomain
@@ -35,6 +36,7 @@ class LogNormalDomain(BoxDomain, RandomDomain):
 	"""	
 	def __init__(self, mean, cov = 1., offset = 0., scaling = 1., truncate = None, names = None):
 		self.tol = 1e-6
+		self.kwargs = merge(DEFAULT_CVXPY_KWARGS, {})
 		self.normal_domain = NormalDomain(mean, cov, truncate = truncate)
 		assert len(self.normal_domain) == 1, "Only defined for one-dimensional distributions"
 
-- 
2.43.0


From ec824da2e36cebd58919366587f9f136df62c22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 17/65] fix: solver based methods of UnboundedDomain raised
 AttributeError

---
 psdr/domains/unbounded.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/domains/unbounded.py b/psdr/domains/unbounded.py
index 40c41e2..4688b7d 100644
--- a/psdr/domains/unbounded.py
+++ b/psdr/domains/unbounded.py
@@ -2,6 +2,8 @@ from __future__ import division
 
 import numpy as np
 
+from ..misc import merge
+from .domain import DEFAULT_CVXPY_KWARGS
 from .euclidean import EuclideanDomain
 
 class UnboundedDomain(EuclideanDomain):
@@ -20,6 +22,7 @@ class UnboundedDomain(EuclideanDomain):
 	"""
 	def __init__(self, dimension, names = None):
 		self._dimension = dimension
+		self.kwargs = merge(DEFAULT_CVXPY_KWARGS, {})
 		self._init_names(names)
 
 		self._unbounded = True
-- 
2.43.0


From 8821c4f1de03d09d4a6fce73cc97f6d67ff7e6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 18/65] fix: intersection dropped the convex hull of a
 ConvexHullDomain

---
 psdr/domains/linquad.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/psdr/domains/linquad.py b/psdr/domains/linquad.py
index f4c00bd..6fe35d3 100644
--- a/psdr/domains/linquad.py
+++ b/psdr/domains/linquad.py
@@ -360,6 +360,12 @@ class LinQuadDomain(EuclideanDomain):
 			return BoxDomain(lb = lb, ub = ub, names = self.names)
 
 	def __and__(self, other):
+		from .convexhull import ConvexHullDomain
+		if isinstance(other, ConvexHullDomain):
+			# The convex hull is not described by the constraints added below
+			if not isinstance(self, ConvexHullDomain):
+				return other.__and__(self)
+			other = other.to_linineq()
 		if isinstance(other, LinQuadDomain) or (isinstance(other, TensorProductDomain) and other.is_linquad_domain):
 			return self.add_constraints(lb = other.lb, ub = other.ub,
 				A = other.A, b = other.b, A_eq = other.A_eq, b_eq = other.b_eq,
-- 
2.43.0


From a0e69aab03055fc4e5034f0b9bae54b45cb485a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 19/65] fix: fixing the signs of a subspace zeroed columns with
 zero mean slope

---
 psdr/subspace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/psdr/subspace.py b/psdr/subspace.py
index 425b2b5..9584d16 100644
--- a/psdr/subspace.py
+++ b/psdr/subspace.py
@@ -274,7 +274,10 @@ class SubspaceBasedDimensionReduction(object):
 		return U.dot(np.diag(np.sign(sgn)))	
 
 	def _fix_subspace_signs_grads(self, U, grads):
-		return U.dot(np.diag(np.sign(np.mean(grads.dot(U), axis = 0))))
+		sgn = np.mean(grads.dot(U), axis = 0)
+		# If the sign is zero, keep the current orientation
+		sgn[sgn == 0] = 1
+		return U.dot(np.diag(np.sign(sgn)))
 
 	
 	def approximate_lipschitz(self, X = None, fX = None, grads = None,  dim = None):
-- 
2.43.0


From e6caab3203f6b4a255c92e3e5ac9855941d08ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 20/65] fix: corner of a domain with only equality constraints
 was reported as bounded

---
 psdr/domains/euclidean.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 5794ee1..e0cd343 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -294,7 +294,11 @@ class EuclideanDomain(Domain):
 			raise EmptyDomainException	
 		# For some reason, if no constraints are provided CVXPY doesn't note
 		# the domain is unbounded
-		elif problem.status in ['unbounded'] or len(constraints) == 0:
+		# The same is true if only equality constraints are provided and 
+		# the objective is not constant over the solutions of these
+		elif problem.status in ['unbounded'] or len(constraints) == 0 or (
+			all([isinstance(con, cp.constraints.Equality) for con in constraints]) 
+			and not np.allclose(p, self._A_eq_basis.dot(self._A_eq_basis.T.dot(p)))):
 			#self._unbounded = True
 			#self._empty = False
 			#self._point = False
-- 
2.43.0


From ccd22ea30ad086249476760fc67a1e5f46cd9744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 21/65] fix: adding constraints to a TensorProductDomain
 dropped the convex hulls of its factors

---
 psdr/domains/tensor.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/psdr/domains/tensor.py b/psdr/domains/tensor.py
index 969a1a2..d21e2ce 100644
--- a/psdr/domains/tensor.py
+++ b/psdr/domains/tensor.py
@@ -187,10 +187,19 @@ class TensorProductDomain(EuclideanDomain):
 	def rhos(self):
 		return list(itertools.chain(*[dom.rhos for dom in self.domains]))
 
+	def _convert_hulls(self):
+		# Convex hulls are not described by linear and quadratic constraints (A, b, etc.) 
+		# until they are converted
+		from .convexhull import ConvexHullDomain
+		if any([isinstance(dom, ConvexHullDomain) for dom in self.domains]):
+			domains = [dom.to_linineq() if isinstance(dom, ConvexHullDomain) else dom for dom in self.domains]
+			return TensorProductDomain(domains, **self.kwargs)
+		return self
+
 	def add_constraints(self, *args, **kwargs):
 		if self.is_linquad_domain:
 			from .linquad import LinQuadDomain
-			return LinQuadDomain.add_constraints(self, *args, **kwargs)
+			return LinQuadDomain.add_constraints(self._convert_hulls(), *args, **kwargs)
 		else:
 			raise NotImplementedError
 
-- 
2.43.0


From d7b9cd7aaafaf1d3ce34b50e0896f1d56fd59e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 22/65] fix: intersection with a TensorProductDomain dropped
 the convex hulls of its factors

---
 psdr/domains/linquad.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/psdr/domains/linquad.py b/psdr/domains/linquad.py
index 6fe35d3..b38cc2d 100644
--- a/psdr/domains/linquad.py
+++ b/psdr/domains/linquad.py
@@ -366,6 +366,8 @@ class LinQuadDomain(EuclideanDomain):
 			if not isinstance(self, ConvexHullDomain):
 				return other.__and__(self)
 			other = other.to_linineq()
+		if isinstance(other, TensorProductDomain):
+			other = other._convert_hulls()
 		if isinstance(other, LinQuadDomain) or (isinstance(other, TensorProductDomain) and other.is_linquad_domain):
 			return self.add_constraints(lb = other.lb, ub = other.ub,
 				A = other.A, b = other.b, A_eq = other.A_eq, b_eq = other.b_eq,
-- 
2.43.0


From 4bc8ec4cf6a24e086c44a467bd3d8952e843f1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 23/65] fix: extent of a point does not limit directions that
 do not move it

---
 psdr/domains/point.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/psdr/domains/point.py b/psdr/domains/point.py
index b1cebcc..9253f1d 100644
--- a/psdr/domains/point.py
+++ b/psdr/domains/point.py
@@ -38,6 +38,10 @@ class PointDomain(BoxDomain):
 		return np.copy(self._x)
 
 	def _extent(self, x, p, **kwargs):
+		# If there is no motion in these coordinates we never leave the point
+		# (this occurs when the point is one factor of a tensor product domain)
+		if np.all(np.asarray(p) == 0):
+			return np.inf
 		return 0
 
 	def _isinside(self, X, tol = TOL):
-- 
2.43.0


From 34261a51d7ac8b8b75836fa863020f52873729ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:38 +0000
Subject: [PATCH 24/65] fix: random directions and sweeps never moved on
 domains with a fixed coordinate

---
 psdr/domains/euclidean.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index e0cd343..58fa1b5 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -433,6 +433,7 @@ class EuclideanDomain(Domain):
 			# Orthogonalize search direction against equality constraints 
 			Qeq = self._A_eq_basis
 			p -= Qeq.dot(Qeq.T.dot(p))
+			p[self.lb == self.ub] = 0.
 
 			a1 = self.extent(x, p)
 			c1 = x + a1*p
@@ -684,6 +685,8 @@ class EuclideanDomain(Domain):
 			p = np.random.normal(size = (len(self),))
 			# Orthogonalize against equality constarints constraints
 			p = p - Qeq @ (Qeq.T @ p)
+			# We cannot move in coordinates with identical lower and upper bounds
+			p[self.lb == self.ub] = 0.
 			# check that the direction isn't hitting a constraint
 			if x is None or self.extent(x, p) > 0:
 				break
@@ -822,9 +825,11 @@ class EuclideanDomain(Domain):
 	def _A_eq_basis(self):
 		r""" This contains an orthogonal basis for the directions that are *not* allowed to be moved along
 		"""
+		# Coordinates with identical lower and upper bounds cannot move either
+		A_eq = np.vstack([self.A_eq, np.eye(len(self))[self.lb == self.ub]])
 		try: 
-			if len(self.A_eq) == 0: raise AttributeError
-			Qeq = orth(self.A_eq.T)
+			if len(A_eq) == 0: raise AttributeError
+			Qeq = orth(A_eq.T)
 		except AttributeError:
 			Qeq = np.zeros((len(self),0))
 		return Qeq
-- 
2.43.0


From 4ddefd3fa87a3e8533ee5e58e8cdfeee07dca83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:39 +0000
Subject: [PATCH 25/65] fix: finite difference gradient ignored keyword
 arguments at the base point and failed for multiple outputs

---
 psdr/function.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/psdr/function.py b/psdr/function.py
index 84541f1..27ba906 100644
--- a/psdr/function.py
+++ b/psdr/function.py
@@ -201,12 +201,12 @@ class Function(BaseFunction):
 			h = 1e-7
 			grads = []
 			for x in np.atleast_2d(X_norm):
-				fx = self.eval(x)
-				grad = np.zeros(x.shape)
+				fx = self.eval(x, **kwargs)
+				grad = np.zeros((len(fx), len(x)))
 				for i in range(len(x)):
 					ei = np.zeros(x.shape)
 					ei[i] = 1.
-					grad[i] = (self.eval(x + h*ei, **kwargs) - fx)/h
+					grad[:,i] = (self.eval(x + h*ei, **kwargs) - fx)/h
 				# This ensures the dimensions match expectation for 
 				grads.append(np.atleast_2d(grad))
 			
-- 
2.43.0


From c83c897d5a1fb71badd8e42cecd689650e693b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:39 +0000
Subject: [PATCH 26/65] fix: gradients and values of vectorized functions were
 stacked along the wrong axis

---
 psdr/function.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/psdr/function.py b/psdr/function.py
index 27ba906..4d0220f 100644
--- a/psdr/function.py
+++ b/psdr/function.py
@@ -220,9 +220,7 @@ class Function(BaseFunction):
 			X = np.atleast_2d(X)
 			
 			if self.vectorized:
-				# TODO: I don't think this will get dimensions quite right
-				grads = np.array([ np.array(grad(X, **kwargs)) for grad in self._grads])
-				grads = np.transpose(grads, (1,0,2))
+				grads = np.concatenate([np.array(grad(X, **kwargs)).reshape(len(X), -1, len(self.domain)) for grad in self._grads], axis = 1)
 			else:
 				grads = np.array([ np.vstack([grad(x, **kwargs) for grad in self._grads]) for x in X])
 		
@@ -238,8 +236,8 @@ class Function(BaseFunction):
 				grads = []
 				for fun in self._funs:
 					fXi, gradsi = fun(X, return_grad = True, **kwargs)
-					grads.append(gradsi)
-				grads = np.array([ np.atleast_2d(grad) for grad in grads])
+					grads.append(np.array(gradsi).reshape(len(X), -1, len(self.domain)))
+				grads = np.concatenate(grads, axis = 1)
 			else:
 				grads = []
 				for x in X:
@@ -262,13 +260,14 @@ class Function(BaseFunction):
 
 		if self.return_grad:
 			# If the function can return both the value and gradient simultaneously
+			X_norm = np.atleast_1d(X_norm)
 			X = self.domain_app.unnormalize(X_norm)
 			X = np.atleast_2d(X)
 			D = self.domain_app._unnormalize_der() 	
 			if self.vectorized:
 				ret = [fun(X, return_grad = True, **kwargs) for fun in self._funs]
-				fX = np.hstack([r[0] for r in ret])
-				grads = np.concatenate([r[1].reshape(X.shape[0], -1, len(self.domain)) for r in ret], axis = 1)
+				fX = np.hstack([np.array(r[0]).reshape(len(X), -1) for r in ret])
+				grads = np.concatenate([np.array(r[1]).reshape(len(X), -1, len(self.domain)) for r in ret], axis = 1)
 			else:
 				fX = []
 				grads = []
-- 
2.43.0


From 11bba93a944c17e36b09de8fe2cfb401356470c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:57 +0000
Subject: [PATCH 27/65] fix: normalized domain of a ConvexHullDomain dropped
 the hull

---
 psdr/domains/convexhull.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index 0e79465..a6f6458 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -245,6 +245,12 @@ class ConvexHullDomain(LinQuadDomain):
 				
 			return super(ConvexHullDomain, self)._sample(draw = draw)
 
+	def _normalized_domain(self, **kwargs):
+		names_norm = [name + ' (normalized)' for name in self.names]
+		return ConvexHullDomain(self._X_norm, A = self.A_norm, b = self.b_norm, lb = self.lb_norm, ub = self.ub_norm,
+			A_eq = self.A_eq_norm, b_eq = self.b_eq_norm, Ls = self.Ls_norm, ys = self.ys_norm, rhos = self.rhos_norm,
+			names = names_norm, tol = self.tol, **merge(self.kwargs, kwargs))
+
 	def _build_constraints(self, x):
 		
 		alpha = cp.Variable(len(self.X), name = 'alpha')
-- 
2.43.0


From b2f316568731e263c7ce8af112ed42d9b6fe19cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:57 +0000
Subject: [PATCH 28/65] fix: normalized domain and extent of UnboundedDomain
 raised AttributeError

---
 psdr/domains/unbounded.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/psdr/domains/unbounded.py b/psdr/domains/unbounded.py
index 4688b7d..db787cb 100644
--- a/psdr/domains/unbounded.py
+++ b/psdr/domains/unbounded.py
@@ -50,6 +50,12 @@ class UnboundedDomain(EuclideanDomain):
 	def _unnormalize(self, X_norm):
 		return X_norm
 
+	def _normalized_domain(self, **kwargs):
+		return UnboundedDomain(len(self), names = [name + ' (normalized)' for name in self.names])
+
+	def _extent(self, x, p):
+		return np.inf
+
 	def _isinside(self, X, tol = None):
 		if X.shape[1]== len(self):
 			return np.ones(X.shape[0],dtype = np.bool)
-- 
2.43.0


From 59b56627db176605fd1da9f2c5283b2a4a340609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:44 +0000
Subject: [PATCH 29/65] fix: basis matrices at integer points were truncated to
 integers

---
 psdr/basis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/psdr/basis.py b/psdr/basis.py
index 4661665..4d6388f 100644
--- a/psdr/basis.py
+++ b/psdr/basis.py
@@ -185,7 +185,7 @@ class PolynomialTensorBasis(Basis):
 		assert X.shape[1] == self.dim, "Expected %d dimensions, got %d" % (self.dim, X.shape[1])
 		V_coordinate = [self.vander(X[:,k], self.degree) for k in range(self.dim)]
 		
-		V = np.ones((M, len(self.indices)), dtype = X.dtype)
+		V = np.ones((M, len(self.indices)), dtype = np.result_type(X.dtype, float))
 		
 		for j, alpha in enumerate(self.indices):
 			for k in range(self.dim):
@@ -272,7 +272,7 @@ class PolynomialTensorBasis(Basis):
 		V_coordinate = [self.vander(X[:,k], self.degree) for k in range(self.dim)]
 		
 		N = len(self.indices)
-		DV = np.ones((M, N, self.dim), dtype = X.dtype)
+		DV = np.ones((M, N, self.dim), dtype = np.result_type(X.dtype, float))
 
 		try:
 			dscale = self._dscale()
@@ -323,7 +323,7 @@ class PolynomialTensorBasis(Basis):
 		V_coordinate = [self.vander(X[:,k], self.degree) for k in range(self.dim)]
 		
 		N = len(self.indices)
-		DDV = np.ones((M, N, self.dim, self.dim), dtype = X.dtype)
+		DDV = np.ones((M, N, self.dim, self.dim), dtype = np.result_type(X.dtype, float))
 
 		try:
 			dscale = self._dscale()
@@ -489,7 +489,7 @@ class ArnoldiPolynomialBasis(Basis):
 	def arnoldi_X(self, X):
 		r""" Generate a Vandermonde matrix corresponding to a different set of points
 		"""
-		W = np.zeros((X.shape[0], len(self.indices)), dtype = X.dtype)
+		W = np.zeros((X.shape[0], len(self.indices)), dtype = np.result_type(X.dtype, float))
 
 		iteridx = enumerate(self.indices)
 		# As the first column is the ones vector, we treat it as a special case
-- 
2.43.0


From 123425cc15a89242fa5c5946d4ef3ceadc994114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:46 +0000
Subject: [PATCH 30/65] fix: ridge fit oriented slopes using samples in the
 unrotated coordinates

---
 psdr/polyridge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index ea99544..48997c3 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -435,7 +435,7 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 		# Step 2: Flip signs such that average slope is positive in the coordinate directions
 		if self.rotate:
 			self.coef = self._fit_coef(X, fX, U)
-			grads = self.profile.grad(Y)
+			grads = self.profile.grad((U.T @ X.T).T)
 			self._U = U = U.dot(np.diag(np.sign(np.mean(grads, axis = 0))))
 		
 		# Step 3: final fit	
-- 
2.43.0


From 3ec1cd0e4c6144d90ff43ff61c282e289864b285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:46 +0000
Subject: [PATCH 31/65] fix: ridge fit zeroed a direction whose average slope
 vanishes

---
 psdr/polyridge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index 48997c3..5f983d0 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -436,7 +436,7 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 		if self.rotate:
 			self.coef = self._fit_coef(X, fX, U)
 			grads = self.profile.grad((U.T @ X.T).T)
-			self._U = U = U.dot(np.diag(np.sign(np.mean(grads, axis = 0))))
+			self._U = U = U.dot(np.diag(np.where(np.mean(grads, axis = 0) < 0, -1., 1.)))
 		
 		# Step 3: final fit	
 		self.coef = self._fit_coef(X, fX, U)
-- 
2.43.0


From 70f73501d889ef82b6998d72127376f6ce086b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:58 +0000
Subject: [PATCH 32/65] fix: affine ridge fit of constant data returned NaN

---
 psdr/polyridge.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index 5f983d0..3f7bd36 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -371,7 +371,9 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 		XX = np.hstack([dom.normalize(X), np.ones((X.shape[0],1))])
 
 		# Normalize the output
-		fX = (fX - np.min(fX))/(np.max(fX) - np.min(fX))
+		fX = fX - np.min(fX)
+		if np.max(fX) > 0:
+			fX = fX/np.max(fX)
 
 		if self.bound is None:
 			if self.norm == 1:
@@ -389,6 +391,9 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 		U = b[0:-1].reshape(-1,1)
 		# Correct for transform 
 		U = dom._normalize_der().dot(U)
+		# Constant data has no active direction: any will do
+		if np.linalg.norm(U) == 0:
+			U[0] = 1.
 		# Force to have unit norm
 		U /= np.linalg.norm(U)
 		return U	
-- 
2.43.0


From 930a9d35b9b529d65aaa65b38867bafb77321977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:09 +0000
Subject: [PATCH 33/65] fix: affine ridge fit swapped lower and upper bounds

---
 psdr/polyridge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index 3f7bd36..725cbf0 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -384,9 +384,9 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 				b = inf_norm_fit(XX, fX)
 		elif self.bound == 'lower':
 			# fX >= XX b
-			b = bound_fit(XX, fX, norm = self.norm)
+			b = bound_fit(-XX, -fX, norm = self.norm)
 		elif self.bound == 'upper':
-			b = bound_fit(-XX, -fX, norm = self.norm)	 	
+			b = bound_fit(XX, fX, norm = self.norm)	 	
 
 		U = b[0:-1].reshape(-1,1)
 		# Correct for transform 
-- 
2.43.0


From 6736d9b379985a6beeeb4c029fb9ef8a09f0b6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:59 +0000
Subject: [PATCH 34/65] fix: gradient of the quadratic demo function with a
 non-symmetric matrix

---
 psdr/demos/polynomial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psdr/demos/polynomial.py b/psdr/demos/polynomial.py
index 3559d39..a5df640 100644
--- a/psdr/demos/polynomial.py
+++ b/psdr/demos/polynomial.py
@@ -80,4 +80,5 @@ class QuadraticFunction(Function):
 		return 	(X.dot(self.quad)*X).sum(axis = 1) + self.linear.dot(X.T) + self.constant
 
 	def _func_grad(self, X):
-		 return 2*X.dot(self.quad) + np.tile(self.linear, (len(X),1))
+		X = np.atleast_2d(X)
+		return X.dot(self.quad + self.quad.T) + np.tile(self.linear, (len(X),1))
-- 
2.43.0


From 122c21bbc29614d0baa366f6b09a154e6c886fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:02 +0000
Subject: [PATCH 35/65] fix: scalar Lipschitz constant with epsilon, repeated
 points, or one sample

---
 psdr/lipschitz.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index 4f8311e..db1df15 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -620,9 +620,11 @@ class LipschitzConstant(LipschitzMatrix):
 	def _fit(self, X, fX, grads, epsilon, scale):
 		L = 0
 		if len(X) > 0:
-			L_samp = np.max([ (abs(fX[i] - fX[j]) - epsilon )/ np.linalg.norm(X[i] - X[j]) 
-				for i,j in combinations(range(len(X)), 2)])
-			L = max(L, L_samp)
+			# The data passed in is not scaled, whereas epsilon is; 
+			# only pairs whose values differ (by more than epsilon) constrain the constant
+			L_samp = [ (abs(fX[i] - fX[j]) - epsilon*scale )/ np.linalg.norm(X[i] - X[j]) 
+				for i,j in combinations(range(len(X)), 2) if abs(fX[i] - fX[j]) > epsilon*scale]
+			L = max([L] + L_samp)
 
 		if len(grads) > 0:
 			L_grad = np.max([np.linalg.norm(grad) for grad in grads])
-- 
2.43.0


From 436253e3b1399aa2f8478f32df5d9105ef265bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:02 +0000
Subject: [PATCH 36/65] fix: Lipschitz fit of constant data divided by zero

---
 psdr/lipschitz.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index db1df15..204dba3 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -148,6 +148,8 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 		except ValueError:
 			scale2 = 1.
 		scale = max(scale1, scale2)
+		if scale == 0:
+			scale = 1.
 	
 		if self.epsilon is not None:
 			epsilon = self.epsilon/scale
-- 
2.43.0


From 82d8afd2a6def6e1450e056d5a59672650a73af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:02 +0000
Subject: [PATCH 37/65] fix: diagonal Lipschitz matrix kept the directions of a
 previous fit

---
 psdr/lipschitz.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index 204dba3..a4bc1a3 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -607,6 +607,8 @@ class DiagonalLipschitzMatrix(CoordinateBasedDimensionReduction, LipschitzMatrix
 		self._L = scale * np.diag(np.sqrt(np.diag(H)))
 		
 		self._score = np.diag(self._L).copy()		
+		# Discard the directions of a previous fit
+		self._U = None
 		#self._U = np.eye(len(self._score))[:,np.argsort(-self._score)] 
 
 class LipschitzConstant(LipschitzMatrix):
-- 
2.43.0


From f1608dfd052595195ff4f625948f70da1fdd9ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:02 +0000
Subject: [PATCH 38/65] fix: partial Lipschitz matrix was NaN when the solver
 returned a slightly negative eigenvalue

---
 psdr/lipschitz_partial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/lipschitz_partial.py b/psdr/lipschitz_partial.py
index d465cb9..b85d8f8 100644
--- a/psdr/lipschitz_partial.py
+++ b/psdr/lipschitz_partial.py
@@ -83,6 +83,9 @@ class PartialLipschitzMatrix(LipschitzMatrix):
 
 		# Rotate U
 		ew, ev = np.linalg.eigh(J)
+		# The solver may return slightly negative values
+		ew = np.maximum(ew, 0)
+		alpha = max(alpha, 0)
 		# Flip to descending order
 		ew = ew[::-1]
 		ev = ev[:,::-1]
-- 
2.43.0


From f000d4fb6cbf56e1b59e4807e57acf443934ed9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:02 +0000
Subject: [PATCH 39/65] fix: partial Lipschitz matrix constrained pairs within
 epsilon

---
 psdr/lipschitz_partial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/lipschitz_partial.py b/psdr/lipschitz_partial.py
index b85d8f8..1c3723e 100644
--- a/psdr/lipschitz_partial.py
+++ b/psdr/lipschitz_partial.py
@@ -164,7 +164,7 @@ class PartialLipschitzMatrix(LipschitzMatrix):
 
 		for i in range(len(X)):
 			for j in range(i+1, len(X)):
-				lhs = (np.abs(fX[i] - fX[j]) - epsilon)**2
+				lhs = max(np.abs(fX[i] - fX[j]) - epsilon, 0)**2
 				y = X[i] - X[j]
 				UTy = U.T.dot(y)
 				rhs = cp.quad_form(UTy, J) + alpha*( y.dot(y) - UTy.dot(UTy))
@@ -206,7 +206,7 @@ class PartialLipschitzMatrix(LipschitzMatrix):
 			for j in range(i+1, len(X)):
 				y = X[i] - X[j]
 				UTy = U.T.dot(y)
-				lhs = (np.abs(fX[i] - fX[j]) - epsilon)**2 
+				lhs = max(np.abs(fX[i] - fX[j]) - epsilon, 0)**2 
 				# y.T @ U.T @ J @  U @ y + alpha* y.T @ (I - U @ U.T) @ y
 				lhs -= UTy.dot(J.dot(UTy)) + alpha*(y.dot(y) - UTy.dot(UTy)) # 0th order term
 				# 2 * y.T @ U.T @ J @ Up @ y + y.T @ U.T @ Jp @ U @ y
-- 
2.43.0


From 7cb573e8a33945cdaae0a5aff33ac31398ec5b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:02 +0000
Subject: [PATCH 40/65] fix: uncertainty over a domain ignored epsilon

---
 psdr/lipschitz.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index a4bc1a3..0ceb213 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -478,7 +478,11 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 			x = minimax(upper_bound, x0, domain = domain, verbose = verbose, trust_region = False)
 			ubs.append(np.min(-upper_bound(x)))
 			#print(lbs[-1], ubs[-1])
-		return float(np.min(lbs)), float(np.max(ubs))
+		lb, ub = float(np.min(lbs)), float(np.max(ubs))
+		if self.epsilon is None:
+			return lb, ub
+		else:
+			return lb - self.epsilon, ub + self.epsilon
 
 #		# Attempts at making a parallel interface
 #		else:
-- 
2.43.0


From 5726538dd25f6b47ac8eab44d290ad65e0de212e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:21 +0000
Subject: [PATCH 41/65] fix: distance to gradient constraints failed when a
 gradient is aligned with eigenvectors

---
 psdr/lipschitz_utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/psdr/lipschitz_utils.py b/psdr/lipschitz_utils.py
index e9e0a71..cecf60c 100644
--- a/psdr/lipschitz_utils.py
+++ b/psdr/lipschitz_utils.py
@@ -82,10 +82,12 @@ def dist_grad_constraints_slow(H, grads):
  	
 	# This avoids evaluating on the asymptote of the secular equation
 	# and pushes slightly to the right (this is confusing because ew[-1] is negative). 
-	left = ew[-1]*(1 - eps)
+	# The slack keeps the signs of the secular equation at both ends correct in spite of rounding
+	slack = 8*eps*(np.max(np.abs(ew)) + np.sum(Ugrads2, axis = 1))
+	left = ew[-1] + slack 
 
 	# the right bound is ew[-1] + || g ||_2^2 
-	right = ew[-1] + np.sum(Ugrads2, axis = 1)
+	right = ew[-1] + np.sum(Ugrads2, axis = 1) + slack
 		
 
 	for k in range(N):
@@ -102,7 +104,11 @@ def dist_grad_constraints_slow(H, grads):
 		# DLAED4 uses a much more sophisticated algorithm, but we use
 		# brenth simply as a fall back when the LAPACK version doesn't work 
 		
-		dist[k] = brenth(obj, left, right[k])
+		if obj(left[k]) < 0:
+			dist[k] = brenth(obj, left[k], right[k])
+		else:
+			# the gradient has no component along the trailing eigenvector
+			dist[k] = left[k]
 
 	return -dist
 
-- 
2.43.0


From 2668755b8bbaa9c242ca7ec479333c1477f7d74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:40 +0000
Subject: [PATCH 42/65] fix: Lipschitz fit did not scale values smaller than
 one

---
 psdr/lipschitz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index 0ceb213..4f058a9 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -142,11 +142,11 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 		try:	
 			scale1 = np.max(fX) - np.min(fX)
 		except ValueError:
-			scale1 = 1.
+			scale1 = 0.
 		try:
 			scale2 = np.max([np.linalg.norm(grad) for grad in grads])
 		except ValueError:
-			scale2 = 1.
+			scale2 = 0.
 		scale = max(scale1, scale2)
 		if scale == 0:
 			scale = 1.
-- 
2.43.0


From bee20d7d776e788954abe0f493ea3b29b895dc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:23 +0000
Subject: [PATCH 43/65] fix: PGF.add did not check the length of the second
 column

---
 psdr/pgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/pgf.py b/psdr/pgf.py
index b7914ef..9a0e032 100644
--- a/psdr/pgf.py
+++ b/psdr/pgf.py
@@ -10,7 +10,7 @@ class PGF:
 		self.columns = []
 
 	def add(self, name, column):
-		if len(self.columns) > 1:
+		if len(self.columns) > 0:
 			assert len(self.columns[0]) == len(column)
 
 		self.columns.append(deepcopy(column))
-- 
2.43.0


From 1a47894a84d851e7e5db60b2594e520aa573c7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:23 +0000
Subject: [PATCH 44/65] fix: gauss_newton only updated the gradient norm when
 printing

---
 psdr/gn.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/psdr/gn.py b/psdr/gn.py
index ca2da09..586ccb2 100644
--- a/psdr/gn.py
+++ b/psdr/gn.py
@@ -217,7 +217,7 @@ def gauss_newton(f, F, x0, tol=1e-10, tol_normdx=1e-12,
 		normdx = np.linalg.norm(dx)
 		F_eval = F(x)
 		grad = F_eval.T @ f_eval_new
-		
+		normgrad = np.linalg.norm(grad)
 
 		#########################################################################
 		# Printing section 
@@ -227,7 +227,6 @@ def gauss_newton(f, F, x0, tol=1e-10, tol_normdx=1e-12,
 			cond = s[0] / s[-1]
 		
 		if verbose >= 1:
-			normgrad = np.linalg.norm(grad)
 			print(
 				'    %3d  |  %1.4e  |  %8.2e  |  %8.2e  |  %8.2e  |  %8.2e' % (
 				it, normf, normdx, cond, alpha, normgrad))
-- 
2.43.0


From 9e92fd3e64d2cda2e4b861e6623ba2967ccbed3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:23 +0000
Subject: [PATCH 45/65] fix: Monte Carlo quadrature rule with one sample
 returned a flat array

---
 psdr/domains/euclidean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 58fa1b5..d72c918 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -799,7 +799,7 @@ class EuclideanDomain(Domain):
 		elif method == 'montecarlo':
 			# For a Monte-Carlo rule we simply sample the domain randomly.
 			w = (1./N)*np.ones(N)
-			X = self.sample(N)
+			X = self.sample(N).reshape(N, len(self))
 
 			# However, we need to include a correction to account for the 
 			# volume of this domain
-- 
2.43.0


From 557dc918fb61cd9fff0de5ffe6b63510226d8097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:23 +0000
Subject: [PATCH 46/65] fix: is_unbounded failed on one-dimensional domains

---
 psdr/domains/euclidean.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index d72c918..7093e4e 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -113,7 +113,10 @@ class EuclideanDomain(Domain):
 	@cached_property
 	def is_unbounded(self):
 		try:
-			U = ortho_group.rvs(len(self))
+			if len(self) > 1:
+				U = ortho_group.rvs(len(self))
+			else:
+				U = np.ones((1,1))
 			for u in U:
 				x1 = self.corner(u)
 				x2 = self.corner(-u)
-- 
2.43.0


From c4a3ed50e8a7c2cb6c7e73c95e4ad808ba5c04f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:23 +0000
Subject: [PATCH 47/65] fix: one-dimensional Voronoi vertices included points
 that are not vertices

---
 psdr/geometry/vertex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/geometry/vertex.py b/psdr/geometry/vertex.py
index 2d747a1..143b38f 100644
--- a/psdr/geometry/vertex.py
+++ b/psdr/geometry/vertex.py
@@ -28,7 +28,7 @@ def voronoi_vertex_1d(domain, Xhat, L = None):
 	lb = domain.corner(np.array([-1]))
 	ub = domain.corner(np.array([1]))
 	
-	X = np.sort(np.hstack([Xhat.flatten(), ub, lb]))
+	X = np.unique(Xhat.flatten())
 	# mid point between X
 	V = 0.5*(X[1:] + X[:-1])
 	# add boundaries
-- 
2.43.0


From 0f6f0a3ae1412e7964793d0522a31c5daf16f840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:23 +0000
Subject: [PATCH 48/65] fix: stretch_sample_domain replaced the existing
 samples by the candidate

---
 psdr/sample/stretch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/psdr/sample/stretch.py b/psdr/sample/stretch.py
index a2ad68f..de575be 100644
--- a/psdr/sample/stretch.py
+++ b/psdr/sample/stretch.py
@@ -46,10 +46,10 @@ def stretch_sample_domain(domain, X, Ls, verbose = False):
 		xd = []
 		for k, L in enumerate(Ls):
 			try:
-				X, d = _maximin_block_candidate(domain, X, L)
+				x, d = _maximin_block_candidate(domain, X, L)
 			except (SolverError, EmptyDomainException):
-				pass
-			xd.append( list([X, d, L, k]))
+				continue
+			xd.append( list([x, d, L, k]))
 		#xd = [list(_maximin_block_candidate(domain, X, L)) + [L, k] for k, L in enumerate(Ls)]
 		if len(xd) == 0:
 			break
-- 
2.43.0


From 9e21025fd25b4dfce774b4b5c8f8be7945482502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:23 +0000
Subject: [PATCH 49/65] fix: coffeehouse design on low-dimensional domains with
 equality constraints

---
 psdr/sample/maximin_coffeehouse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psdr/sample/maximin_coffeehouse.py b/psdr/sample/maximin_coffeehouse.py
index e78c0a8..92ea243 100644
--- a/psdr/sample/maximin_coffeehouse.py
+++ b/psdr/sample/maximin_coffeehouse.py
@@ -34,7 +34,8 @@ def maximin_coffeehouse(domain, N, L = None, verbose = True, N0 = None, full = N
 	"""
 
 	if full is None:
-		if len(domain) <= 3:
+		# All the Voronoi vertices are only available on domains without equality constraints
+		if len(domain) <= 3 and len(domain.A_eq) == 0:
 			full = True
 		else:
 			full = False
-- 
2.43.0


From 901172240ccbf1678d1c8880f41a8cdad2ad40f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:23 +0000
Subject: [PATCH 50/65] fix: maximin Latin hypercube of one point failed and
 returned None when no candidate improved

---
 psdr/sample/latin.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/psdr/sample/latin.py b/psdr/sample/latin.py
index ce5b445..1a1a233 100644
--- a/psdr/sample/latin.py
+++ b/psdr/sample/latin.py
@@ -92,10 +92,13 @@ def _latin_hypercube_maximin_box(domain, N, maxiter = 1000):
 		xs.append(xi)
 	
 	score_best = tuple(np.zeros(N))
-	X_best = None
 	# Generate random initial permutations
 	perms_best = np.vstack([np.random.permutation(N) for i in range(len(domain))])
+	X_best = np.array([ [xs[i][j] for j in perms_best[i]] for i in range(len(domain))]).T
 	
+	# There is only one design with a single point
+	if N == 1: return X_best
+
 	for it in range(maxiter):
 		# Generate new permutation of the permutations
 		i, j = np.random.permutation(N)[0:2]
-- 
2.43.0


From 59445d60679dd91a5f79afecdab621ba877febfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:23 +0000
Subject: [PATCH 51/65] fix: SequentialMaximinSampler used seq_maximin_sample
 without importing it

---
 psdr/sample/sample.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/psdr/sample/sample.py b/psdr/sample/sample.py
index 5d48efe..edb516c 100644
--- a/psdr/sample/sample.py
+++ b/psdr/sample/sample.py
@@ -16,6 +16,7 @@ from ..geometry import sample_sphere, unique_points, sample_simplex
 from ..domains import LinIneqDomain, ConvexHullDomain
 
 from .initial import initial_sample
+from .seqmaximin import seq_maximin_sample
 
 __all__ = ['Sampler', 'SequentialMaximinSampler', 'StretchedSampler']
 
-- 
2.43.0


From c3d17b7909ebb33444c3606123353117eeaa38cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:23 +0000
Subject: [PATCH 52/65] fix: local linear models at more points than samples
 failed

---
 psdr/local_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/local_linear.py b/psdr/local_linear.py
index 3f12067..5115596 100644
--- a/psdr/local_linear.py
+++ b/psdr/local_linear.py
@@ -175,7 +175,7 @@ def local_linear(X, fX, perplexity = None, bandwidth = None, Xt = None):
 	Y = np.hstack([np.ones((M, 1)), X])
 	
 	# Coefficients in linear models
-	A = np.zeros((M, m+1))
+	A = np.zeros((len(Xt), m+1))
 	for i, xi in enumerate(Xt):
 		d = cdist(X, xi.reshape(1,-1), 'sqeuclidean').flatten()
 		if perplexity:
-- 
2.43.0


From ba450309fae6aeb7dc9dd39724198e8bffdc8d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:23 +0000
Subject: [PATCH 53/65] fix: outer product gradient undid the standardization
 with the wrong power of the scale

---
 psdr/opg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/opg.py b/psdr/opg.py
index 57d0f5d..5b01838 100644
--- a/psdr/opg.py
+++ b/psdr/opg.py
@@ -127,8 +127,8 @@ class OuterProductGradient(ActiveSubspace):
 			
 		if self.standardize:
 			# Undo the coordiante change introduced by standardization 
-			Dinv2 = np.diag(std**(-0.5))
-			U = Dinv2.dot(self.U)
+			Dinv = np.diag(1./std)
+			U = Dinv.dot(self.U)
 			Q, R = np.linalg.qr(U, mode = 'reduced')
 			self._U = Q
 			self._U = self._fix_subspace_signs_grads(self._U, z_grads)		
-- 
2.43.0


From c83318c34e084117daee692b04c38aa0acc5ad2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:36 +0000
Subject: [PATCH 54/65] fix: projection_sample used Delaunay without importing
 it

---
 psdr/sample/projection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/psdr/sample/projection.py b/psdr/sample/projection.py
index 025393c..4796809 100644
--- a/psdr/sample/projection.py
+++ b/psdr/sample/projection.py
@@ -1,6 +1,7 @@
 from __future__ import print_function
 
 import numpy as np
+from scipy.spatial import Delaunay
 from scipy.spatial.distance import pdist, squareform
 from satyrn import picosat
 
-- 
2.43.0


From e9b4f2dd3f44d11b6bb99b13edc4cc65bb9b1ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:36 +0000
Subject: [PATCH 55/65] fix: projection_sample stacked metrics with different
 numbers of rows

---
 psdr/sample/projection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/sample/projection.py b/psdr/sample/projection.py
index 4796809..079be76 100644
--- a/psdr/sample/projection.py
+++ b/psdr/sample/projection.py
@@ -125,7 +125,7 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 	def subdomain_sample(idx):
 		# The point in the domain that is nearest to the target position
 		subdom = subdomain(idx)
-		A = np.vstack([Ls])
+		A = Lall
 		b = np.hstack([y[i] for y, i in zip(ys, idx)])
 		return subdom.constrained_least_squares(A, b)
 			
-- 
2.43.0


From b10fd1a9ccefd063adb2beab8b93e1b6f25b9c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:57 +0000
Subject: [PATCH 56/65] fix: Latin hypercube on non-box domains required
 axis-aligned points to be in the domain

---
 psdr/sample/projection.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/psdr/sample/projection.py b/psdr/sample/projection.py
index 079be76..b9d5a61 100644
--- a/psdr/sample/projection.py
+++ b/psdr/sample/projection.py
@@ -104,9 +104,11 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 			
 			As[i][j] = np.vstack(A)
 			bs[i][j] = np.hstack(b)
-			dom = domain.add_constraints(A = As[i][j], b = bs[i][j])
-			assert dom.isinside(X[j])
-			assert np.sum(dom.isinside(X)) == 1	
+			# For a Latin hypercube only the projection of X is inside the (projected) domain
+			if not _lhs:
+				dom = domain.add_constraints(A = As[i][j], b = bs[i][j])
+				assert dom.isinside(X[j])
+				assert np.sum(dom.isinside(X)) == 1	
 
 
 	def encode(metric, order, value):
-- 
2.43.0


From 30850dc8f49002d581eb928f9ae771c5936a0581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:57 +0000
Subject: [PATCH 57/65] fix: projection_sample failed with too few points for a
 triangulation

---
 psdr/sample/projection.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/psdr/sample/projection.py b/psdr/sample/projection.py
index b9d5a61..1edaa73 100644
--- a/psdr/sample/projection.py
+++ b/psdr/sample/projection.py
@@ -78,13 +78,18 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 			I = np.argsort(y.flatten())
 			neighbors = [ None for j in range(Nsamp)]
 			for j in range(Nsamp):
-				if j == 0:
+				if Nsamp == 1:
+					neighbors[I[j]] = np.zeros(0, dtype = np.int)
+				elif j == 0:
 					neighbors[I[j]] = np.array([I[j+1]], dtype = np.int)
 				elif j == Nsamp - 1:
 					neighbors[I[j]] = np.array([I[j-1]], dtype = np.int)
 				else:
 					neighbors[I[j]] = np.array([ I[j-1], I[j+1] ], dtype = np.int)
 			
+		elif Nsamp < y.shape[1] + 2:
+			# Too few points for a triangulation: every point is a neighbor of every other
+			neighbors = [np.delete(np.arange(Nsamp), j) for j in range(Nsamp)]
 		else:
 			delaunay = Delaunay(y)
 			indices, indptr = delaunay.vertex_neighbor_vertices
@@ -94,8 +99,8 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 		
 		# Now construct the inequality constraints for each point's Voronoi cell
 		for j, neigh in enumerate(neighbors):
-			A = []
-			b = []
+			A = [np.zeros((0, len(domain)))]
+			b = [np.zeros(0)]
 			for k in neigh:
 				p = 0.5*(X[j] + X[k]) 	# point on separating hyperplane
 				n = (X[k] - X[j]).reshape(-1,1) 		# normal vector to hyperplane
-- 
2.43.0


From f99289e8bc09135a5bc6aa79efd58724801ae087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:24 +0000
Subject: [PATCH 58/65] fix: projection_sample failed with one sample or
 coinciding first samples

---
 psdr/sample/projection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/psdr/sample/projection.py b/psdr/sample/projection.py
index 1edaa73..a3034b7 100644
--- a/psdr/sample/projection.py
+++ b/psdr/sample/projection.py
@@ -167,6 +167,7 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 	sat_iter = picosat.itersolve(geo_cnf, initialization = 'random', seed = np.random.randint(2**16))
 
 	it = 0
+	assumptions = []
 	while True:
 		try:
 			sol = sat_iter.next()
@@ -218,7 +219,8 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 				consubdoms = [subdom.add_constraints(A_eq = Lall, b_eq = Lall.dot(x)) for subdom, x in zip(subdoms, X)]
 				X = np.vstack([consubdom.sample() for consubdom in consubdoms])
 				mask = np.ones(Nsamp, dtype = np.bool)
-				for it2 in range(100):
+				# A single sample is already a maximin design
+				for it2 in range(100 if Nsamp > 1 else 0):
 					max_move = 0
 					for i in range(Nsamp):
 						# Remove the current iterate 
@@ -246,7 +248,7 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 			min_dist = np.min(D, axis = 0)
 			score = tuple(np.sort(min_dist))	
 
-			if score > score_best:
+			if X_best is None or score > score_best:
 				X_best = X
 				score_best = score
 				perms_best = perms
-- 
2.43.0


From 1681fe798c034b0adfdd1736b566f87adfa3c00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:24 +0000
Subject: [PATCH 59/65] fix: initial_sample returned a flat array for one
 sample

---
 psdr/sample/initial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/sample/initial.py b/psdr/sample/initial.py
index 0abf86b..283b8be 100644
--- a/psdr/sample/initial.py
+++ b/psdr/sample/initial.py
@@ -39,7 +39,7 @@ def initial_sample(domain, L, Nsamp = int(1e2), Nboundary = 50):
 	if L.shape[0] == L.shape[1]:
 		err = np.linalg.norm(L[0,0]*np.eye(L.shape[0]) - L)
 		if np.isclose(err, 0):
-			return domain.sample(Nsamp)
+			return domain.sample(Nsamp).reshape(Nsamp, len(domain))
 
 	# If there is only one point in the domain,
 	# we simply return that one point
-- 
2.43.0


From 33dbb5dd103e8f3fd4ace6882828740e0dc29b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:24 +0000
Subject: [PATCH 60/65] fix: maximin_block failed with one sample

---
 psdr/sample/maximin.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/psdr/sample/maximin.py b/psdr/sample/maximin.py
index 0408bf8..fc36c26 100644
--- a/psdr/sample/maximin.py
+++ b/psdr/sample/maximin.py
@@ -91,6 +91,10 @@ def maximin_block(domain, Nsamp, L = None, xtol = 1e-6, verbose = False, maxiter
 	else:
 		X = np.array(X0)
 
+	# A single point is already a maximin design
+	if Nsamp == 1:
+		return X
+
 	if verbose:
 		printer = IterationPrinter(it = '4d', maximin = '16.8e', dx = '10.3e')
 		printer.print_header(it = 'iter', maximin = 'maximin dist.', dx = 'Δx')
-- 
2.43.0


From 32d7ee99cb6efe94331cb727096fcecae71e1638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:24 +0000
Subject: [PATCH 61/65] fix: grid based Poisson disk sampling failed for points
 on the upper boundary

---
 psdr/sample/poisson.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/psdr/sample/poisson.py b/psdr/sample/poisson.py
index 527cee8..deb74d4 100644
--- a/psdr/sample/poisson.py
+++ b/psdr/sample/poisson.py
@@ -82,8 +82,9 @@ def poisson_disk_sample_grid(domain, r, L = None, Ntries = 100):
 		c2 = domain.corner(-L[i,:])
 		if L[i,:].dot(c1) > L[i,:].dot(c2):
 			c1, c2 = c2, c1
-		grid_start[i] = L[i,:].dot(c1)
-		grid_dims[i] = int(np.ceil((L[i,:].dot(c2) - L[i,:].dot(c1))/grid_size))
+		# Pad the grid by one cell on each side so points on the boundary (up to the tolerance) are inside
+		grid_start[i] = L[i,:].dot(c1) - grid_size
+		grid_dims[i] = int(np.floor((L[i,:].dot(c2) - L[i,:].dot(c1))/grid_size)) + 3
 
 	# Setup the grid
 	grid = np.zeros(grid_dims, dtype = np.uint32)
@@ -107,7 +108,6 @@ def poisson_disk_sample_grid(domain, r, L = None, Ntries = 100):
 			break
 		
 		LX = L.dot(np.array(X).T).T
-		print(active)
 		success = False
 		for it in range(Ntries):
 			# Generate a random direction
-- 
2.43.0


From ea30045935b06de0e34701c3099f662c23dfc63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:32 +0000
Subject: [PATCH 62/65] fix: grid based Poisson disk sampling searched the
 wrong cells for neighbors

---
 psdr/sample/poisson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/sample/poisson.py b/psdr/sample/poisson.py
index deb74d4..eb9ed48 100644
--- a/psdr/sample/poisson.py
+++ b/psdr/sample/poisson.py
@@ -122,7 +122,7 @@ def poisson_disk_sample_grid(domain, r, L = None, Ntries = 100):
 				idxc = grid_coord(xc)
 				neighbors = []
 				grid_rad = int(2*np.ceil(np.sqrt(L.shape[0])))+1
-				for idx in itertools.product(*[ (j+k for k in range(-grid_rad, grid_rad+1)) for j in idxc]):
+				for idx in itertools.product(*[ range(j - grid_rad, j + grid_rad + 1) for j in idxc]):
 					try:
 						if min(idx) < 0: raise IndexError
 						n = grid[idx]
-- 
2.43.0


From 7b09c5c555ed22212da1e016502d91eaa8fc0545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:16 +0000
Subject: [PATCH 63/65] fix: initial_sample with a low-rank metric failed for
 one sample

---
 psdr/sample/initial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/sample/initial.py b/psdr/sample/initial.py
index 283b8be..131c146 100644
--- a/psdr/sample/initial.py
+++ b/psdr/sample/initial.py
@@ -73,7 +73,7 @@ def initial_sample(domain, L, Nsamp = int(1e2), Nboundary = 50):
 	# Create a domain using these points
 	Ldom = ConvexHullDomain(Lcs)
 	# Determine which points were used
-	Y = Ldom.sample(Nsamp)
+	Y = Ldom.sample(Nsamp).reshape(Nsamp, Lrank)
 
 	# Convert back to the ambient space
 	X = np.zeros((Nsamp, len(domain)))
-- 
2.43.0


From 38b0080f1e60e375296a290d67e79eeda94fe50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:21 +0000
Subject: [PATCH 64/65] fix: outer product gradient oriented directions using
 the gradients in standardized coordinates

---
 psdr/opg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/opg.py b/psdr/opg.py
index 5b01838..cf4aa86 100644
--- a/psdr/opg.py
+++ b/psdr/opg.py
@@ -131,5 +131,5 @@ class OuterProductGradient(ActiveSubspace):
 			U = Dinv.dot(self.U)
 			Q, R = np.linalg.qr(U, mode = 'reduced')
 			self._U = Q
-			self._U = self._fix_subspace_signs_grads(self._U, z_grads)		
+			self._U = self._fix_subspace_signs_grads(self._U, z_grads @ Dinv)		
 		
-- 
2.43.0


From 919a42c391027124f0408fa0f157e788473f4c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:42 +0000
Subject: [PATCH 65/65] fix: perplexity bandwidth was searched for between
 invalid bounds

---
 psdr/local_linear.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/psdr/local_linear.py b/psdr/local_linear.py
index 5115596..b4e987d 100644
--- a/psdr/local_linear.py
+++ b/psdr/local_linear.py
@@ -67,16 +67,19 @@ def perplexity_bandwidth(d, perplexity):
 	#perplexity = min(M, perplexity)
 
 	p1 = _compute_p1(M, perplexity)
+	# The perplexity only depends on the differences of the (squared) distances;
+	# shifting these prevents all the weights from underflowing
+	d = d - np.min(d)
 	# Compute upper and lower bounds of beta from [VC13, eq. (7) (8)]
-	# These are constants appearing the bounds
+	# These are constants appearing the bounds; note d contains squared distances
 	dM = np.max(d)
-	d1 = np.min(d[d>0])
+	d1 = np.min(d)
 	delta2 = d - d1
 	delta2 = np.min(delta2[delta2>0])
 	deltaM = dM - d1
 
 	# lower bound VC13 (7)
-	beta1 = max(M*np.log(M/perplexity)/((M-1)*deltaM), np.sqrt(np.log(M/perplexity)/(dM**4 - d1**4)))
+	beta1 = max(M*np.log(M/perplexity)/((M-1)*deltaM), np.sqrt(np.log(M/perplexity)/(dM**2 - d1**2)))
 	# upper bound VC13 (8)
 	beta2 = 1/delta2*np.log(p1/(1-p1)*(M - 1))
 	
-- 
2.43.0

