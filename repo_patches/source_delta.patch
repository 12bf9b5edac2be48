From 729b3e4b773ddf9608717d5da2bfdf717c6bff07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 01/39] fix: return a snapshot of the running mean, not the
 live buffer

---
 src/primate/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/stats.py b/src/primate/stats.py
index 2216d0c..237bbed 100644
--- a/src/primate/stats.py
+++ b/src/primate/stats.py
@@ -13,12 +13,12 @@ class Mean:
 	def __call__(self) -> Union[float, np.ndarray]:
 		if self.n == 0:
 			return np.nan
-		return self.mu.item() if self.dim == 1 else self.mu
+		return self.mu.item() if self.dim == 1 else self.mu.copy()
 
 	def mean(self) -> Union[float, np.ndarray]:
 		if self.n == 0:
 			return np.nan
-		return self.mu.item() if self.dim == 1 else self.mu
+		return self.mu.item() if self.dim == 1 else self.mu.copy()
 
 	def update(self, X: Union[float, np.ndarray]) -> None:
 		"""Update sample mean estimates based on new observations.
-- 
2.43.0


From 2c5775d5b001d627f7ff07431f1fcfe80b25bb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 02/39] fix: record copies of the samples so they don't alias
 the caller's buffer

---
 src/primate/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 1366d47..246a7de 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -138,7 +138,7 @@ class MeanEstimator(Estimator):
 			self.delta = self._mean.mu - old_mu
 		self.n_samples += x.shape[0]
 		if self.values is not None:
-			self.values.extend(x)
+			self.values.extend(x.copy())
 
 	@property
 	def estimate(self) -> Union[float, np.ndarray]:
-- 
2.43.0


From fbc226a84f17dcfea7157f132c7ca54b7c9c8bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 03/39] fix: t-scores of n samples use n - 1 degrees of freedom

---
 src/primate/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 246a7de..5659c5d 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -251,7 +251,7 @@ class ConfidenceCriterion(ConvergenceCriterion):
 		self.atol = 0.0 if atol is None else atol
 		self.rtol = 0.0 if rtol is None else rtol
 		self.z = 2 ** (1 / 2) * sp.special.erfinv(confidence)
-		self.t_scores = sp.stats.t.ppf((confidence + 1.0) / 2.0, df=np.arange(30) + 1)
+		self.t_scores = sp.stats.t.ppf((confidence + 1.0) / 2.0, df=np.maximum(np.arange(30) - 1, 1))
 		self.confidence = confidence
 
 	## Bulk update function, which keeps a running mean and
-- 
2.43.0


From f77c3fe7fb6912460e4045af5475a19a150f1c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 04/39] fix: fill single precision output arrays with
 Rademacher samples

---
 src/primate/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/random.py b/src/primate/random.py
index 7ee99fa..0a80f1a 100644
--- a/src/primate/random.py
+++ b/src/primate/random.py
@@ -20,7 +20,7 @@ _ISO_DISTRIBUTIONS = {
 
 ## NOTE: It's 2-3x faster to use the four ufuncs below than sign
 def _rademacher_inplace(rng: np.random.Generator, out: np.ndarray) -> None:
-	rng.random(out=out)
+	rng.random(out=out, dtype=out.dtype)
 	# np.subtract(out, 0.5, out=out)
 	# np.sign(out, out=out)
 	np.multiply(out, 2, out=out)  # [0, 2]
-- 
2.43.0


From de92673e2ce5b8bbc8ac6ea5c02197cd07863955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 05/39] fix: accept the builtin 'softsign' matrix function by
 name

---
 src/primate/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/special.py b/src/primate/special.py
index bf5c0ff..cab78aa 100644
--- a/src/primate/special.py
+++ b/src/primate/special.py
@@ -4,7 +4,7 @@ from typing import Any, Callable, Optional, Union
 import numpy as np
 
 ## Natively support matrix functions
-_BUILTIN_MATRIX_FUNCTIONS = ["identity", "abs", "sqrt", "log", "inv", "exp", "smoothstep", "numrank"]
+_BUILTIN_MATRIX_FUNCTIONS = ["identity", "abs", "sqrt", "log", "inv", "exp", "smoothstep", "softsign", "numrank"]
 
 
 def softsign(x: Optional[np.ndarray] = None, q: int = 1) -> Union[Callable, np.ndarray]:
-- 
2.43.0


From f1b397661ae14caa0b8a601b0c4290a075c4e5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 06/39] fix: forward maxiter to the tqli fallback of
 method='auto'

---
 src/primate/tridiag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/tridiag.py b/src/primate/tridiag.py
index 0430f9c..db66c6a 100644
--- a/src/primate/tridiag.py
+++ b/src/primate/tridiag.py
@@ -17,7 +17,7 @@ def _eigh_tridiag(d: np.ndarray, e: np.ndarray, Z: np.ndarray, method: str = "au
 			res = _eigh_tridiag(d, e, Z, method="mrrr")
 			return res
 		except np.linalg.LinAlgError:
-			return _eigh_tridiag(d, e, Z, method="tqli")
+			return _eigh_tridiag(d, e, Z, method="tqli", maxiter=maxiter)
 
 
 ## Note this issue: https://github.com/scipy/scipy/issues/13982
-- 
2.43.0


From c31f7b70454c5bfb8aecdb7cd73624873d469fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 07/39] fix: keep the complex symbol of non-symmetric Toeplitz
 operators

---
 src/primate/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index a9fb30b..0803d75 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -169,7 +169,7 @@ class Toeplitz(LinearOperator):
 		self.c = np.array(c)
 		self.r = np.array(c if r is None else r)
 		self._d = np.concatenate((self.c, [0], np.flip(self.r[1:])))
-		self._dfft = np.real(np.fft.fft(self._d))
+		self._dfft = np.fft.fft(self._d)
 		self._z = np.zeros(len(c) * 2)  # workspace
 		self.shape = (len(c), len(c))
 		self.dtype = dtype
-- 
2.43.0


From 26cb958dbab8b202304f6e037ff6f33e7759e49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 08/39] fix: do not write past the end of the degree-1
 orthogonal polynomial basis

---
 src/primate/fttr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primate/fttr.py b/src/primate/fttr.py
index 2f133a5..9950717 100644
--- a/src/primate/fttr.py
+++ b/src/primate/fttr.py
@@ -4,7 +4,8 @@ import numpy as np
 # pythran export ortho_poly(float, float, float[:], float[:], float[:], int)
 def ortho_poly(x: float, mu_sqrt_rec: float, a: np.ndarray, b: np.ndarray, z: np.ndarray, n: int):
 	z[0] = mu_sqrt_rec
-	z[1] = (x - a[0]) * z[0] / b[1]
+	if n > 1:
+		z[1] = (x - a[0]) * z[0] / b[1]
 	for i in range(2, n):
 		s = (x - a[i - 1]) / b[i]
 		t = -b[i - 1] / b[i]
-- 
2.43.0


From a6a82ce37bc6d755c6a48fb4ba57d1b8b323cdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 09/39] fix: honour the requested degree when quad='fttr'

---
 src/primate/integrate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/integrate.py b/src/primate/integrate.py
index 3609ac2..d562ba1 100644
--- a/src/primate/integrate.py
+++ b/src/primate/integrate.py
@@ -64,9 +64,9 @@ def quadrature(
 		tau = np.square(ev[0, :])
 	elif quad == "fttr":
 		## Uses the Forward Three Term Recurrence (FTTR) approach
-		theta = eigvalsh_tridiag(d, e, **kwargs)
+		theta = eigvalsh_tridiag(d[:deg], e[:deg], **kwargs)
 		tau = np.zeros(len(theta), dtype=theta.dtype)
-		fttr(theta, d, e, deg, tau)
+		fttr(theta, d[:deg], e[:deg], deg, tau)
 	else:
 		raise ValueError(f"Invalid quadrature method '{quad}' supplied")
 	if nodes is not None and weights is not None:
-- 
2.43.0


From e5365496a34de245b8de09a348ab5ad056de573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 10/39] fix: compute the implicit shift of tqli without
 dividing by zero

---
 src/primate/tqli.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/primate/tqli.py b/src/primate/tqli.py
index 7e5c736..638f56a 100644
--- a/src/primate/tqli.py
+++ b/src/primate/tqli.py
@@ -3,8 +3,8 @@ import numpy as np
 
 # pythran export sign(float, float)
 def sign(a: float, b: float):
-	# return 1 if b > 0 else (-1 if a < 0 else 1)
-	return int(b > 1) - int(a < 0) + 1
+	# Fortran SIGN: magnitude of a, sign of b
+	return abs(a) if b >= 0 else -abs(a)
 
 
 ## Based on: https://github.com/rappoccio/PHY410/blob/f6a183eb48807841f6d35be45b4aa845d905a04c/cpt_python/cpt.py#L438
@@ -57,8 +57,7 @@ def tqli(d: np.ndarray, e: np.ndarray, Z: np.ndarray, max_iter: int = 30):
 				ii += 1
 				g = (d[it + 1] - d[it]) / (2.0 * e[it])  # shift
 				r = np.hypot(g, 1.0)  # pythag
-				g = d[m] - d[it]
-				g += e[it] / (g + sign(r, g))  # dm - ks
+				g = d[m] - d[it] + e[it] / (g + sign(r, g))  # dm - ks
 				# g = d[m] - d[l] + e[l] if np.isclose(g + sign(r, g), 0.0) else (d[m] - d[l] + e[l] / (g + sign(r, g)))
 				s, c, p = 1.0, 1.0, 0.0
 				for i in range(m - 1, it - 1, -1):
-- 
2.43.0


From 17c18655cb7d13a82acb25eec2b9721b7e071eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 11/39] fix: finish the tqli sweep unless a rotation actually
 underflowed

---
 src/primate/tqli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/primate/tqli.py b/src/primate/tqli.py
index 638f56a..aca5928 100644
--- a/src/primate/tqli.py
+++ b/src/primate/tqli.py
@@ -60,6 +60,7 @@ def tqli(d: np.ndarray, e: np.ndarray, Z: np.ndarray, max_iter: int = 30):
 				g = d[m] - d[it] + e[it] / (g + sign(r, g))  # dm - ks
 				# g = d[m] - d[l] + e[l] if np.isclose(g + sign(r, g), 0.0) else (d[m] - d[l] + e[l] / (g + sign(r, g)))
 				s, c, p = 1.0, 1.0, 0.0
+				underflow = False
 				for i in range(m - 1, it - 1, -1):
 					## Plane rotation followed by Givens to restore tridiagonal
 					f, b = s * e[i], c * e[i]
@@ -68,6 +69,7 @@ def tqli(d: np.ndarray, e: np.ndarray, Z: np.ndarray, max_iter: int = 30):
 						# if abs(r) <= 2.2250738585072014e-128:
 						d[i + 1] -= p
 						e[m] = 0.0
+						underflow = True
 						break
 					s, c = (f / r, g / r)
 					g = d[i + 1] - p
@@ -80,7 +82,7 @@ def tqli(d: np.ndarray, e: np.ndarray, Z: np.ndarray, max_iter: int = 30):
 							f = Z[k][i + 1]
 							Z[k][i + 1] = s * Z[k][i] + c * f
 							Z[k][i] = c * Z[k][i] - s * f
-				if r == 0.0 and i >= it:
+				if underflow:
 					continue
 				d[it] -= p
 				e[it] = g
-- 
2.43.0


From be3cac609d057e130d15a5d1198d25d743572354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 12/39] fix: initialize the LinearOperator base class

---
 src/primate/operators.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index 0803d75..27ca822 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -57,8 +57,7 @@ class MatrixFunction(LinearOperator):
 	) -> None:
 		assert is_linear_op(A), "Invalid operator `A`; must be dim=2 symmetric operator with defined matvec"
 		assert deg >= 2, "Degree must be >= 2"
-		self.shape = A.shape
-		self.dtype = np.dtype(dtype)
+		super().__init__(np.dtype(dtype), A.shape)
 
 		## Parmaeterize function
 		fun = fun if fun is not None else lambda x: x
@@ -171,8 +170,7 @@ class Toeplitz(LinearOperator):
 		self._d = np.concatenate((self.c, [0], np.flip(self.r[1:])))
 		self._dfft = np.fft.fft(self._d)
 		self._z = np.zeros(len(c) * 2)  # workspace
-		self.shape = (len(c), len(c))
-		self.dtype = dtype
+		super().__init__(np.dtype(dtype), (len(c), len(c)))
 
 	## NOTE: We return a copy because the output cannot be a view
 	def _matvec(self, x: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 3241abd5b27864bd8e7a45a1938a2da0a3bed6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 13/39] fix: return a vector from the matrix function matvec

---
 src/primate/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index 27ca822..c78114a 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -120,7 +120,7 @@ class MatrixFunction(LinearOperator):
 		## TODO: call the lapack function with pre-allocated memory for extra speed
 		rw, Y = eigh_tridiag(self._alpha[: self._deg], self._beta[1 : self._deg])  # O(d^2) space
 		# return x_norm * self._Q @ Y @ (self._fun(rw) * Y[0, :])[:, np.newaxis]
-		return x_norm * self._Q @ Y @ (np.atleast_2d(self._fun(rw)) * Y[0, :]).T
+		return x_norm * self._Q @ Y @ np.ravel(self._fun(rw) * Y[0, :])
 
 	def quad(self, x: np.ndarray):
 		r"""Estimates the quadratic form using Lanczos quadrature.
-- 
2.43.0


From 714b2cf644edb2e0f822dddc869de71b9030f06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 14/39] fix: clear the Lanczos basis before every quadratic
 form

---
 src/primate/operators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index c78114a..fed74ec 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -144,6 +144,7 @@ class MatrixFunction(LinearOperator):
 		for j in range(x.shape[1]):
 			xc = x[:, j]
 			x_norm_sq = np.linalg.norm(xc) ** 2
+			self._Q.fill(0)  # this is necessary to prevent re-orthogonalizing against a previous basis
 			_lanczos.lanczos(self._A, xc, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)
 			quadrature(self._alpha, self._beta, deg=self._deg, quad="gw", nodes=self._nodes, weights=self._weights)
 			y[j] = np.sum(self._fun(self._nodes) * self._weights, axis=-1) * x_norm_sq
-- 
2.43.0


From c57e3ce93936b223eaea613f17cf100dd28c0317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 15/39] fix: discard stale Lanczos coefficients after an early
 breakdown

---
 src/primate/operators.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index fed74ec..facef57 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -67,8 +67,6 @@ class MatrixFunction(LinearOperator):
 		self._deg = min(deg, A.shape[0])
 		self._alpha = np.zeros(self._deg + 1, dtype=dtype)
 		self._beta = np.zeros(self._deg + 1, dtype=dtype)
-		self._nodes = np.zeros(self._deg, dtype=dtype)
-		self._weights = np.zeros(self._deg, dtype=dtype)
 
 		# ncv = kwargs.get("ncv", 3)
 		## NOTE: ncv is fixed to deg for matrix function to work
@@ -98,6 +96,11 @@ class MatrixFunction(LinearOperator):
 	def _adjoint(self):
 		return self
 
+	def _krylov_dim(self) -> int:
+		"""Number of Lanczos steps taken by the last expansion, which stops early at an invariant subspace."""
+		stopped = np.flatnonzero(self._beta[1 : self._deg] < np.sqrt(self.shape[0]) * self._rtol)
+		return self._deg if len(stopped) == 0 else int(stopped[0]) + 1
+
 	def _matvec(self, x: np.ndarray):
 		r"""Estimates the matrix-vector action using the Lanczos method.
 
@@ -116,11 +119,12 @@ class MatrixFunction(LinearOperator):
 		x = x.astype(self.dtype).reshape(-1)
 		x_norm = np.linalg.norm(x)
 		_lanczos.lanczos(self._A, x, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)
+		k = self._krylov_dim()
 
 		## TODO: call the lapack function with pre-allocated memory for extra speed
-		rw, Y = eigh_tridiag(self._alpha[: self._deg], self._beta[1 : self._deg])  # O(d^2) space
+		rw, Y = eigh_tridiag(self._alpha[:k], self._beta[1:k])  # O(d^2) space
 		# return x_norm * self._Q @ Y @ (self._fun(rw) * Y[0, :])[:, np.newaxis]
-		return x_norm * self._Q @ Y @ np.ravel(self._fun(rw) * Y[0, :])
+		return x_norm * self._Q[:, :k] @ Y @ np.ravel(self._fun(rw) * Y[0, :])
 
 	def quad(self, x: np.ndarray):
 		r"""Estimates the quadratic form using Lanczos quadrature.
@@ -146,8 +150,8 @@ class MatrixFunction(LinearOperator):
 			x_norm_sq = np.linalg.norm(xc) ** 2
 			self._Q.fill(0)  # this is necessary to prevent re-orthogonalizing against a previous basis
 			_lanczos.lanczos(self._A, xc, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)
-			quadrature(self._alpha, self._beta, deg=self._deg, quad="gw", nodes=self._nodes, weights=self._weights)
-			y[j] = np.sum(self._fun(self._nodes) * self._weights, axis=-1) * x_norm_sq
+			nodes, weights = quadrature(self._alpha, self._beta, deg=self._krylov_dim(), quad="gw")
+			y[j] = np.sum(self._fun(nodes) * weights, axis=-1) * x_norm_sq
 		return y
 
 
-- 
2.43.0


From 9c4745065768eacc3378b19cdc704a93f2a1d0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 16/39] fix: hutchpp draws at least one sample for operators
 with fewer than 3 rows

---
 src/primate/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 373f10e..6e51873 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -149,7 +149,7 @@ def hutchpp(
 
 	## Setup constants
 	nb = (N // 3) if m is None else m  # number of samples to dedicate to deflation
-	nb += nb % 3  # ensure nb divides by 3
+	nb = max(nb + (nb % 3), 1)  # ensure nb divides by 3
 	# maxiter: int = (N // 3) if maxiter == "auto" else int(maxiter)  # residual samples; default rule uses Hutch++ result
 	# assert nb % 3 == 0, "Number of samples must be divisible by 3"
 
-- 
2.43.0


From aa109c779930cc2970b1fc09322054db0c37dce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 17/39] fix: full output of hutchpp for operators with a quad
 method

---
 src/primate/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 6e51873..8ab0323 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -178,7 +178,7 @@ def hutchpp(
 		result = EstimatorResult()
 		result.estimate = tr_rng + tr_defl
 		result.nit = 2 * nb
-		result.samples = np.concatenate([rng_ests, defl_ests])
+		result.samples = np.concatenate([np.ravel(rng_ests), defl_ests])
 		return result.estimate, result
 
 
-- 
2.43.0


From b2870ab0d845a21cf60974c59500d5b8ce7e7ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 18/39] fix: hutchpp and diag accept a callable pdf as
 documented

---
 src/primate/diagonal.py | 2 +-
 src/primate/trace.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/diagonal.py b/src/primate/diagonal.py
index 0c7f167..bb9b06a 100644
--- a/src/primate/diagonal.py
+++ b/src/primate/diagonal.py
@@ -58,7 +58,7 @@ def diag(
 
 	## Parameterize the random vector generation
 	rng = np.random.default_rng(seed)
-	pdf = isotropic(pdf=pdf, seed=rng)
+	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
 	estimator = MeanEstimator(dim=N, covariance=False, record=record)
 	converge = convergence_criterion(converge, **kwargs)
 
diff --git a/src/primate/trace.py b/src/primate/trace.py
index 8ab0323..1e7244b 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -137,7 +137,7 @@ def hutchpp(
 
 	## Parameterize the random vector generation
 	rng = np.random.default_rng(seed)
-	pdf = isotropic(pdf=pdf, seed=rng)
+	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
 
 	## Prepare quadratic form evaluator
 	# quad_form = (lambda v: A.quad(v)) if hasattr(A, "quad") else (lambda v: (v.T @ (A @ v)).item())
-- 
2.43.0


From 71c12a360d5e03728cf722e4e743c499a58cd531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 19/39] fix: xtrace honours the caller's convergence criterion

---
 src/primate/trace.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 1e7244b..8378bc2 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -265,14 +265,13 @@ def xtrace(
 	n = A.shape[0]
 	callback = (lambda result: ...) if not callable(callback) else callback
 	record = kwargs.pop("record", False)
-	estimator = MeanEstimator(record=record)
+	estimator = MeanEstimator(covariance=True, record=record)
 
 	## Parameterize the convergence criteria
 	if converge == "default":
 		converge = CountCriterion(count=n)
 	else:
-		converge = CountCriterion(count=n)
-		converge |= convergence_criterion(converge, **kwargs)
+		converge = CountCriterion(count=n) | convergence_criterion(converge, **kwargs)
 	assert isinstance(converge, ConvergenceCriterion)
 
 	## Setup outputs. TODO: these should really be resizable arrays
@@ -305,7 +304,7 @@ def xtrace(
 		t_samples = _xtrace(W, Z, Q, R, R_inv, pdf)
 
 		## Test for convergence
-		estimator = MeanEstimator(record=record)  # degenerate approach since XTrace tracks this
+		estimator = MeanEstimator(covariance=True, record=record)  # degenerate approach since XTrace tracks this
 		estimator.update(t_samples.ravel())
 		callback(result)
 
-- 
2.43.0


From 1af0fd8ccd1ad77db68be78f4fb693d1d5abcf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 20/39] fix: xtrace rescales the residual quadratic forms of
 spherical samples

---
 src/primate/trace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 8378bc2..218e451 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -284,7 +284,7 @@ def xtrace(
 	## Commence the batch-iterations
 	result = EstimatorResult()
 	rng = np.random.default_rng(seed)
-	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
+	sampler = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
 	while not converge(estimator):
 		## Determine number of new sample vectors to generate
 		ns = min(A.shape[1] - W.shape[1], int(batch))
@@ -292,7 +292,7 @@ def xtrace(
 		## Sample a batch of random isotropic vectors
 		## TODO: replace with proper batch updates
 		## TODO: https://stackoverflow.com/questions/6042308/numpy-inverting-an-upper-triangular-matrix
-		N = pdf(size=(n, ns))  # 'new' vectors
+		N = sampler(size=(n, ns))  # 'new' vectors
 		Y = A @ N
 		for j in range(ns):
 			Q, R = qr_insert(Q, R, u=Y[:, j], k=Q.shape[1], which="col")  # rcond=FLOAT_MIN
-- 
2.43.0


From b111f849a6a7a96a6fe7e69d60e5bc62e15f8db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 21/39] fix: keep the result object of the estimators up to
 date

---
 src/primate/diagonal.py |  4 +++-
 src/primate/trace.py    | 10 +++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/primate/diagonal.py b/src/primate/diagonal.py
index bb9b06a..4ea8671 100644
--- a/src/primate/diagonal.py
+++ b/src/primate/diagonal.py
@@ -77,9 +77,11 @@ def diag(
 			numer += u * v.ravel()
 			denom += np.square(v.ravel())
 			estimator.update(np.atleast_2d(numer / denom))
+			result.estimate = estimator.estimate
+			result.nit += 1
 			if callback is not None:
 				callback(result)
-		result.estimate = estimator.estimate
+		result.message = converge.message(estimator)
 		return (estimator.estimate, result)
 	else:
 		numer, denom = np.zeros(N, dtype=f_dtype), np.zeros(N, dtype=f_dtype)
diff --git a/src/primate/trace.py b/src/primate/trace.py
index 218e451..3ee4168 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -107,6 +107,8 @@ def hutch(
 		while not converge(estimator):
 			v = pdf(size=(N, batch)).astype(f_dtype)
 			estimator.update(quad_form(v))
+			result.estimate = estimator.estimate
+			result.nit += 1
 			callback(result)
 		result.message = converge.message(estimator)
 		return (estimator.estimate, result)
@@ -306,9 +308,11 @@ def xtrace(
 		## Test for convergence
 		estimator = MeanEstimator(covariance=True, record=record)  # degenerate approach since XTrace tracks this
 		estimator.update(t_samples.ravel())
+		result.estimator = estimator
+		result.estimate = estimator.estimate
+		result.criterion = converge
+		result.nit += 1
 		callback(result)
 
-	result.estimator = estimator
-	result.estimate = estimator.estimate
-	result.criterion = converge
+	result.message = converge.message(estimator)
 	return (result.estimate, result) if full else result.estimate
-- 
2.43.0


From 19bc99d3e48efde51a7b48e303bd7805b5c47dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 22/39] fix: copy exactly the rows a Python operator returned,
 in order

---
 src/primate/include/pylinop.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primate/include/pylinop.h b/src/primate/include/pylinop.h
index 6f3d39f..be989e6 100644
--- a/src/primate/include/pylinop.h
+++ b/src/primate/include/pylinop.h
@@ -33,7 +33,8 @@ struct PyLinearOperator {
     auto ts = hr_clock::now(); 
     py_array< F > input({ static_cast<py::ssize_t>(_shape.second) }, inp);
     py::object matvec_out = _op.attr("matvec")(input);
-    py::array_t< F > output = matvec_out.cast< py::array_t< F > >();
+    py_array< F > output = matvec_out.cast< py_array< F > >(); // contiguous
+    if (static_cast< size_t >(output.size()) != _shape.first) { throw std::invalid_argument("Output of 'matvec' must match the number of rows of the operator."); }
     // std::copy(output.data(), output.data() + output.size(), out);
 		std::copy(output.data(), output.data() + _shape.first, out);
     matvec_time += duration_cast< us >(dur_seconds(hr_clock::now() - ts)).count();
-- 
2.43.0


From 02e832e25c52aee104cb2c1e83ce11de59d55c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 23/39] fix: reject buffers that are too small for the native
 Lanczos routine

---
 src/primate/_lanczos.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/primate/_lanczos.cpp b/src/primate/_lanczos.cpp
index 13cd1f3..ec9d091 100644
--- a/src/primate/_lanczos.cpp
+++ b/src/primate/_lanczos.cpp
@@ -91,6 +91,10 @@ void _lanczos_wrapper(py::module& m){
     py_array< F >& alpha, py_array< F >& beta, py_array< F >& Q 
   ){ 
     const auto op = Wrapper(A);
+    const std::pair< size_t, size_t > dim = op.shape();
+    if (dim.first != dim.second || size_t(v.size()) != dim.second){ throw std::invalid_argument("Operator must be square and match the starting vector."); }
+    if (lanczos_degree < 0 || size_t(alpha.size()) < size_t(lanczos_degree) + 1 || size_t(beta.size()) < size_t(lanczos_degree) + 1){ throw std::invalid_argument("Tridiagonal outputs must have length at least deg + 1."); }
+    if (Q.ndim() != 2 || size_t(Q.shape(0)) != dim.first || Q.shape(1) < std::min(lanczos_degree, 2) || Q.shape(1) < 1){ throw std::invalid_argument("Lanczos basis must have as many rows as the operator and at least two columns."); }
     const size_t ncv = static_cast< size_t >(Q.shape(1));
     lanczos_recurrence(
       op, v.mutable_data(), lanczos_degree, lanczos_rtol, orth, 
-- 
2.43.0


From 63b4f353e687d20c9bbe18938b11ba6414822dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 24/39] fix: never write the Lanczos outputs to a converted
 temporary

---
 src/primate/_lanczos.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primate/_lanczos.cpp b/src/primate/_lanczos.cpp
index ec9d091..ec16da3 100644
--- a/src/primate/_lanczos.cpp
+++ b/src/primate/_lanczos.cpp
@@ -100,7 +100,8 @@ void _lanczos_wrapper(py::module& m){
       op, v.mutable_data(), lanczos_degree, lanczos_rtol, orth, 
       alpha.mutable_data(), beta.mutable_data(), Q.mutable_data(), ncv
     );
-  });
+  }, py::arg("A"), py::arg("v"), py::arg("deg"), py::arg("rtol"), py::arg("orth"), 
+     py::arg("alpha").noconvert(), py::arg("beta").noconvert(), py::arg("Q").noconvert()); // outputs are written in-place
 } 
 
 PYBIND11_MODULE(_lanczos, m) {
-- 
2.43.0


From e9975e25b3a916b09190aace2a0a5d92549284ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 25/39] fix: allocate the Lanczos outputs in the requested
 precision

---
 src/primate/lanczos.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index d641026..226d59c 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -98,11 +98,11 @@ def lanczos(
 	assert len(v0) == A.shape[1], "Invalid starting vector; must match the number of columns of A."  # type: ignore
 
 	## Allocate the tridiagonal elements + lanczos vectors in column-major storage
-	alpha = kwargs.get("alpha", np.zeros(deg + 1, dtype=f_dtype))
-	beta = kwargs.get("beta", np.zeros(deg + 1, dtype=f_dtype))
-	Q = kwargs.get("Q", np.zeros((n, ncv), dtype=f_dtype, order="F"))
-	assert isinstance(alpha, np.ndarray) and len(alpha) == deg + 1 and alpha.dtype == f_dtype and alpha.flags["WRITEABLE"]
-	assert isinstance(beta, np.ndarray) and len(beta) == deg + 1 and beta.dtype == f_dtype and beta.flags["WRITEABLE"]
+	alpha = kwargs.get("alpha", np.zeros(deg + 1, dtype=dt))
+	beta = kwargs.get("beta", np.zeros(deg + 1, dtype=dt))
+	Q = kwargs.get("Q", np.zeros((n, ncv), dtype=dt, order="F"))
+	assert isinstance(alpha, np.ndarray) and len(alpha) == deg + 1 and alpha.dtype == dt and alpha.flags["WRITEABLE"]
+	assert isinstance(beta, np.ndarray) and len(beta) == deg + 1 and beta.dtype == dt and beta.flags["WRITEABLE"]
 	assert Q.ndim == 2 and Q.shape == (n, ncv) and Q.flags["F_CONTIGUOUS"] and Q.flags["WRITEABLE"] and Q.flags["OWNDATA"]
 
 	## Call the procedure
-- 
2.43.0


From c5cbeaa3b3083d154025ead5aa80b18bdd614e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 26/39] fix: control variate estimates of a single sample

---
 src/primate/estimators.py | 5 ++++-
 src/primate/stats.py      | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 5659c5d..6e8d939 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -170,7 +170,10 @@ class ControlVariableEstimator(MeanEstimator):
 		C = self.cov(ddof=1)
 		if self._estimate_cor:
 			C_01, C_11 = C[1:, 0], C[1:, 1:]
-			self.alpha = (C[0, 1] / C[1, 1]) if self.cov.dim == 2 else np.linalg.solve(C_11, C_01)
+			if self.n_samples < 2:
+				self.alpha = np.zeros(len(self.ecv))  # no correlation to exploit yet; use the plain mean
+			else:
+				self.alpha = (C[0, 1] / C[1, 1]) if self.cov.dim == 2 else np.linalg.solve(C_11, C_01)
 		# C_00, C_01, C_11 = C[0, 0], C[1:, 0], C[1:, 1:]
 		# C_inner = (C_00 - C_01**2 / C_11) if self.cov.dim == 2 else (C_00 - np.dot(C_01, np.linalg.solve(C_11, C_01)))
 		# SE = np.sqrt((1.0 / self.n_samples) * C_inner)
diff --git a/src/primate/stats.py b/src/primate/stats.py
index 237bbed..dbcca89 100644
--- a/src/primate/stats.py
+++ b/src/primate/stats.py
@@ -59,7 +59,7 @@ class Covariance(Mean):
 		"""
 		# assert ddof < self.n, f"Need more than {ddof} samples for ddof={ddof}"
 		if (self.n - ddof) <= 0:
-			return np.inf if self.dim else np.diag(np.inf, self.dim)
+			return np.inf if self.dim == 1 else np.full((self.dim, self.dim), np.inf)
 		cov = self.S / (self.n - ddof)
 		return cov.item() if self.dim == 1 else cov
 
-- 
2.43.0


From a8dbbe405b4ffcb5ad264cc4007050e1adcddf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 27/39] fix: control variate estimators track their last change
 and record samples

---
 src/primate/estimators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 6e8d939..3efd6b0 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -157,7 +157,7 @@ class ControlVariableEstimator(MeanEstimator):
 		self.cov = Covariance(dim=len(ecv) + 1)
 		self._estimate_cor = alpha is None
 		self.n_samples = 0
-		self.delta = np.inf
+		self.delta = np.full(shape=1, fill_value=np.inf)
 
 	def __len__(self) -> int:
 		return self.n_samples
@@ -165,6 +165,7 @@ class ControlVariableEstimator(MeanEstimator):
 	@typing.no_type_check
 	def update(self, samples: ArrayLike):
 		samples: np.ndarray = np.atleast_1d(samples)
+		old_estimate = self.estimate if self.n_samples > 0 else 0.0
 		self.cov.update(samples)  # type: ignore
 		self.n_samples = self.cov.n
 		C = self.cov(ddof=1)
@@ -174,6 +175,9 @@ class ControlVariableEstimator(MeanEstimator):
 				self.alpha = np.zeros(len(self.ecv))  # no correlation to exploit yet; use the plain mean
 			else:
 				self.alpha = (C[0, 1] / C[1, 1]) if self.cov.dim == 2 else np.linalg.solve(C_11, C_01)
+		self.delta = np.atleast_1d(self.estimate - old_estimate)
+		if self.values is not None:
+			self.values.extend(samples.copy())
 		# C_00, C_01, C_11 = C[0, 0], C[1:, 0], C[1:, 1:]
 		# C_inner = (C_00 - C_01**2 / C_11) if self.cov.dim == 2 else (C_00 - np.dot(C_01, np.linalg.solve(C_11, C_01)))
 		# SE = np.sqrt((1.0 / self.n_samples) * C_inner)
-- 
2.43.0


From 9d535fa04356c2b8d28e2c6b2348639def33fe51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 28/39] fix: clip prescribed eigenvalues of positive-definite
 random matrices

---
 src/primate/random.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primate/random.py b/src/primate/random.py
index 0a80f1a..43b65e7 100644
--- a/src/primate/random.py
+++ b/src/primate/random.py
@@ -175,6 +175,7 @@ def symmetric(
 	if ew is None:
 		ew = rng.uniform(size=n, low=0.0 if pd else -1.0, high=1.0)
 	ew = np.atleast_1d(ew)
+	ew = np.maximum(ew, np.finfo(np.float64).eps) if pd else ew
 	A = Q @ np.diag(ew) @ Q.T
 	A = (A + A.T) / 2
 	return A
-- 
2.43.0


From ebc00a7effa1bd4cc49d20a3ae4e3ca618b9cb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 29/39] fix: plot the true error when the reference value is
 known

---
 src/primate/plotting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primate/plotting.py b/src/primate/plotting.py
index ce0578a..12e32d8 100644
--- a/src/primate/plotting.py
+++ b/src/primate/plotting.py
@@ -147,7 +147,8 @@ def figure_error(
 
 	if mu is not None:
 		cum_abs_error = np.abs(mu - sample_avgs)
-		cum_rel_error = np.abs(mu - sample_avgs / mu)
+		cum_rel_error = cum_abs_error / np.abs(mu)
+		cum_error = cum_abs_error if absolute else cum_rel_error
 	else:
 		est = MeanEstimator(covariance=True)
 		cc = ConfidenceCriterion(confidence=0.95)
-- 
2.43.0


From eaa900dcb34c504bc8310ff39d0ea3a4465ab56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 30/39] fix: rayleigh_ritz uses the requested tridiagonal
 solver

---
 src/primate/lanczos.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index 226d59c..f821d05 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -148,6 +148,8 @@ def rayleigh_ritz(
 	assert deg > 0, "Number of steps must be positive!"
 
 	## Run the lanczos method
+	assert method.lower() in {"rrr", "mrrr", "tqli", "auto"}, f"Invalid tridiagonal solver '{method}'"
+	method = "mrrr" if method.lower() == "rrr" else method.lower()
 	deg = np.clip([deg], 2, n).item()
 	Q_basis = kwargs.pop("return_basis", False)
 	if Q_basis:
@@ -157,10 +159,10 @@ def rayleigh_ritz(
 
 	## Return Rayleigh-Ritz values, Ritz vectors Y (if requested), and Lanczos basis Q (if requested)
 	if return_eigenvectors:
-		rw, Y = eigh_tridiag(a, b)
+		rw, Y = eigh_tridiag(a, b, method=method)
 		return (rw, Y) if not Q_basis else (rw, Y, Q)
 	else:
-		rw = eigvalsh_tridiag(a, b)
+		rw = eigvalsh_tridiag(a, b, method=method)
 		return rw if not Q_basis else (rw, Q)
 
 
-- 
2.43.0


From 94de1391abba114d2424530eccb14e732f27c627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 31/39] fix: the knee criterion inspects the cumulative sample
 means

---
 src/primate/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 3efd6b0..e40ce0f 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -317,7 +317,7 @@ class KneeCriterion(ConvergenceCriterion):
 
 		## Extract the differences between the sample means
 		mv = np.array(est.values).ravel()
-		cum_sample_mean = mv / np.arange(1, len(mv) + 1)
+		cum_sample_mean = np.cumsum(mv) / np.arange(1, len(mv) + 1)
 		mu_cum_diffs = np.cumsum(np.abs(np.diff(cum_sample_mean)))
 
 		## Normalize to [0, 1], calculate difference curve
-- 
2.43.0


From a329534dcefb6f5c6c913dd05a37da385824f85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 32/39] fix: control variate estimator copies the caller's
 expectations and coefficients

---
 src/primate/estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index e40ce0f..ac2569f 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -147,10 +147,10 @@ class MeanEstimator(Estimator):
 
 class ControlVariableEstimator(MeanEstimator):
 	def __init__(self, ecv: Union[float, np.ndarray], alpha: Union[float, np.ndarray, None] = None, record: bool = False):
-		ecv: np.ndarray = np.atleast_1d(ecv).ravel()
+		ecv: np.ndarray = np.atleast_1d(ecv).flatten()
 		super().__init__(len(ecv), covariance=False, record=record)
 		if alpha is not None:
-			alpha: np.ndarray = np.atleast_1d(alpha).ravel()
+			alpha: np.ndarray = np.atleast_1d(alpha).flatten()
 			assert len(ecv) == len(alpha), "Coefficients alpha must have same length as the control variables."  # type: ignore
 		self.alpha = alpha
 		self.ecv = ecv
-- 
2.43.0


From 806da39cb9df382d5cc5133e424659af31daf35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:31 +0000
Subject: [PATCH 33/39] fix: result of a run that needs no iteration carries
 the returned estimate

---
 src/primate/diagonal.py | 2 +-
 src/primate/trace.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/diagonal.py b/src/primate/diagonal.py
index 4ea8671..435f9aa 100644
--- a/src/primate/diagonal.py
+++ b/src/primate/diagonal.py
@@ -69,7 +69,7 @@ def diag(
 	## Commence the Monte-Carlo iterations
 	if full or callback is not None:
 		numer, denom = np.zeros(N, dtype=f_dtype), np.zeros(N, dtype=f_dtype)
-		result = EstimatorResult(estimator, converge)
+		result = EstimatorResult(estimator, converge, estimator.estimate)
 
 		while not converge(estimator):
 			v = pdf(size=N).astype(f_dtype)
diff --git a/src/primate/trace.py b/src/primate/trace.py
index 3ee4168..36ed669 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -102,7 +102,7 @@ def hutch(
 
 	## Commence the Monte-Carlo iterations
 	if full or callback is not None:
-		result = EstimatorResult(estimator, converge)
+		result = EstimatorResult(estimator, converge, estimator.estimate)
 		callback = (lambda x: x) if callback is None else callback
 		while not converge(estimator):
 			v = pdf(size=(N, batch)).astype(f_dtype)
-- 
2.43.0


From 5e1c5e8a35e049b9ea3d16b8de07d5013556b5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 34/39] fix: weights of the fttr rule whose nodes are all zero

---
 src/primate/fttr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primate/fttr.py b/src/primate/fttr.py
index 9950717..ca611f1 100644
--- a/src/primate/fttr.py
+++ b/src/primate/fttr.py
@@ -22,6 +22,8 @@ def fttr(theta: np.ndarray, alpha: np.ndarray, beta: np.ndarray, k: int, weights
 	"""
 	n = len(alpha)
 	mu_0 = np.sum(np.abs(theta[:k]))
+	if mu_0 == 0.0:  # the weights do not depend on the scale
+		mu_0 = 1.0
 	mu_sqrt_rec = 1.0 / np.sqrt(mu_0)
 	p = np.zeros(n)
 	for i in range(k):
-- 
2.43.0


From 250538c398ea7897720e17c56d147e85e319a920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 35/39] fix: quadrature fills an output array given on its own

---
 src/primate/integrate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/primate/integrate.py b/src/primate/integrate.py
index d562ba1..0616b77 100644
--- a/src/primate/integrate.py
+++ b/src/primate/integrate.py
@@ -69,8 +69,8 @@ def quadrature(
 		fttr(theta, d[:deg], e[:deg], deg, tau)
 	else:
 		raise ValueError(f"Invalid quadrature method '{quad}' supplied")
-	if nodes is not None and weights is not None:
-		assert len(nodes) == deg and len(weights) == deg, "`nodes` and `weights` output arrays must be `deg` in length."
-		np.copyto(nodes, theta)
-		np.copyto(weights, tau)
+	outputs = [(out, res) for out, res in ((nodes, theta), (weights, tau)) if out is not None]
+	assert all(len(out) == deg for out, _ in outputs), "`nodes` and `weights` output arrays must be `deg` in length."
+	for out, res in outputs:
+		np.copyto(out, res)
 	return theta, tau
-- 
2.43.0


From 59277b0a3819375a1aebd1bfee8a0e43df18c835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 36/39] fix: MatrixFunction honours the rtol option

---
 src/primate/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index facef57..cc2869e 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -73,7 +73,7 @@ class MatrixFunction(LinearOperator):
 		## NOTE: todo, change this to not allocate in-case quad is used
 		self._Q = np.zeros((A.shape[0], self._deg), dtype=dtype, order="F")
 		assert self._Q.flags["F_CONTIGUOUS"] and self._Q.flags["WRITEABLE"] and self._Q.flags["OWNDATA"]
-		self._rtol = 1e-8
+		self._rtol = kwargs.get("rtol", 1e-8)
 		self._orth = self._deg if orth < 0 or orth > self._deg else orth
 		self._A = A
 
-- 
2.43.0


From 2e7b374970407b2458d029bc006ef770ad361fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:11 +0000
Subject: [PATCH 37/39] fix: hutch passes criterion options to its default
 criterion

---
 src/primate/trace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 36ed669..e9977d6 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -87,8 +87,8 @@ def hutch(
 	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
 	estimator = MeanEstimator(covariance=True, record=kwargs.pop("record", False))
 	if converge == "default":
-		cc1 = CountCriterion(count=200)
-		cc2 = ConfidenceCriterion(confidence=0.95, atol=1.0, rtol=0.0)
+		cc1 = convergence_criterion("count", **{"count": 200, **kwargs})
+		cc2 = convergence_criterion("confidence", **{"confidence": 0.95, "atol": 1.0, "rtol": 0.0, **kwargs})
 		converge = cc1 | cc2
 	else:
 		converge = convergence_criterion(converge, **kwargs)
-- 
2.43.0


From 09267b4fbe605b4fd54934055230cc5c4cde4591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:56 +0000
Subject: [PATCH 38/39] fix: figure_sequence leaves out missing samples from
 the scatter as from the averages

---
 src/primate/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/plotting.py b/src/primate/plotting.py
index 12e32d8..1855b80 100644
--- a/src/primate/plotting.py
+++ b/src/primate/plotting.py
@@ -77,7 +77,7 @@ def figure_sequence(estimator: Union[Estimator, Sequence], mu: Optional[float] =
 	fig_kwargs = dict(width=400, height=300, title=fig_title)
 	p = figure(**(fig_kwargs | kwargs))
 	p.toolbar_location = None
-	p.scatter(sample_index, sample_vals, size=4.0, color="gray", legend_label="samples")
+	p.scatter(sample_index, sample_vals[valid_samples], size=4.0, color="gray", legend_label="samples")
 	p.title.align = "center"
 	p.legend.location = "top_left"
 	p.yaxis.axis_label = "Estimates"
-- 
2.43.0


From 22cc3a738d191edd633c360ff6bf8ac0bb4b15fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:56 +0000
Subject: [PATCH 39/39] fix: figures of an estimator that recorded nothing fail
 with the message meant for it

---
 src/primate/plotting.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/primate/plotting.py b/src/primate/plotting.py
index 1855b80..bb9e6f2 100644
--- a/src/primate/plotting.py
+++ b/src/primate/plotting.py
@@ -65,6 +65,11 @@ def figure_sequence(estimator: Union[Estimator, Sequence], mu: Optional[float] =
 	from bokeh.models import Span
 	from bokeh.plotting import figure
 
+	if isinstance(estimator, Estimator):
+		assert (
+			getattr(estimator, "values", None) is not None
+		), "Estimator does not have values attached! Did you pass 'record=True' to the estimation call?"
+
 	# ## Extract samples and take averages
 	sample_vals = np.ravel(estimator.values) if isinstance(estimator, Estimator) else np.array(estimator).ravel()
 	valid_samples = ~np.isnan(sample_vals)
@@ -126,8 +131,8 @@ def figure_error(
 	from bokeh.plotting import figure
 
 	if isinstance(estimator, Estimator):
-		assert hasattr(
-			estimator, "values"
+		assert (
+			getattr(estimator, "values", None) is not None
 		), "Estimator does not have values attached! Did you pass 'record=True' to the estimation call?"
 		sample_vals = np.ravel(estimator.values)
 	else:
-- 
2.43.0

