From b0d6ba7846d161941f2b59fe5d2c97e2e863e460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:32 +0000
Subject: [PATCH 01/56] fix: spectral matrix exponential of matrices without
 orthogonal eigenvectors

---
 qopt/matrix.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index c77968d..1619be8 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -992,13 +992,16 @@ class DenseOperator(OperatorMatrix):
         if is_skew_hermitian:
             eig_val, eig_vec = np.linalg.eigh(-1j * self.data)
             eig_val = 1j * eig_val
+            eig_vec_inv = eig_vec.conj().T
         else:
+            # the eigenvectors of a general matrix are not orthogonal
             eig_val, eig_vec = np.linalg.eig(self.data)
+            eig_vec_inv = np.linalg.inv(eig_vec)
 
         # apply the exponential function to the eigenvalues and invert the
         # diagonalization transformation
-        exp = np.einsum('ij,j,kj->ik', eig_vec, np.exp(tau * eig_val),
-                        eig_vec.conj())
+        exp = np.einsum('ij,j,jk->ik', eig_vec, np.exp(tau * eig_val),
+                        eig_vec_inv)
 
         return DenseOperator(exp)
 
-- 
2.43.0


From 34ccc7f03cb808af11a1a1f98f17563a03044b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:32 +0000
Subject: [PATCH 02/56] fix: spectral Frechet derivative used the wrong basis
 and failed for degenerate eigenvalues

---
 qopt/matrix.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index 1619be8..9ce16a3 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -1041,29 +1041,30 @@ class DenseOperator(OperatorMatrix):
         if is_skew_hermitian:
             eig_val, eig_vec = np.linalg.eigh(-1j * self.data)
             eig_val = 1j * eig_val
+            eig_vec_inv = eig_vec.conj().T
         else:
+            # the eigenvectors of a general matrix are not orthogonal
             eig_val, eig_vec = np.linalg.eig(self.data)
-
-        eig_vec_dag = eig_vec.conj().T
+            eig_vec_inv = np.linalg.inv(eig_vec)
 
         eig_val_cols = eig_val * np.ones(self.shape)
         eig_val_diffs = eig_val_cols - eig_val_cols.T
 
-        # avoid devision by zero
-        eig_val_diffs += np.eye(self.data.shape[0])
-
-        omega = (np.exp(eig_val_diffs * tau) - 1.) / eig_val_diffs
+        # avoid devision by zero for the diagonal and degenerate eigenvalues
+        exponents = eig_val_diffs * tau
+        degenerate = exponents == 0
+        exponents[degenerate] = 1.
 
-        # override the false diagonal elements.
-        np.fill_diagonal(omega, tau)
+        omega = tau * np.expm1(exponents) / exponents
+        omega[degenerate] = tau
 
-        direction_transformed = eig_vec @ direction.data @ eig_vec_dag
+        direction_transformed = eig_vec_inv @ direction.data @ eig_vec
         dk_dalpha = direction_transformed * omega
 
         exp = np.einsum('ij,j,jk->ik', eig_vec, np.exp(tau * eig_val),
-                        eig_vec_dag)
+                        eig_vec_inv)
         # einsum might be less accurate than the @ operator
-        dv_dalpha = eig_vec_dag @ dk_dalpha @ eig_vec
+        dv_dalpha = eig_vec @ dk_dalpha @ eig_vec_inv
         du_dalpha = exp @ dv_dalpha
 
         if compute_expm:
-- 
2.43.0


From 7bdd88c237add9d3f8e0a7baab9fc352de3e71e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:32 +0000
Subject: [PATCH 03/56] fix: rescale truncated bra and ket vectors

---
 qopt/matrix.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index 9ce16a3..a013d69 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -1299,12 +1299,12 @@ class DenseOperator(OperatorMatrix):
             # bra-vector
             out = type(self)(self.data[np.ix_([0], subspace_indices)])
             if map_to_closest_unitary:
-                out *= 1 / out.norm('fre')
-        elif self.shape[0] == 1:
+                out *= 1 / out.norm('fro')
+        elif self.shape[1] == 1:
             # ket-vector
             out = type(self)(self.data[np.ix_(subspace_indices, [0])])
             if map_to_closest_unitary:
-                out *= 1 / out.norm('fre')
+                out *= 1 / out.norm('fro')
         else:
             out = type(self)(self.data[np.ix_(subspace_indices)])
 
-- 
2.43.0


From 496ca7e3da2f06424cbeb526077e24123509f5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:32 +0000
Subject: [PATCH 04/56] fix: keep the subsystem order in the partial trace and
 allow tracing none or all

---
 qopt/matrix.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index a013d69..7c25757 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -926,9 +926,9 @@ class DenseOperator(OperatorMatrix):
         n_dim = len(dims)  # number of subspaces
         dims = np.asarray(dims, dtype=int)
 
-        remove = list(np.sort(remove))
+        remove = sorted(remove)
         # indices of subspace that are kept
-        keep = list(set(np.arange(n_dim)) - set(remove))
+        keep = sorted(set(range(n_dim)) - set(remove))
 
         dims_rm = (dims[remove]).tolist()
         dims_keep = (dims[keep]).tolist()
@@ -946,10 +946,10 @@ class DenseOperator(OperatorMatrix):
         pmat = np.trace(mat.reshape(dims + dims)
                            .transpose(remove + [n_dim + q for q in remove] +
                                       keep + [n_dim + q for q in keep])
-                           .reshape([np.prod(dims_rm),
-                                    np.prod(dims_rm),
-                                    np.prod(dims_keep),
-                                    np.prod(dims_keep)])
+                           .reshape([np.prod(dims_rm, dtype=int),
+                                    np.prod(dims_rm, dtype=int),
+                                    np.prod(dims_keep, dtype=int),
+                                    np.prod(dims_keep, dtype=int)])
                         )
 
         if do_copy:
-- 
2.43.0


From 44a34d2066261ccb27167ab47bb4a3780bb2634a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:32 +0000
Subject: [PATCH 05/56] fix: create dense operators from Qobj of current qutip
 versions

---
 qopt/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index 7c25757..be758ea 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -702,7 +702,7 @@ class DenseOperator(OperatorMatrix):
         super().__init__()
         self.data = None
         if type(obj) is Qobj:
-            self.data = np.array(obj.data.todense())
+            self.data = np.array(obj.full())
         elif type(obj) is np.ndarray:
             self.data = obj
         elif type(obj) is sp.csr_matrix:
-- 
2.43.0


From 60be0e3ad86e1c508c83e9adec6f86776c37b716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:32 +0000
Subject: [PATCH 06/56] fix: product of a numpy array with an operator from the
 left

---
 qopt/matrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index be758ea..de3a6c2 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -695,6 +695,9 @@ class DenseOperator(OperatorMatrix):
 
     """
 
+    # let numpy arrays defer to __rmul__ in array * operator
+    __array_priority__ = 1000
+
     def __init__(
             self,
             obj: Union[Qobj, np.ndarray, sp.csr_matrix, 'DenseOperator']) \
-- 
2.43.0


From ecb512d450b8c5cb81554049c325250444cf6a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:05 +0000
Subject: [PATCH 07/56] fix: index order of the grape approximated propagator
 derivatives

---
 qopt/solver_algorithms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 5ce5f68..fd1cbe0 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -966,12 +966,13 @@ class SchroedingerSolver(Solver):
             if self._prop is None:
                 self._compute_propagation(
                     calculate_propagator_derivatives=False)
-            self._derivative_prop = [[None for _ in range(len(self.h_ctrl))]
-                                     for _2 in range(len(self.transferred_time))]
+            self._derivative_prop = [
+                [None for _ in range(len(self.transferred_time))]
+                for _2 in range(len(self.h_ctrl))]
             derivative_directions = self._compute_derivative_directions()
             for t in range(len(self.transferred_time)):
                 for ctrl in range(len(self.h_ctrl)):
-                    self._derivative_prop[t][ctrl] = \
+                    self._derivative_prop[ctrl][t] = \
                         self.transferred_time[t] * derivative_directions[t][ctrl] \
                         * self._prop[t]
         else:
-- 
2.43.0


From 4ab6e3c4f3d841323c486ab8c28859e6fedd6aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:05 +0000
Subject: [PATCH 08/56] fix: rejected or later modified optimization parameters
 corrupt the solver state

---
 qopt/solver_algorithms.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index fd1cbe0..3830eaa 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -373,19 +373,19 @@ class Solver(ABC):
 
         if np.array_equal(self._opt_pars, y):
             return
-        else:
-            self._opt_pars = np.copy(y)
+
+        # the copy decouples the solver from later changes of y
+        opt_pars = np.copy(y)
 
         if self.transfer_function is not None:
-            self.transferred_parameters = self.transfer_function(y)
+            transferred_parameters = self.transfer_function(opt_pars)
         else:
-            self.transferred_parameters = np.copy(y)
+            transferred_parameters = opt_pars
 
         if self.amplitude_function is not None:
-            u = self.amplitude_function(
-                self.transferred_parameters)
+            u = self.amplitude_function(transferred_parameters)
         else:
-            u = self.transferred_parameters
+            u = transferred_parameters
 
         if len(u.shape) != 2:
             raise ValueError('The new control amplitudes must have two '
@@ -400,6 +400,9 @@ class Solver(ABC):
             raise ValueError('The new control amplitudes do not have the '
                              'correnct number of entries on the control axis!')
 
+        # nothing is stored before the parameters have been accepted
+        self._opt_pars = opt_pars
+        self.transferred_parameters = transferred_parameters
         self._ctrl_amps = u
         self.reset_cached_propagators()
 
-- 
2.43.0


From 29a0cbf4ca290dbe20de79f45c2ad40861ceb728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:05 +0000
Subject: [PATCH 09/56] fix: recalculate the control amplitudes when the times
 change

---
 qopt/solver_algorithms.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 3830eaa..386370c 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -355,6 +355,15 @@ class Solver(ABC):
         self.transferred_time = self.transfer_function.x_times
         self.reset_cached_propagators()
 
+        if self._opt_pars is not None:
+            # the transferred parameters can depend on the times
+            opt_pars, self._opt_pars = self._opt_pars, None
+            if len(opt_pars) == len(tau):
+                self.set_optimization_parameters(opt_pars)
+            else:
+                self.transferred_parameters = None
+                self._ctrl_amps = None
+
     def set_optimization_parameters(self, y: np.array) -> None:
         """
         Set the control amplitudes.
-- 
2.43.0


From a42d06ed09df59bda49f0d1a15bd294e764f7b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:05 +0000
Subject: [PATCH 10/56] fix: do not modify the dissipation super operators of
 the user

---
 qopt/solver_algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 386370c..2b42533 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -1931,7 +1931,7 @@ class LindbladSolver(SchroedingerSolver):
                                    factor_at_time_t[1:]):
                         self._diss_sup_op[-1] += sup_op * factor
             else:
-                self._diss_sup_op = [const_diss_sup_op[0], ]
+                self._diss_sup_op = [const_diss_sup_op[0].copy(), ]
                 for sup_op in const_diss_sup_op[1:]:
                     self._diss_sup_op[0] += sup_op
                 self._diss_sup_op *= len(self.transferred_time)
-- 
2.43.0


From baf0d6e4a14f77dda2475fa97eef6c8885d03c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:05 +0000
Subject: [PATCH 11/56] fix: filter function noise Hamiltonian of the Monte
 Carlo solver

---
 qopt/solver_algorithms.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 2b42533..f649145 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -1479,7 +1479,13 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
         if type(self._filter_function_h_n) == list:
             h_n = self._filter_function_h_n
         else:
-            h_n = self._filter_function_h_n(self._opt_pars)
+            try:
+                h_n = self._filter_function_h_n(
+                    self._opt_pars, self.transferred_parameters,
+                    self._ctrl_amps)
+            except TypeError:
+                # old interface
+                h_n = self._filter_function_h_n(self._opt_pars)
 
         if not h_n:
             h_n = []
@@ -1488,6 +1494,7 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
                     noise_operator = noise_operator.data
                 h_n += [[noise_operator, len(self.transferred_time) * [1], 'Noise' + str(i)], ]
 
+        self.filter_function_n_oper_identifiers = [term[2] for term in h_n]
         return h_n
 
 
-- 
2.43.0


From 386aaaf454aa4d0a79efed8ff9979f197912332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:05 +0000
Subject: [PATCH 12/56] fix: propagation without drift Hamiltonian

---
 qopt/solver_algorithms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index f649145..27fdbd4 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -330,6 +330,8 @@ class Solver(ABC):
             self.h_drift = [h_drift, ] * self.transfer_function.num_x
         elif len(h_drift) == 1:
             self.h_drift = h_drift * self.transfer_function.num_x
+        elif len(h_drift) == 0:
+            self.h_drift = [0 * h_ctrl[0], ] * self.transfer_function.num_x
         else:
             self.h_drift = h_drift
 
-- 
2.43.0


From 79c2c3157719df709aacfac344c0316bad0b95b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 13/56] fix: gradients of the convolution transfer functions

---
 qopt/transfer_function.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index d1ccc38..044a098 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -761,11 +761,18 @@ class ConvolutionTF(TransferFunction):
         assert shape[2] == self.num_ctrls
         assert deriv_by_transferred_par.dtype in [np.float64, np.float32]
 
-        return scipy.ndimage.convolve(
-            deriv_by_transferred_par,
-            weights=np.expand_dims(self.kernel, axis=1),
-            cval=self.cval
+        # the response of the transferred to each raw optimization parameter
+        unit_pulses = np.eye(self._num_y * self.num_ctrls)
+        unit_pulses = unit_pulses.reshape(
+            (-1, self._num_y, self.num_ctrls))
+        response = scipy.ndimage.convolve(
+            unit_pulses,
+            weights=np.expand_dims(self.kernel, axis=0),
+            mode=self.mode, cval=0.
         )
+        response = response.reshape((self._num_y, self.num_ctrls)
+                                    + response.shape[1:])
+        return np.einsum('jlik,ifk->jfl', response, deriv_by_transferred_par)
 
     @property
     def transfer_matrix(self) -> np.array:
@@ -890,10 +897,12 @@ class GaussianConvolution(TransferFunction):
         assert shape[2] == self.num_ctrls
         assert deriv_by_transferred_par.dtype in [np.float64, np.float32]
 
-        return scipy.ndimage.gaussian_filter1d(
-            deriv_by_transferred_par, self.sigma, axis=0, order=self.order,
+        # the response of the transferred to each raw optimization parameter
+        response = scipy.ndimage.gaussian_filter1d(
+            np.eye(self._num_y), self.sigma, axis=0, order=self.order,
             mode=self.mode, truncate=self.truncate
         )
+        return np.einsum('ij,ifk->jfk', response, deriv_by_transferred_par)
 
     @property
     def transfer_matrix(self) -> np.array:
-- 
2.43.0


From dd52d54ccc4ac8bf2812ef7d9e3db6ded46aeaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 14/56] fix: transfer matrices are outdated after the times
 have been changed

---
 qopt/transfer_function.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index 044a098..6cffea1 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1072,6 +1072,12 @@ class ParallelTF(TransferFunction):
 
 class MatrixTF(TransferFunction):
 
+    def set_times(self, y_times: np.ndarray) -> None:
+        """See base class. """
+        # the transfer matrix depends on the times
+        self._transfer_matrix = None
+        super().set_times(y_times)
+
     def __call__(self, y: np.array) -> np.array:
         """Calculate the transferred optimization parameters (x).
 
@@ -1304,6 +1310,7 @@ class ParallelMTF(MatrixTF):
         """See base class. """
         self.tf1.set_times(y_times)
         self.tf2.set_times(y_times)
+        self._transfer_matrix = None
         self._num_y = self.tf1._num_y
         self._y_times = self.tf1._y_times
         self.num_x = self.tf1.num_x
@@ -1392,7 +1399,8 @@ class CustomMTF(MatrixTF):
                 raise ValueError('Unknown boundary type:'
                                  + str(self.bound_type[0]))
             self.oversampling = int(self.oversampling)
-            super().set_times(y_times)
+            # the custom transfer matrix is kept
+            TransferFunction.set_times(self, y_times)
         else:
             y_times = np.squeeze(y_times)
             self.x_times = y_times
-- 
2.43.0


From ed4e9aec88bef0f3db7f35ed304e5be811e41ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 15/56] fix: call and gradient of concatenated matrix transfer
 functions

---
 qopt/transfer_function.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index 6cffea1..1586898 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1250,6 +1250,19 @@ class ConcatenateMTF(MatrixTF):
         """Calls the plot_pulse routine of the second transfer function."""
         self.tf2.plot_pulse(self.tf1(y))
 
+    def __call__(self, y: np.ndarray) -> np.ndarray:
+        """Calls the concatenated transfer functions in sequence."""
+        self._check_dimensions_datatype(y)
+        return self.tf2(self.tf1(y))
+
+    def gradient_chain_rule(
+            self, deriv_by_transferred_par: np.ndarray) -> np.ndarray:
+        """Applies the concatenation formula for both transfer functions."""
+        intermediate_gradient = self.tf2.gradient_chain_rule(
+            deriv_by_transferred_par=deriv_by_transferred_par)
+        return self.tf1.gradient_chain_rule(
+            deriv_by_transferred_par=intermediate_gradient)
+
     def _calculate_transfer_matrix(self):
         """See base class. """
         self.tf1._calculate_transfer_matrix()
-- 
2.43.0


From 48e9a26dc7d2577d28874a54df29c9ec377d3b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 16/56] fix: offsets of parallel matrix transfer functions

---
 qopt/transfer_function.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index 1586898..7182f3c 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1314,6 +1314,14 @@ class ParallelMTF(MatrixTF):
             raise ValueError("The parallized transfer functions must have the "
                              "same oversampling.")
 
+    def __call__(self, y: np.ndarray) -> np.ndarray:
+        """See base class. Includes the offsets of both transfer functions."""
+        self._check_dimensions_datatype(y)
+        return np.concatenate(
+            (self.tf1(y[:, :self.tf1.num_ctrls]),
+             self.tf2(y[:, self.tf1.num_ctrls:])),
+            axis=1)
+
     def _calculate_transfer_matrix(self):
         """See base class. """
         self._transfer_matrix = np.concatenate(
-- 
2.43.0


From 17f05fb5c803f27231945ce2d1d48ca2a2eaac7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 17/56] fix: times of custom transfer functions

---
 qopt/transfer_function.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index 7182f3c..26b3d58 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1388,6 +1388,7 @@ class CustomMTF(MatrixTF):
         self._num_y = transfer_matrix.shape[1]
         self.num_x = transfer_matrix.shape[0]
         self.x_times = x_times
+        self._x_times_given = x_times is not None
         self.bound_type = bound_type
         self.oversampling = oversampling
 
@@ -1398,7 +1399,7 @@ class CustomMTF(MatrixTF):
 
     def set_times(self, y_times: np.ndarray) -> None:
         """See base class."""
-        if self.x_times is None:
+        if not self._x_times_given:
             # construct the oversampling
             if self.bound_type is None:
                 # assume no padding
@@ -1423,11 +1424,11 @@ class CustomMTF(MatrixTF):
             # the custom transfer matrix is kept
             TransferFunction.set_times(self, y_times)
         else:
-            y_times = np.squeeze(y_times)
-            self.x_times = y_times
+            y_times = np.atleast_1d(np.squeeze(y_times))
             if len(y_times) != self._num_y:
                 raise ValueError('Trying to set x_times, which do not fit the'
                                  'dimension of the transfer function.')
+            self._y_times = y_times
 
     def _calculate_transfer_matrix(self):
         """See base class. """
-- 
2.43.0


From 2e9c0b04b8bf6ac17dff1ed0f561fa40718b553a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 18/56] fix: exponential transfer function for a single time
 step

---
 qopt/transfer_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index 26b3d58..76f49a8 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1560,7 +1560,7 @@ class ExponentialMTF(MatrixTF):
 
         # for the padding at the beginning
         dudx[0:self.oversampling, 0] = one_minus_exp
-        if self.num_x > self.oversampling:
+        if self._num_y > 1:
             dudx[self.oversampling:2 * self.oversampling, 0] = exp
 
         # main part
-- 
2.43.0


From f27ae287310c349d5f0b60c9398814449c33edd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:54 +0000
Subject: [PATCH 19/56] fix: amplitudes were truncated to integers if the first
 function value was an integer

---
 qopt/amplitude_functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qopt/amplitude_functions.py b/qopt/amplitude_functions.py
index 832a94c..8044ee0 100644
--- a/qopt/amplitude_functions.py
+++ b/qopt/amplitude_functions.py
@@ -158,8 +158,9 @@ class UnaryAnalyticAmpFunc(AmplitudeFunction):
     def __init__(self,
                  value_function: Callable[[float, ], float],
                  derivative_function: Callable[[float, ], float]):
-        self.value_function = np.vectorize(value_function)
-        self.derivative_function = np.vectorize(derivative_function)
+        self.value_function = np.vectorize(value_function, otypes=[float])
+        self.derivative_function = np.vectorize(derivative_function,
+                                                otypes=[float])
 
     def __call__(self, x: np.ndarray) -> np.ndarray:
         """See base class. """
-- 
2.43.0


From 93b919286ba6f1e22dc6f4dbf742fff1b59933a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 20/56] fix: normalization of the one dimensional bell curve

---
 qopt/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/noise.py b/qopt/noise.py
index bc81527..8c4492b 100644
--- a/qopt/noise.py
+++ b/qopt/noise.py
@@ -97,7 +97,7 @@ def bell_curve_1dim(x: Union[np.ndarray, float],
         Function values.
 
     """
-    normalization_factor = 1 / 2 / np.pi / stdx
+    normalization_factor = 1 / np.sqrt(2 * np.pi) / stdx
     exponential = np.exp(-.5 * ((x / stdx) ** 2))
     return normalization_factor * exponential
 
-- 
2.43.0


From 3b6c780b1ca2f0c105f840ecdec63f5db3ca4ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 21/56] fix: do not modify the standard deviations of the user

---
 qopt/noise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qopt/noise.py b/qopt/noise.py
index 8c4492b..fbde9c5 100644
--- a/qopt/noise.py
+++ b/qopt/noise.py
@@ -443,7 +443,8 @@ class NTGQuasiStatic(NoiseTraceGenerator):
                          n_traces=n_traces,
                          n_noise_operators=n_noise_operators,
                          always_redraw_samples=always_redraw_samples)
-        self.standard_deviation = standard_deviation
+        # do not rescale the values of the user below
+        self.standard_deviation = list(standard_deviation)
         self.sampling_mode = sampling_mode
 
         if correct_std_for_discrete_sampling:
-- 
2.43.0


From d3d0b4b46a8a14f4dc143666709a2cf23409c046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 22/56] fix: standard deviation of quasi static noise on
 multiple operators

---
 qopt/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/noise.py b/qopt/noise.py
index fbde9c5..d9a44af 100644
--- a/qopt/noise.py
+++ b/qopt/noise.py
@@ -455,7 +455,7 @@ class NTGQuasiStatic(NoiseTraceGenerator):
                 for i in range(len(self.standard_deviation)):
                     samples = sample_1dim_gaussian_distribution(
                         std=self.standard_deviation[i],
-                        n_samples=self.n_traces
+                        n_samples=self._n_traces
                     )
                     actual_std = np.std(samples)
                     if actual_std < 1e-20:
-- 
2.43.0


From 153c9d00cf7ca65721f45124ef53a897bc9aae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 23/56] fix: round the number of noise samples downwards to a
 power of two

---
 qopt/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/noise.py b/qopt/noise.py
index d9a44af..00befd4 100644
--- a/qopt/noise.py
+++ b/qopt/noise.py
@@ -293,7 +293,7 @@ def fast_colored_noise(spectral_density: Callable, dt: float, n_samples: int,
     f_nyquist = f_max / 2
     s0 = 1 / f_nyquist
     if r_power_of_two:
-        actual_n_samples = int(2 ** np.ceil(np.log2(n_samples)))
+        actual_n_samples = int(2 ** np.floor(np.log2(n_samples)))
     else:
         actual_n_samples = int(n_samples)
 
-- 
2.43.0


From 2078d35597e2537e1465dbfad60650b4999f06e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 24/56] fix: frequencies of colored noise with an odd number of
 samples

---
 qopt/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/noise.py b/qopt/noise.py
index 00befd4..6bb7345 100644
--- a/qopt/noise.py
+++ b/qopt/noise.py
@@ -300,7 +300,7 @@ def fast_colored_noise(spectral_density: Callable, dt: float, n_samples: int,
     delta_white = np.random.randn(*output_shape, actual_n_samples)
     delta_white_ft = np.fft.rfft(delta_white, axis=-1)
     # Only positive frequencies since FFT is real and therefore symmetric
-    f = np.linspace(0, f_nyquist, actual_n_samples // 2 + 1)
+    f = np.fft.rfftfreq(actual_n_samples, d=dt)
     f[1:] = spectral_density(f[1:])
     f[0] = 0
     delta_colored = np.fft.irfft(delta_white_ft * np.sqrt(f / s0),
-- 
2.43.0


From 98ee464229cca69d7b1f52b5d7dd00e4f5fb50e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:31 +0000
Subject: [PATCH 25/56] fix: angle axis representation of rotations with small
 angles and unitarity check

---
 qopt/cost_functions.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 0bd8bff..d76e905 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -184,7 +184,7 @@ def angle_axis_representation(u: np.ndarray) \
     is_unitary = np.isclose(ident[0, 0], 1) \
                  and np.isclose(ident[1, 0], 0) \
                  and np.isclose(ident[0, 1], 0) \
-                 and np.isclose(ident[0, 0], 1)
+                 and np.isclose(ident[1, 1], 1)
 
     if not is_unitary:
         raise ValueError("Your input matrix must be unitary to calculate a "
@@ -192,13 +192,17 @@ def angle_axis_representation(u: np.ndarray) \
 
     # there is an unphysical global phase alpha
     cos_alpha = .5 * (u[0, 0] + u[1, 1])
-    # beta in [0, pi) so sin in [0, 1]
-    sin = np.sqrt(1 - np.abs(cos_alpha) ** 2)
+    n_1_alpha = (u[0, 1] + u[1, 0]) / 1j / 2
+    n_2_alpha = (u[0, 1] - u[1, 0]) / 2
+    n_3_alpha = (u[0, 0] - u[1, 1]) / 1j / 2
+    # beta in [0, pi) so sin in [0, 1]. The sine is calculated from the
+    # rotation axis because 1 - cos ** 2 suffers from cancellation.
+    sin = np.linalg.norm(np.array([n_1_alpha, n_2_alpha, n_3_alpha]))
     if np.isclose(0, sin, atol=1e-6):
         return 0, np.array([1, 0, 0])
-    n_1_alpha = (u[0, 1] + u[1, 0]) / 1j / sin / 2
-    n_2_alpha = (u[0, 1] - u[1, 0]) / sin / 2
-    n_3_alpha = (u[0, 0] - u[1, 1]) / 1j / sin / 2
+    n_1_alpha = n_1_alpha / sin
+    n_2_alpha = n_2_alpha / sin
+    n_3_alpha = n_3_alpha / sin
     if not np.isclose(n_1_alpha, 0):
         alpha = n_1_alpha / np.abs(n_1_alpha)
     elif not np.isclose(n_2_alpha, 0):
-- 
2.43.0


From 7ceb2a8d0a120946610996c9b76e05bc95dca530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:31 +0000
Subject: [PATCH 26/56] fix: pass the solver to the base class in
 OperatorMatrixNorm

---
 qopt/cost_functions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index d76e905..221572b 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -264,8 +264,7 @@ class OperatorMatrixNorm(CostFunction):
     def __init__(self, solver: solver_algorithms.Solver,
                  target: matrix.OperatorMatrix, mode: str = 'scalar',
                  label: Optional[List[str]] = None):
-        super().__init__()
-        self.solver = solver
+        super().__init__(solver=solver)
         self.target = target
         self.mode = mode
         if label is not None:
-- 
2.43.0


From 816bfd643f99e00bd12356c9015702f8f6442bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:29 +0000
Subject: [PATCH 27/56] fix: gradients of infidelities with closest unitaries
 or rescaled states

---
 qopt/cost_functions.py | 80 +++++++++++++++++++++++++++++++-----------
 1 file changed, 59 insertions(+), 21 deletions(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 221572b..0faa594 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -530,18 +530,23 @@ def derivative_state_fidelity(
     for ctrl in range(num_ctrls):
         for t in range(num_time_steps):
             # here we need to take the real part.
-            if computational_states:
+            if computational_states is not None:
+                derivative_state = (
+                        reversed_propagators[::-1][t + 1]
+                        * propagator_derivatives[ctrl][t]
+                        * forward_propagators[t]
+                ).truncate_to_subspace(subspace_indices=computational_states)
+                if rescale_propagated_state:
+                    # The normalization depends on the controls as well.
+                    final_state = forward_propagators[-1].truncate_to_subspace(
+                        subspace_indices=computational_states)
+                    norm = final_state.norm('fro')
+                    final_state = final_state * (1 / norm)
+                    derivative_state = derivative_state * (1 / norm)
+                    derivative_state = derivative_state - final_state * (
+                        (final_state.dag() * derivative_state)[0, 0].real)
                 derivative_fidelity[t, ctrl] = 2 * np.real(
-                    (scalar_prod * (
-                            target * (
-                            reversed_propagators[::-1][t + 1]
-                            * propagator_derivatives[ctrl][t]
-                            * forward_propagators[t]
-                    ).truncate_to_subspace(
-                        subspace_indices=computational_states,
-                        map_to_closest_unitary=rescale_propagated_state
-                    )
-                    ))[0, 0])
+                    (scalar_prod * (target * derivative_state))[0, 0])
             else:
                 derivative_fidelity[t, ctrl] = 2 * np.real(
                     (scalar_prod * (target * reversed_propagators[::-1][t + 1]
@@ -749,6 +754,33 @@ def entanglement_fidelity(
     return (np.abs(trace) ** 2) / d / d
 
 
+def _derivative_closest_unitary(
+        operator: matrix.OperatorMatrix,
+        derivative: matrix.OperatorMatrix) -> matrix.OperatorMatrix:
+    """
+    Derivative of the unitary closest to an operator.
+
+    Parameters
+    ----------
+    operator: OperatorMatrix
+        The operator which is mapped to the closest unitary.
+
+    derivative: OperatorMatrix
+        The derivative of the operator.
+
+    Returns
+    -------
+    derivative_unitary: OperatorMatrix
+        The derivative of the closest unitary.
+
+    """
+    left, singular_values, right_dag = np.linalg.svd(operator.data)
+    rotated = left.conj().T @ derivative.data @ right_dag.conj().T
+    rotated = (rotated - rotated.conj().T) / (
+            singular_values[:, np.newaxis] + singular_values[np.newaxis, :])
+    return type(operator)(left @ rotated @ right_dag)
+
+
 def derivative_entanglement_fidelity_with_du(
         target: matrix.OperatorMatrix,
         forward_propagators: List[matrix.OperatorMatrix],
@@ -795,7 +827,7 @@ def derivative_entanglement_fidelity_with_du(
 
     """
     target_unitary_dag = target.dag(do_copy=True)
-    if computational_states:
+    if computational_states is not None:
         trace = np.conj(
             ((forward_propagators[-1].truncate_to_subspace(
                 computational_states,
@@ -814,15 +846,18 @@ def derivative_entanglement_fidelity_with_du(
     for ctrl in range(num_ctrls):
         for t in range(num_time_steps):
             # here we need to take the real part.
-            if computational_states:
-                derivative_fidelity[t, ctrl] = 2 / d / d * np.real(
-                    trace * ((reversed_propagators[::-1][t + 1]
+            if computational_states is not None:
+                derivative = (reversed_propagators[::-1][t + 1]
                               * propagator_derivatives[ctrl][t]
                               * forward_propagators[t]).truncate_to_subspace(
-                        subspace_indices=computational_states,
-                        map_to_closest_unitary=map_to_closest_unitary
-                    )
-                             * target_unitary_dag).tr())
+                    subspace_indices=computational_states)
+                if map_to_closest_unitary:
+                    derivative = _derivative_closest_unitary(
+                        operator=forward_propagators[-1].truncate_to_subspace(
+                            subspace_indices=computational_states),
+                        derivative=derivative)
+                derivative_fidelity[t, ctrl] = 2 / d / d * np.real(
+                    trace * (derivative * target_unitary_dag).tr())
             else:
                 derivative_fidelity[t, ctrl] = 2 / d / d * np.real(
                     trace * (reversed_propagators[::-1][t + 1]
@@ -1311,6 +1346,7 @@ class OperationInfidelity(CostFunction):
                 reversed_propagators=self.solver.reversed_propagators,
                 propagator_derivatives=self.solver.frechet_deriv_propagators,
                 computational_states=self.computational_states,
+                map_to_closest_unitary=self.map_to_closest_unitary,
             )
         else:
             raise NotImplementedError('Only the average and entanglement'
@@ -1439,7 +1475,8 @@ class OperationNoiseInfidelity(CostFunction):
                 propagator_derivatives=
                 self.solver.frechet_deriv_propagators_noise[i],
                 reversed_propagators=self.solver.reversed_propagators_noise[i],
-                computational_states=self.computational_states
+                computational_states=self.computational_states,
+                map_to_closest_unitary=self.map_to_closest_unitary
             )
             if self.neglect_systematic_errors:
                 temp_target = self._to_comp_space(
@@ -1451,7 +1488,8 @@ class OperationNoiseInfidelity(CostFunction):
                     propagator_derivatives=
                     self.solver.frechet_deriv_propagators,
                     reversed_propagators=self.solver.reversed_propagators,
-                    computational_states=self.computational_states
+                    computational_states=self.computational_states,
+                    map_to_closest_unitary=self.map_to_closest_unitary
                 )
             derivative[:, :, i] = np.real(temp)
         return np.mean(-derivative, axis=2)
-- 
2.43.0


From 5420ecb4e37e34e012746399adb6aa55cba19dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:08 +0000
Subject: [PATCH 28/56] fix: state noise infidelity without target

---
 qopt/cost_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 0faa594..d098cf4 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -1167,7 +1167,7 @@ class StateNoiseInfidelity(CostFunction):
         self.solver = solver
 
         # assure target is a bra vector
-        if target.shape[0] > target.shape[1]:
+        if target is not None and target.shape[0] > target.shape[1]:
             self.target = target.dag()
         else:
             self.target = target
-- 
2.43.0


From aa15054f52d068d16048f42118148dd3cd5a1ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:08 +0000
Subject: [PATCH 29/56] fix: index error for states with complex fidelity on a
 subspace

---
 qopt/cost_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index d098cf4..d4f3f5b 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -637,7 +637,7 @@ def state_fidelity_subspace(
     scalar_prod = scalar_prod[0, 0]
     scalar_prod_real = scalar_prod.real
     if np.abs(scalar_prod - scalar_prod_real) > 1e-5:
-        scalar_prod_real = np.abs(scalar_prod[0, 0])
+        scalar_prod_real = np.abs(scalar_prod)
         print("Warning: the calculated fidelity should be real but has an "
               "imaginary component of : " + str(scalar_prod.imag))
     return scalar_prod_real
-- 
2.43.0


From d9d557ebf3afceb22beddb79cb3cc30cf792ae0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:08 +0000
Subject: [PATCH 30/56] fix: shape attributes when setting the pulse of the
 simulator

---
 qopt/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/simulator.py b/qopt/simulator.py
index f248460..3d055f2 100644
--- a/qopt/simulator.py
+++ b/qopt/simulator.py
@@ -145,7 +145,7 @@ class Simulator(object):
     def pulse(self, new_pulse):
         """Sets the pulse and the corresponding attributes accordingly. """
         if new_pulse is not None:
-            self._num_times, self._num_ctrl = self._optimization_parameteres.shape
+            self._num_times, self._num_ctrl = new_pulse.shape
         self._optimization_parameteres = new_pulse
 
     @needs_refactoring
-- 
2.43.0


From 1f317a9b2a8983df13394f5cf151cfe19508cb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:44 +0000
Subject: [PATCH 31/56] fix: termination conditions leaked into other
 optimizers

---
 qopt/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index c191a1a..59fd846 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -165,7 +165,8 @@ class Optimizer(ABC):
     ):
         self.system_simulator = system_simulator
         self.use_jacobian_function = use_jacobian_function
-        self.termination_conditions = default_termination_conditions
+        self.termination_conditions = copy.deepcopy(
+            default_termination_conditions)
         if termination_cond is not None:
             self.termination_conditions.update(**termination_cond)
 
-- 
2.43.0


From 0e3f58279ab2d5b55b7d75677782bef5b283460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:44 +0000
Subject: [PATCH 32/56] fix: weights were applied to the stored costs

---
 qopt/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 59fd846..7f8d3f4 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -227,7 +227,7 @@ class Optimizer(ABC):
 
         # apply the cost function weights after saving the values.
         if self.cost_func_weights is not None:
-            costs *= self.cost_func_weights
+            costs = costs * self.cost_func_weights
 
         self._n_cost_fkt_eval += 1
         return costs
-- 
2.43.0


From 7defa314135399c64e563c37bda8f82f28491a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:44 +0000
Subject: [PATCH 33/56] fix: gradient norm and missing evaluations when the
 wall time is exceeded

---
 qopt/optimize.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 7f8d3f4..0798a07 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -335,9 +335,12 @@ class Optimizer(ABC):
         if self.system_simulator.stats is not None:
             self.system_simulator.stats.end_t_opt = time.time()
 
-        if self.use_jacobian_function:
+        if self._min_costs_par is None:
+            # no cost function has been evaluated yet
+            jac_norm = None
+        elif self.use_jacobian_function:
             jac_norm = np.linalg.norm(
-                self.cost_jacobian_wrapper(self._min_costs_par))
+                self.cost_jacobian_wrapper(self._min_costs_par.T.flatten()))
         else:
             jac_norm = 0
 
-- 
2.43.0


From 6885342649215fb2ea57c75dbd35d8fc39abff62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:44 +0000
Subject: [PATCH 34/56] fix: least squares optimization without bounds

---
 qopt/optimize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 0798a07..fab6ca5 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -387,8 +387,8 @@ class LeastSquaresOptimizer(Optimizer):
         Attention: The boundary format can vary between optimizers!
         The boundary conditions for the pulse optimizations. If none are given
         then the pulse is assumed to take any real value. The boundaries are
-        given as a list of two arrays. The first array specifies the upper
-        and the second array specifies the lower bounds. Single parameters
+        given as a list of two arrays. The first array specifies the lower
+        and the second array specifies the upper bounds. Single parameters
         can be excepted by using np.inf with appropriate sign.
 
     """
@@ -410,6 +410,8 @@ class LeastSquaresOptimizer(Optimizer):
                          use_jacobian_function=use_jacobian_function,
                          store_optimizer=store_optimizer)
         self.method = method
+        if bounds is None:
+            bounds = (-np.inf, np.inf)
         self.bounds = bounds
 
     def run_optimization(self, initial_control_amplitudes: np.array,
-- 
2.43.0


From 5a3f8b8ce623ffd9451cd21c7a124f28f505dde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:44 +0000
Subject: [PATCH 35/56] fix: store the optimizer only if requested

---
 qopt/optimize.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index fab6ca5..81fe57d 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -618,6 +618,11 @@ class ScalarMinimizingOptimizer(Optimizer):
                     method=self.method
                 )
 
+                if self.store_optimizer:
+                    storage_opt = self
+                else:
+                    storage_opt = None
+
                 optim_result = optimization_data.OptimizationResult(
                     final_cost=result.fun,
                     indices=self.system_simulator.cost_indices,
@@ -626,7 +631,7 @@ class ScalarMinimizingOptimizer(Optimizer):
                     num_iter=result.nfev,
                     termination_reason=result.message,
                     status=result.status,
-                    optimizer=self,
+                    optimizer=storage_opt,
                     optim_summary=self.optim_iter_summary,
                     optimization_stats=self.system_simulator.stats
                 )
-- 
2.43.0


From 9778a96c5fc2319852556268d30fdc45a4de7a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:25 +0000
Subject: [PATCH 36/56] fix: status is lost when converting the optimization
 result to a dictionary

---
 qopt/optimization_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qopt/optimization_data.py b/qopt/optimization_data.py
index 72d5264..8d78e4c 100644
--- a/qopt/optimization_data.py
+++ b/qopt/optimization_data.py
@@ -148,6 +148,7 @@ class OptimizationResult(object):
                 'init_parameters': self.init_parameters,
                 'num_iter': self.num_iter,
                 'termination_reason': self.termination_reason,
+                'status': self.status,
                 'optimizer': self.optimizer,
                 'optimization_stats': self.optimization_stats,
                 'optim_summary': self.optim_summary
-- 
2.43.0


From 9cccab5c6fcbfaa919cd649d305cbab0aabea582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:25 +0000
Subject: [PATCH 37/56] fix: signature of the deepcopy method of the data
 container

---
 qopt/data_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/data_container.py b/qopt/data_container.py
index d635543..c3d171c 100644
--- a/qopt/data_container.py
+++ b/qopt/data_container.py
@@ -219,7 +219,7 @@ class DataContainer:
         self.optimization_statistics.append(optimization_stats)
         self.check_length()
 
-    def __deepcopy__(self):
+    def __deepcopy__(self, memo):
         cpyobj = type(self)(
             final_costs=copy.deepcopy(self.final_costs),
             indices=copy.deepcopy(self.indices),
-- 
2.43.0


From 434564befdcb8bf03b536ef47e81d4a2564aa949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:25 +0000
Subject: [PATCH 38/56] fix: index property of the data container

---
 qopt/data_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/data_container.py b/qopt/data_container.py
index c3d171c..1dff69e 100644
--- a/qopt/data_container.py
+++ b/qopt/data_container.py
@@ -164,7 +164,7 @@ class DataContainer:
     @property
     def index(self):
         """Indices of the cost functions. """
-        return self.final_parameters.index
+        return self.indices
 
     def check_length(self):
         pass
-- 
2.43.0


From 65e8efa5e22152d91d26b4203188f1f19cd60972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:25 +0000
Subject: [PATCH 39/56] fix: platform independent default storage path

---
 qopt/data_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/data_container.py b/qopt/data_container.py
index 1dff69e..52688f5 100644
--- a/qopt/data_container.py
+++ b/qopt/data_container.py
@@ -124,7 +124,7 @@ class DataContainer:
                  append_time_to_path=True):
 
         storage_path = os.path.join(
-            __file__, r"..\..\temp"
+            os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "temp"
         ) if storage_path is None else storage_path
 
         self.final_costs = [] if final_costs is None else final_costs
-- 
2.43.0


From ee04139af6d72360c3c12d23dbbf62e666b79752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:25 +0000
Subject: [PATCH 40/56] fix: use of a colormap function removed from matplotlib

---
 qopt/energy_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/energy_spectrum.py b/qopt/energy_spectrum.py
index 7c9bf4d..2696718 100644
--- a/qopt/energy_spectrum.py
+++ b/qopt/energy_spectrum.py
@@ -64,7 +64,7 @@ def vector_color_map(vectors: np.array):
 
     points_on_cmap = np.linspace(0, 1, vectors.shape[-1], endpoint=True)
     # include the endpoint to use the full colormap
-    basis_colors = mpl.cm.get_cmap('brg')(points_on_cmap)
+    basis_colors = plt.get_cmap('brg')(points_on_cmap)
     basis_colors = np.array(basis_colors)[:, :-1]
     
     values = np.einsum('ij, ni -> nj', basis_colors, np.abs(vectors))
-- 
2.43.0


From b29c9c6ccd91807fcfd44f9e213e2f553eff039c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:25 +0000
Subject: [PATCH 41/56] fix: store the initial parameters in the optimization
 result

---
 qopt/optimize.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 81fe57d..23bfed8 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -176,6 +176,7 @@ class Optimizer(ABC):
         self._opt_start_time = 0
         self._min_costs = np.inf
         self._min_costs_par = None
+        self._init_parameters = None
         self._n_cost_fkt_eval = 0
         self._n_jac_fkt_eval = 0
 
@@ -304,6 +305,7 @@ class Optimizer(ABC):
         self._n_cost_fkt_eval = 0
         self._n_jac_fkt_eval = 0
         self.pulse_shape = initial_optimization_parameters.shape
+        self._init_parameters = np.copy(initial_optimization_parameters)
         if self.save_intermediary_steps:
             self.optim_iter_summary = \
                 optimization_data.OptimizationSummary(
@@ -352,6 +354,7 @@ class Optimizer(ABC):
         optim_result = optimization_data.OptimizationResult(
             final_cost=self._min_costs,
             indices=self.system_simulator.cost_indices,
+            init_parameters=self._init_parameters,
             final_parameters=self._min_costs_par,
             final_grad_norm=jac_norm,
             num_iter=self._n_cost_fkt_eval,
@@ -450,6 +453,7 @@ class LeastSquaresOptimizer(Optimizer):
             optim_result = optimization_data.OptimizationResult(
                 final_cost=result.fun,
                 indices=self.system_simulator.cost_indices,
+                init_parameters=self._init_parameters,
                 final_parameters=result.x.reshape(
                     self.pulse_shape[::-1]).T,
                 final_grad_norm=np.linalg.norm(result.grad),
@@ -564,6 +568,7 @@ class ScalarMinimizingOptimizer(Optimizer):
                 optim_result = optimization_data.OptimizationResult(
                     final_cost=result.fun,
                     indices=self.system_simulator.cost_indices,
+                    init_parameters=self._init_parameters,
                     final_parameters=result.x.reshape(
                         self.pulse_shape[::-1]).T,
                     final_grad_norm=np.linalg.norm(result.jac),
@@ -597,6 +602,7 @@ class ScalarMinimizingOptimizer(Optimizer):
                 optim_result = optimization_data.OptimizationResult(
                     final_cost=result.fun,
                     indices=self.system_simulator.cost_indices,
+                    init_parameters=self._init_parameters,
                     final_parameters=result.x.reshape(
                         self.pulse_shape[::-1]).T,
                     num_iter=result.nfev,
@@ -626,6 +632,7 @@ class ScalarMinimizingOptimizer(Optimizer):
                 optim_result = optimization_data.OptimizationResult(
                     final_cost=result.fun,
                     indices=self.system_simulator.cost_indices,
+                    init_parameters=self._init_parameters,
                     final_parameters=result.x.reshape(
                         self.pulse_shape[::-1]).T,
                     num_iter=result.nfev,
@@ -876,6 +883,7 @@ class SimulatedAnnealing(Optimizer):
         optim_result = optimization_data.OptimizationResult(
             final_cost=costs,
             indices=self.system_simulator.cost_indices,
+            init_parameters=self._init_parameters,
             final_parameters=pulse,
             optimizer=storage_opt,
             optim_summary=self.optim_iter_summary,
-- 
2.43.0


From afadd663c0ed3b764f3249393fc8d56eb95d74d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:25 +0000
Subject: [PATCH 42/56] fix: create the pulse sequence repeatedly for the same
 parameters

---
 qopt/solver_algorithms.py | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 27fdbd4..ac51fd5 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -737,27 +737,17 @@ class Solver(ABC):
         # nonlinear coupling), but in filter_functions the form H =
         # a(t) A is imposed, we don't tell the PulseSequence object
         # about H_drift and set the eigendecomposition after the fact.
-        if self.pulse_sequence is None:
-            h_c = list(zip(
-                self.h_ctrl,
-                self._ctrl_amps.T,
-                [f'Control{i}' for i in range(len(self.h_ctrl))]
-            ))
-            self.pulse_sequence = pulse_sequence.PulseSequence(
-                h_c, self.create_ff_h_n, self.transferred_time, basis
-            )
-        else:
-            # Clean up the caches and update coefficients
-            self.pulse_sequence.cleanup('all')
-            self.pulse_sequence.c_coeffs = self._ctrl_amps.T
-            # Not the most elegant, but necessary for the current
-            # implementation.
-            self.pulse_sequence.n_coeffs = pulse_sequence._parse_Hamiltonian(
-                self.create_ff_h_n,
-                len(self.transferred_time), 'H_n')[2]
-
-            if basis is not None:
-                self.pulse_sequence.basis = basis
+        if basis is None and self.pulse_sequence is not None:
+            basis = self.pulse_sequence.basis
+
+        h_c = list(zip(
+            self.h_ctrl,
+            self._ctrl_amps.T,
+            [f'Control{i}' for i in range(len(self.h_ctrl))]
+        ))
+        self.pulse_sequence = pulse_sequence.PulseSequence(
+            h_c, self.create_ff_h_n, self.transferred_time, basis
+        )
 
         self._diagonalize_and_propagate_pulse_sequence()
         return self.pulse_sequence
-- 
2.43.0


From 60f1ba7f62a9cbc06a2f5fb7d4df93670ab4498e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:11 +0000
Subject: [PATCH 43/56] fix: angle axis representation of axes with a small
 component

---
 qopt/cost_functions.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index d4f3f5b..7882153 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -203,14 +203,15 @@ def angle_axis_representation(u: np.ndarray) \
     n_1_alpha = n_1_alpha / sin
     n_2_alpha = n_2_alpha / sin
     n_3_alpha = n_3_alpha / sin
-    if not np.isclose(n_1_alpha, 0):
-        alpha = n_1_alpha / np.abs(n_1_alpha)
-    elif not np.isclose(n_2_alpha, 0):
-        alpha = n_2_alpha / np.abs(n_2_alpha)
-    elif not np.isclose(n_3_alpha, 0):
-        alpha = n_3_alpha / np.abs(n_3_alpha)
-    else:
-        return 0, np.array([1, 0, 0])
+    # the phase of a small component is dominated by rounding errors, thus the
+    # phase is taken from the largest component and only the sign from the
+    # first one.
+    n_alpha = np.array([n_1_alpha, n_2_alpha, n_3_alpha])
+    alpha = n_alpha[np.argmax(np.abs(n_alpha))]
+    alpha = alpha / np.abs(alpha)
+    first = n_alpha[np.argmax(~np.isclose(n_alpha, 0))]
+    if np.real(first / alpha) < 0:
+        alpha = -1 * alpha
 
     beta = np.arccos(np.real(cos_alpha / alpha)) * 2
     n_1, n_2, n_3 = n_1_alpha / alpha, n_2_alpha / alpha, n_3_alpha / alpha
-- 
2.43.0


From 06965523b5d48542cf4d085919d76203c410fad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 44/56] fix: bar positions and widths of pulse plots for
 unequal time steps

---
 qopt/transfer_function.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index 76f49a8..b9b895f 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -469,12 +469,12 @@ class TransferFunction(ABC):
         n_padding_start, n_padding_end = self.num_padding_elements
         for y_per_control, x_per_control in zip(y.T, x.T):
             plt.figure()
-            plt.bar(np.cumsum(self.x_times) - .5 * self.x_times[0],
-                    x_per_control, self.x_times[0])
-            plt.bar(np.cumsum(self._y_times) - .5 * self._y_times[0]
+            plt.bar(np.cumsum(self.x_times) - .5 * self.x_times,
+                    x_per_control, self.x_times)
+            plt.bar(np.cumsum(self._y_times) - .5 * self._y_times
                     + np.cumsum(self.x_times)[n_padding_start]
                     - self.x_times[n_padding_start],
-                    y_per_control, self._y_times[0],
+                    y_per_control, self._y_times,
                     fill=False)
         plt.xlabel(xlabel)
         plt.ylabel(ylabel)
-- 
2.43.0


From cf19a776d1ed027cc3ae948afe0489452bbc25dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 45/56] fix: time steps in the derivative of the entanglement
 fidelity

---
 qopt/cost_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 7882153..246953c 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -1960,7 +1960,7 @@ def derivative_entanglement_fidelity(
     for ctrl in range(num_ctrls):
         for t in range(num_time_steps):
             # we take the imaginary part because we took a factor of i out
-            derivative_fidelity[t, ctrl] = 2 / d / d * delta_t * np.imag(
+            derivative_fidelity[t, ctrl] = 2 / d / d * delta_t[t] * np.imag(
                 trace * (reversed_propagators[::-1][t + 1]
                          * control_hamiltonians[ctrl]
                          * forward_propagators[t + 1]
-- 
2.43.0


From 251e431061836e226509cbb9daa3a459a7391da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:08 +0000
Subject: [PATCH 46/56] fix: statistics of a finished run change with later
 evaluations

---
 qopt/optimize.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 23bfed8..a1df495 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -362,7 +362,8 @@ class Optimizer(ABC):
             status=5,
             optimizer=storage_opt,
             optim_summary=self.optim_iter_summary,
-            optimization_stats=self.system_simulator.stats
+            optimization_stats=copy.deepcopy(
+                self.system_simulator.stats)
         )
         return optim_result
 
@@ -462,7 +463,8 @@ class LeastSquaresOptimizer(Optimizer):
                 status=result.status,
                 optimizer=storage_opt,
                 optim_summary=self.optim_iter_summary,
-                optimization_stats=self.system_simulator.stats
+                optimization_stats=copy.deepcopy(
+                    self.system_simulator.stats)
             )
         except WallTimeExceeded:
             optim_result = self.write_state_to_result()
@@ -647,6 +649,8 @@ class ScalarMinimizingOptimizer(Optimizer):
 
         if self.system_simulator.stats is not None:
             self.system_simulator.stats.end_t_opt = time.time()
+            optim_result.optimization_stats = copy.deepcopy(
+                self.system_simulator.stats)
 
         return optim_result
 
@@ -887,7 +891,8 @@ class SimulatedAnnealing(Optimizer):
             final_parameters=pulse,
             optimizer=storage_opt,
             optim_summary=self.optim_iter_summary,
-            optimization_stats=self.system_simulator.stats
+            optimization_stats=copy.deepcopy(
+                self.system_simulator.stats)
         )
 
         return optim_result
-- 
2.43.0


From 0d48891ba7b875fd64189c074318fbae53786903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:32 +0000
Subject: [PATCH 47/56] fix: unary amplitude functions cannot be pickled after
 their first use

---
 qopt/amplitude_functions.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/qopt/amplitude_functions.py b/qopt/amplitude_functions.py
index 8044ee0..873ed30 100644
--- a/qopt/amplitude_functions.py
+++ b/qopt/amplitude_functions.py
@@ -158,17 +158,22 @@ class UnaryAnalyticAmpFunc(AmplitudeFunction):
     def __init__(self,
                  value_function: Callable[[float, ], float],
                  derivative_function: Callable[[float, ], float]):
-        self.value_function = np.vectorize(value_function, otypes=[float])
-        self.derivative_function = np.vectorize(derivative_function,
-                                                otypes=[float])
+        self.value_function = np.vectorize(value_function)
+        self.derivative_function = np.vectorize(derivative_function)
 
     def __call__(self, x: np.ndarray) -> np.ndarray:
         """See base class. """
-        return self.value_function(x)
+        return self._evaluate(self.value_function, x)
+
+    @staticmethod
+    def _evaluate(function: np.vectorize, x: np.ndarray) -> np.ndarray:
+        # A vectorized function with fixed output types keeps a ufunc after
+        # its first call, which cannot be pickled. It is thus not stored.
+        return np.vectorize(function.pyfunc, otypes=[float])(x)
 
     def derivative_by_chain_rule(self, deriv_by_ctrl_amps: np.ndarray, x):
         """See base class. """
-        du_by_dx = self.derivative_function(x)
+        du_by_dx = self._evaluate(self.derivative_function, x)
         # du_by_dx shape: (n_time, n_ctrl)
         # deriv_by_ctrl_amps shape: (n_time, n_func, n_ctrl)
         # deriv_by_opt_par shape: (n_time, n_func, n_ctrl
-- 
2.43.0


From fef164b6b217b4fc3a46a7eb573c60f778725fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 48/56] fix: interrupted calculations leave incomplete results
 in the solver caches

---
 qopt/solver_algorithms.py | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index ac51fd5..f39ba09 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -66,6 +66,7 @@ References
 
 import numpy as np
 import copy
+import functools
 from typing import Optional, List, Callable, Union
 from abc import ABC, abstractmethod
 from multiprocessing import Pool
@@ -79,6 +80,24 @@ from qopt.amplitude_functions import AmplitudeFunction, IdentityAmpFunc
 from qopt.util import needs_refactoring
 
 
+def _discard_incomplete_results(compute):
+    """
+    Decorator for the methods which calculate and cache propagators.
+
+    If the calculation fails or is interrupted, then the caches are reset, so
+    that no incomplete results are mistaken for the solution later.
+
+    """
+    @functools.wraps(compute)
+    def compute_or_reset(self, *args, **kwargs):
+        try:
+            return compute(self, *args, **kwargs)
+        except BaseException:
+            self.reset_cached_propagators()
+            raise
+    return compute_or_reset
+
+
 class Solver(ABC):
     r"""
     Abstract base class for Solvers.
@@ -643,6 +662,7 @@ class Solver(ABC):
             raise ValueError("The control amplitudes must be set to calculate "
                              "the propagation!")
 
+    @_discard_incomplete_results
     def _compute_forward_propagation(self) -> None:
         """Computes the forward propagators. """
         if self._prop is None:
@@ -651,6 +671,7 @@ class Solver(ABC):
         for prop in self._prop:
             self._fwd_prop.append(prop * self._fwd_prop[-1])
 
+    @_discard_incomplete_results
     def _compute_reversed_propagation(self) -> None:
         """Compute the reversed propagation. """
         if self._prop is None:
@@ -916,6 +937,7 @@ class SchroedingerSolver(Solver):
         # will not be manipulated in place. (only as copy)
         return [[operator * -1j for operator in self.h_ctrl], ] * len(self.transferred_time)
 
+    @_discard_incomplete_results
     def _compute_propagation(
             self, calculate_propagator_derivatives: Optional[bool] = None) \
             -> None:
@@ -956,6 +978,7 @@ class SchroedingerSolver(Solver):
                     tau=self.transferred_time[t], method=self.exponential_method,
                     is_skew_hermitian=self._is_skew_hermitian)
 
+    @_discard_incomplete_results
     def _compute_propagation_derivatives(self) -> None:
         """
         Computes the frechet derivatives of the propagators.
@@ -1298,6 +1321,7 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
                         (-1j * operator_sample) * operator
         return self._dyn_gen_noise
 
+    @_discard_incomplete_results
     def _compute_propagation(
             self, calculate_propagator_derivatives: Optional[bool] = None
     ) -> None:
@@ -1383,6 +1407,7 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
             raise ValueError('Invalid number of processes for parallel '
                              'computation!')
 
+    @_discard_incomplete_results
     def _compute_forward_propagation(self) -> None:
         """Computes the forward propagators. """
         super()._compute_forward_propagation()
@@ -1398,6 +1423,7 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
             for prop in prop_per_trace:
                 fwd_per_trace.append(prop * fwd_per_trace[-1])
 
+    @_discard_incomplete_results
     def _compute_reversed_propagation(self) -> None:
         """Compute the reversed propagation. For the perturbed and unperturbed
         Schroedinger equation. """
@@ -1414,6 +1440,7 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
             for prop in prop_per_trace[::-1]:
                 rev_per_trace.append(rev_per_trace[-1] * prop)
 
+    @_discard_incomplete_results
     def _compute_propagation_derivatives(self) -> None:
         """
         Computes the frechet derivatives of the propagators.
@@ -1930,10 +1957,11 @@ class LindbladSolver(SchroedingerSolver):
                                    factor_at_time_t[1:]):
                         self._diss_sup_op[-1] += sup_op * factor
             else:
-                self._diss_sup_op = [const_diss_sup_op[0].copy(), ]
+                total_diss_sup_op = const_diss_sup_op[0].copy()
                 for sup_op in const_diss_sup_op[1:]:
-                    self._diss_sup_op[0] += sup_op
-                self._diss_sup_op *= len(self.transferred_time)
+                    total_diss_sup_op += sup_op
+                self._diss_sup_op = \
+                    [total_diss_sup_op, ] * len(self.transferred_time)
         else:
             self._diss_sup_op = self._sup_op_func(
                 copy.deepcopy(self._ctrl_amps),
-- 
2.43.0


From 6f7537089b0f85ed35d4ea664eaaf90e306e65f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 49/56] fix: control amplitudes of the old times survive
 refused new times

---
 qopt/solver_algorithms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index f39ba09..6e63945 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -378,12 +378,12 @@ class Solver(ABC):
 
         if self._opt_pars is not None:
             # the transferred parameters can depend on the times
+            # and are not valid before they have been calculated again
             opt_pars, self._opt_pars = self._opt_pars, None
+            self.transferred_parameters = None
+            self._ctrl_amps = None
             if len(opt_pars) == len(tau):
                 self.set_optimization_parameters(opt_pars)
-            else:
-                self.transferred_parameters = None
-                self._ctrl_amps = None
 
     def set_optimization_parameters(self, y: np.array) -> None:
         """
-- 
2.43.0


From 7a1c57a1fab7968614bb2d65d3e333fd045ed9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 50/56] fix: transfer functions depend on later changes of the
 given times

---
 qopt/transfer_function.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index b9b895f..b924874 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -377,7 +377,8 @@ class TransferFunction(ABC):
                              'dimension!')
 
         self._num_y = y_times.size
-        self._y_times = y_times
+        # the copy decouples the transfer function from later changes
+        self._y_times = y_times.copy()
 
         if self.bound_type is None:
             self.num_x = self.oversampling * self._num_y
@@ -1428,7 +1429,7 @@ class CustomMTF(MatrixTF):
             if len(y_times) != self._num_y:
                 raise ValueError('Trying to set x_times, which do not fit the'
                                  'dimension of the transfer function.')
-            self._y_times = y_times
+            self._y_times = y_times.copy()
 
     def _calculate_transfer_matrix(self):
         """See base class. """
-- 
2.43.0


From fa3d9e92015c5e82de68aa246edb42559e8aef6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 51/56] fix: spectral method amplifies rounding errors in
 generators

The balancing of numpy.linalg.eig yields wrong eigenvectors for matrices
in which rounding errors take the place of zeros, for example generators
of a decay whose operator has entries of 1e-17.
---
 qopt/matrix.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index de3a6c2..e88dca3 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -88,6 +88,21 @@ VALID_SCALARS = [int, float, complex, np.int8, np.int16, np.int32, np.int64,
 # matrices.
 
 
+def _eigen_decomposition(data: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
+    """
+    Eigenvalues and right eigenvectors of a general square matrix.
+
+    LAPACK balances a matrix before the decomposition. If rounding errors take
+    the place of zeros, then the scaling can amplify them and the eigenvectors
+    are wrong. The Schur form does not require balancing and the triangular
+    matrix is not scaled.
+
+    """
+    triangular, unitary = la.schur(data, output='complex')
+    eig_val, eig_vec = np.linalg.eig(triangular)
+    return eig_val, unitary @ eig_vec
+
+
 class OperatorMatrix(ABC):
     """
     The abstract base class of the operator matrix for the qopt control
@@ -998,7 +1013,7 @@ class DenseOperator(OperatorMatrix):
             eig_vec_inv = eig_vec.conj().T
         else:
             # the eigenvectors of a general matrix are not orthogonal
-            eig_val, eig_vec = np.linalg.eig(self.data)
+            eig_val, eig_vec = _eigen_decomposition(self.data)
             eig_vec_inv = np.linalg.inv(eig_vec)
 
         # apply the exponential function to the eigenvalues and invert the
@@ -1047,7 +1062,7 @@ class DenseOperator(OperatorMatrix):
             eig_vec_inv = eig_vec.conj().T
         else:
             # the eigenvectors of a general matrix are not orthogonal
-            eig_val, eig_vec = np.linalg.eig(self.data)
+            eig_val, eig_vec = _eigen_decomposition(self.data)
             eig_vec_inv = np.linalg.inv(eig_vec)
 
         eig_val_cols = eig_val * np.ones(self.shape)
@@ -1078,7 +1093,7 @@ class DenseOperator(OperatorMatrix):
     def spectral_decomposition(self, hermitian: bool = False):
         """See base class. """
         if hermitian is False:
-            eig_val, eig_vec = scipy.linalg.eig(self.data)
+            eig_val, eig_vec = _eigen_decomposition(self.data)
         else:
             eig_val, eig_vec = scipy.linalg.eigh(self.data)
 
-- 
2.43.0


From 9852b8d2a2395114ff6a71617ea5ed3fe04b1409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:25 +0000
Subject: [PATCH 52/56] fix: best run among optimizations without valid final
 costs

---
 qopt/analyser.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qopt/analyser.py b/qopt/analyser.py
index 3550d7f..9208043 100644
--- a/qopt/analyser.py
+++ b/qopt/analyser.py
@@ -78,11 +78,11 @@ class Analyser:
             Number of optimization run with smallest final costs.
 
         """
-        final_costs = np.asarray(self.data.final_costs)
-        if len(final_costs.shape) == 1:
-            final_costs = np.reshape(
-                final_costs, (len(self.data.final_costs), 1))
-        squared_sum = np.sum(final_costs**2, axis=1)
+        squared_sum = np.array([np.sum(np.asarray(final_cost) ** 2)
+                                for final_cost in self.data.final_costs],
+                               dtype=float)
+        # runs which ended without valid costs are never the best ones
+        squared_sum[np.isnan(squared_sum)] = np.inf
         return int(np.argmin(squared_sum, axis=0))
 
     def plot_costs(self, n=0, log_y=True, ax=None) -> None:
-- 
2.43.0


From 0c7c09ec3980847fac3f2b239875a282aad1556b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:51 +0000
Subject: [PATCH 53/56] fix: absolute costs of runs without stored steps

---
 qopt/analyser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qopt/analyser.py b/qopt/analyser.py
index 9208043..f2e10ea 100644
--- a/qopt/analyser.py
+++ b/qopt/analyser.py
@@ -133,15 +133,18 @@ class Analyser:
 
         """
         n_steps = np.max(list(map(len, self.data.costs)))
+        # runs without stored steps do not tell the number of cost functions
+        n_costs = max((len(run[0]) for run in self.data.costs
+                       if len(run) > 0), default=0)
 
         # shape: (num_runs, num_step, num_cost_fkt)
-        costs = np.empty(
-            (len(self.data.costs), n_steps, len(self.data.costs[0][0])))
+        costs = np.empty((len(self.data.costs), n_steps, n_costs))
         costs[:] = np.nan
 
         for i, run in enumerate(self.data.costs):
             num_steps = len(run)
-            costs[i, :num_steps, :] = np.stack(run, axis=0)
+            if num_steps > 0:
+                costs[i, :num_steps, :] = np.stack(run, axis=0)
 
         costs = np.sqrt(np.sum(costs ** 2, axis=2))
         return costs
-- 
2.43.0


From 1d940240fb1c21c05936c16f053c4cd4432a8d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:17 +0000
Subject: [PATCH 54/56] fix: derivative of the exponential of strongly damped
 generators

The spectral method factored exp(lambda_i) out of the quotient of differences,
which grows exponentially with the difference of the decay rates and cancels
only up to rounding errors. For rates of 40 in units of the inverse time step
the derivatives were wrong by more than 10 per cent, for higher rates nan.
---
 qopt/matrix.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index e88dca3..7330077 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -1073,8 +1073,15 @@ class DenseOperator(OperatorMatrix):
         degenerate = exponents == 0
         exponents[degenerate] = 1.
 
+        # The larger of the two exponential functions is factored out. Otherwise
+        # the quotient overflows if the matrix describes a strong decay.
+        growing = exponents.real > 0
+        exponents[growing] *= -1
+
         omega = tau * np.expm1(exponents) / exponents
         omega[degenerate] = tau
+        exp_eig_val_cols = np.exp(tau * eig_val_cols)
+        omega *= np.where(growing, exp_eig_val_cols, exp_eig_val_cols.T)
 
         direction_transformed = eig_vec_inv @ direction.data @ eig_vec
         dk_dalpha = direction_transformed * omega
@@ -1082,8 +1089,7 @@ class DenseOperator(OperatorMatrix):
         exp = np.einsum('ij,j,jk->ik', eig_vec, np.exp(tau * eig_val),
                         eig_vec_inv)
         # einsum might be less accurate than the @ operator
-        dv_dalpha = eig_vec @ dk_dalpha @ eig_vec_inv
-        du_dalpha = exp @ dv_dalpha
+        du_dalpha = eig_vec @ dk_dalpha @ eig_vec_inv
 
         if compute_expm:
             return exp, du_dalpha
-- 
2.43.0


From cdbea35994da3977641fecc07333d78b070d772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:48 +0000
Subject: [PATCH 55/56] fix: solvers with control noise cannot be pickled

---
 qopt/solver_algorithms.py | 69 ++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 34 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 6e63945..4512ee7 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -1553,39 +1553,6 @@ class SchroedingerSMCControlNoise(SchroedingerSMonteCarlo):
             transfer_function: Optional[TransferFunction] = None,
             amplitude_function: Optional[AmplitudeFunction] = None):
 
-        def noise_amplitude_function(noise_samples: np.array,
-                                     transferred_parameters: np.array,
-                                     control_amplitudes: np.array,
-                                     **_):
-            """Calculates the noise amplitudes.
-
-            Takes into account the actual optimization parameters and random
-            variations.
-
-            Parameters
-            ----------
-            noise_samples: np.array, shape()
-                Noise samples calculated by the noise trace generator.
-
-            transferred_parameters: np.array
-                Transferred optimization parameters.
-
-            control_amplitudes: np.array
-                Control amplitudes.
-
-            """
-            # noise_amplitudes = np.zeros_like(noise_samples, dtype=complex)
-            noise_amplitudes = np.zeros(
-                (noise_samples.shape[0], noise_samples.shape[1],
-                    control_amplitudes.shape[1]), dtype=complex)
-
-            # complex values were requested.
-            for trace_num in range(noise_samples.shape[1]):
-                noise_amplitudes[:, trace_num, :] = self.amplitude_function(
-                    transferred_parameters + noise_samples[:, trace_num, :]) \
-                    - control_amplitudes
-            return noise_amplitudes
-
         super().__init__(
             h_drift=h_drift,
             h_ctrl=h_ctrl,
@@ -1604,9 +1571,43 @@ class SchroedingerSMCControlNoise(SchroedingerSMonteCarlo):
             is_skew_hermitian=is_skew_hermitian,
             transfer_function=transfer_function,
             amplitude_function=amplitude_function,
-            noise_amplitude_function=noise_amplitude_function
+            # a method can be pickled and is copied with the instance
+            noise_amplitude_function=self._control_noise_amplitudes
         )
 
+    def _control_noise_amplitudes(self, noise_samples: np.array,
+                                  transferred_parameters: np.array,
+                                  control_amplitudes: np.array,
+                                  **_):
+        """Calculates the noise amplitudes.
+
+        Takes into account the actual optimization parameters and random
+        variations.
+
+        Parameters
+        ----------
+        noise_samples: np.array, shape()
+            Noise samples calculated by the noise trace generator.
+
+        transferred_parameters: np.array
+            Transferred optimization parameters.
+
+        control_amplitudes: np.array
+            Control amplitudes.
+
+        """
+        # noise_amplitudes = np.zeros_like(noise_samples, dtype=complex)
+        noise_amplitudes = np.zeros(
+            (noise_samples.shape[0], noise_samples.shape[1],
+                control_amplitudes.shape[1]), dtype=complex)
+
+        # complex values were requested.
+        for trace_num in range(noise_samples.shape[1]):
+            noise_amplitudes[:, trace_num, :] = self.amplitude_function(
+                transferred_parameters + noise_samples[:, trace_num, :]) \
+                - control_amplitudes
+        return noise_amplitudes
+
 
 class LindbladSolver(SchroedingerSolver):
     r"""
-- 
2.43.0


From d5d9eedd9c02ac0f7a774c0581cf3dde7c44e770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:55 +0000
Subject: [PATCH 56/56] fix: spectral exponentials of degenerate matrices with
 dependent eigenvectors

---
 qopt/matrix.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index 7330077..09942aa 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -103,6 +103,18 @@ def _eigen_decomposition(data: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
     return eig_val, unitary @ eig_vec
 
 
+def _is_invertible(eig_vec: np.ndarray) -> bool:
+    """
+    Whether eigenvectors can be inverted within numerical accuracy.
+
+    The calculated eigenvectors to degenerate eigenvalues can be linearly
+    dependent, even if the matrix can be diagonalised.
+
+    """
+    with np.errstate(all='ignore'):
+        return bool(np.linalg.cond(eig_vec) < 1e5)
+
+
 class OperatorMatrix(ABC):
     """
     The abstract base class of the operator matrix for the qopt control
@@ -1014,6 +1026,8 @@ class DenseOperator(OperatorMatrix):
         else:
             # the eigenvectors of a general matrix are not orthogonal
             eig_val, eig_vec = _eigen_decomposition(self.data)
+            if not _is_invertible(eig_vec):
+                return DenseOperator(la.expm(tau * self.data))
             eig_vec_inv = np.linalg.inv(eig_vec)
 
         # apply the exponential function to the eigenvalues and invert the
@@ -1063,6 +1077,10 @@ class DenseOperator(OperatorMatrix):
         else:
             # the eigenvectors of a general matrix are not orthogonal
             eig_val, eig_vec = _eigen_decomposition(self.data)
+            if not _is_invertible(eig_vec):
+                exp, du_dalpha = la.expm_frechet(
+                    tau * self.data, tau * direction.data)
+                return (exp, du_dalpha) if compute_expm else du_dalpha
             eig_vec_inv = np.linalg.inv(eig_vec)
 
         eig_val_cols = eig_val * np.ones(self.shape)
-- 
2.43.0

