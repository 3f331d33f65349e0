From c79ac80ec61d5f0bec94f77ae569d27caf51caf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:16 +0000
Subject: [PATCH 01/55] fix: spectral exponential and its derivative for
 non-normal and degenerate generators

---
 qopt/matrix.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index c77968d..6ec28ca 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -992,13 +992,16 @@ class DenseOperator(OperatorMatrix):
         if is_skew_hermitian:
             eig_val, eig_vec = np.linalg.eigh(-1j * self.data)
             eig_val = 1j * eig_val
+            eig_vec_inv = eig_vec.conj().T
         else:
             eig_val, eig_vec = np.linalg.eig(self.data)
+            # the eigenvectors are in general not orthogonal
+            eig_vec_inv = np.linalg.inv(eig_vec)
 
         # apply the exponential function to the eigenvalues and invert the
         # diagonalization transformation
-        exp = np.einsum('ij,j,kj->ik', eig_vec, np.exp(tau * eig_val),
-                        eig_vec.conj())
+        exp = np.einsum('ij,j,jk->ik', eig_vec, np.exp(tau * eig_val),
+                        eig_vec_inv)
 
         return DenseOperator(exp)
 
@@ -1038,29 +1041,31 @@ class DenseOperator(OperatorMatrix):
         if is_skew_hermitian:
             eig_val, eig_vec = np.linalg.eigh(-1j * self.data)
             eig_val = 1j * eig_val
+            eig_vec_inv = eig_vec.conj().T
         else:
             eig_val, eig_vec = np.linalg.eig(self.data)
-
-        eig_vec_dag = eig_vec.conj().T
+            # the eigenvectors are in general not orthogonal
+            eig_vec_inv = np.linalg.inv(eig_vec)
 
         eig_val_cols = eig_val * np.ones(self.shape)
         eig_val_diffs = eig_val_cols - eig_val_cols.T
 
-        # avoid devision by zero
-        eig_val_diffs += np.eye(self.data.shape[0])
+        # avoid devision by zero for degenerate eigenvalues
+        degenerate = eig_val_diffs == 0
+        eig_val_diffs[degenerate] = 1
 
-        omega = (np.exp(eig_val_diffs * tau) - 1.) / eig_val_diffs
+        omega = np.expm1(eig_val_diffs * tau) / eig_val_diffs
 
-        # override the false diagonal elements.
-        np.fill_diagonal(omega, tau)
+        # override the elements of degenerate eigenvalues.
+        omega[degenerate] = tau
 
-        direction_transformed = eig_vec @ direction.data @ eig_vec_dag
+        direction_transformed = eig_vec_inv @ direction.data @ eig_vec
         dk_dalpha = direction_transformed * omega
 
         exp = np.einsum('ij,j,jk->ik', eig_vec, np.exp(tau * eig_val),
-                        eig_vec_dag)
+                        eig_vec_inv)
         # einsum might be less accurate than the @ operator
-        dv_dalpha = eig_vec_dag @ dk_dalpha @ eig_vec
+        dv_dalpha = eig_vec @ dk_dalpha @ eig_vec_inv
         du_dalpha = exp @ dv_dalpha
 
         if compute_expm:
-- 
2.43.0


From 740c5f13c91d195026cbbf237f6455bba809b10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:16 +0000
Subject: [PATCH 02/55] fix: truncation of ket vectors to a subspace

---
 qopt/matrix.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index 6ec28ca..1e2ded8 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -1300,12 +1300,12 @@ class DenseOperator(OperatorMatrix):
             # bra-vector
             out = type(self)(self.data[np.ix_([0], subspace_indices)])
             if map_to_closest_unitary:
-                out *= 1 / out.norm('fre')
-        elif self.shape[0] == 1:
+                out *= 1 / out.norm('fro')
+        elif self.shape[1] == 1:
             # ket-vector
             out = type(self)(self.data[np.ix_(subspace_indices, [0])])
             if map_to_closest_unitary:
-                out *= 1 / out.norm('fre')
+                out *= 1 / out.norm('fro')
         else:
             out = type(self)(self.data[np.ix_(subspace_indices)])
 
-- 
2.43.0


From 9eb21276e7b141511fa7b9093a5163cf89dab30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:18 +0000
Subject: [PATCH 03/55] fix: grape derivatives are indexed by control, then
 time

---
 qopt/solver_algorithms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 5ce5f68..fd1cbe0 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -966,12 +966,13 @@ class SchroedingerSolver(Solver):
             if self._prop is None:
                 self._compute_propagation(
                     calculate_propagator_derivatives=False)
-            self._derivative_prop = [[None for _ in range(len(self.h_ctrl))]
-                                     for _2 in range(len(self.transferred_time))]
+            self._derivative_prop = [
+                [None for _ in range(len(self.transferred_time))]
+                for _2 in range(len(self.h_ctrl))]
             derivative_directions = self._compute_derivative_directions()
             for t in range(len(self.transferred_time)):
                 for ctrl in range(len(self.h_ctrl)):
-                    self._derivative_prop[t][ctrl] = \
+                    self._derivative_prop[ctrl][t] = \
                         self.transferred_time[t] * derivative_directions[t][ctrl] \
                         * self._prop[t]
         else:
-- 
2.43.0


From 19f7d2c844a8d2d4e61369bb762500a08ae58256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:18 +0000
Subject: [PATCH 04/55] fix: rejected or later edited parameter arrays do not
 alter a solver

---
 qopt/solver_algorithms.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index fd1cbe0..dc9b34e 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -373,19 +373,20 @@ class Solver(ABC):
 
         if np.array_equal(self._opt_pars, y):
             return
-        else:
-            self._opt_pars = np.copy(y)
+
+        # The identity transfer and amplitude functions return their argument,
+        # which must not be the array of the caller.
+        y = np.copy(y)
 
         if self.transfer_function is not None:
-            self.transferred_parameters = self.transfer_function(y)
+            transferred_parameters = self.transfer_function(y)
         else:
-            self.transferred_parameters = np.copy(y)
+            transferred_parameters = y
 
         if self.amplitude_function is not None:
-            u = self.amplitude_function(
-                self.transferred_parameters)
+            u = self.amplitude_function(transferred_parameters)
         else:
-            u = self.transferred_parameters
+            u = transferred_parameters
 
         if len(u.shape) != 2:
             raise ValueError('The new control amplitudes must have two '
@@ -400,6 +401,9 @@ class Solver(ABC):
             raise ValueError('The new control amplitudes do not have the '
                              'correnct number of entries on the control axis!')
 
+        # the new parameters are only stored once they have been accepted
+        self._opt_pars = y
+        self.transferred_parameters = transferred_parameters
         self._ctrl_amps = u
         self.reset_cached_propagators()
 
-- 
2.43.0


From 01c6952056d12a47d4989906476d9d9ab093ca1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:18 +0000
Subject: [PATCH 05/55] fix: do not sum the dissipators into the first given
 super operator

---
 qopt/solver_algorithms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index dc9b34e..28a4a46 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -1923,7 +1923,8 @@ class LindbladSolver(SchroedingerSolver):
                                    factor_at_time_t[1:]):
                         self._diss_sup_op[-1] += sup_op * factor
             else:
-                self._diss_sup_op = [const_diss_sup_op[0], ]
+                # copy, because the operator might be given by the user
+                self._diss_sup_op = [const_diss_sup_op[0].copy(), ]
                 for sup_op in const_diss_sup_op[1:]:
                     self._diss_sup_op[0] += sup_op
                 self._diss_sup_op *= len(self.transferred_time)
-- 
2.43.0


From e4d8874d06ba186218adb90d1d8574d4922f1e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:18 +0000
Subject: [PATCH 06/55] fix: a solver with a new time grid recalculates
 amplitudes, drift and dissipators

---
 qopt/solver_algorithms.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 28a4a46..c0e3085 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -323,23 +323,24 @@ class Solver(ABC):
         else:
             self.transfer_function = transfer_function
 
-        self.transferred_time = None
-        self.set_times(tau=tau)
-
+        # a single drift operator is repeated for each time step
         if type(h_drift) in [matrix.DenseOperator, matrix.SparseOperator]:
-            self.h_drift = [h_drift, ] * self.transfer_function.num_x
+            self._constant_h_drift = [h_drift, ]
         elif len(h_drift) == 1:
-            self.h_drift = h_drift * self.transfer_function.num_x
+            self._constant_h_drift = h_drift
         else:
+            self._constant_h_drift = None
             self.h_drift = h_drift
 
+        self.transferred_time = None
+        self.transferred_parameters = None
+        self.set_times(tau=tau)
+
         if amplitude_function is None:
             self.amplitude_function = IdentityAmpFunc()
         else:
             self.amplitude_function = amplitude_function
 
-        self.transferred_parameters = None
-
         self.consistency_checks(paranoia_level=paranoia_level)
 
     def set_times(self, tau):
@@ -355,6 +356,18 @@ class Solver(ABC):
         self.transferred_time = self.transfer_function.x_times
         self.reset_cached_propagators()
 
+        if self._constant_h_drift is not None:
+            self.h_drift = self._constant_h_drift * len(self.transferred_time)
+
+        if self.transferred_parameters is not None:
+            # The control amplitudes must be calculated on the new time grid.
+            opt_pars = self._opt_pars
+            self._opt_pars = None
+            self.transferred_parameters = None
+            self._ctrl_amps = None
+            if opt_pars.shape[0] == len(tau):
+                self.set_optimization_parameters(opt_pars)
+
     def set_optimization_parameters(self, y: np.array) -> None:
         """
         Set the control amplitudes.
@@ -1872,10 +1885,8 @@ class LindbladSolver(SchroedingerSolver):
     def reset_cached_propagators(self):
         """ See base class. """
         super().reset_cached_propagators()
-        if self._prefactor_function is not None \
-                or self._sup_op_func is not None:
-            self._diss_sup_op = None
-            self._diss_sup_op_deriv = None
+        self._diss_sup_op = None
+        self._diss_sup_op_deriv = None
 
     def _calc_diss_sup_op(self) -> List[q_mat.OperatorMatrix]:
         r"""
-- 
2.43.0


From 80202c28cd19c9af7c4df50539437c2250caedc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 07/55] fix: Monte Carlo solvers evaluate and register the
 filter function noise like other solvers

---
 qopt/solver_algorithms.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index c0e3085..0c681e2 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -1481,18 +1481,17 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
             Noise Hamiltonian of the filter function formalism.
 
         """
-        if type(self._filter_function_h_n) == list:
-            h_n = self._filter_function_h_n
-        else:
-            h_n = self._filter_function_h_n(self._opt_pars)
+        if type(self._filter_function_h_n) != list \
+                or self._filter_function_h_n:
+            return super().create_ff_h_n
 
-        if not h_n:
-            h_n = []
-            for i, noise_operator in enumerate(self.h_noise):
-                if type(noise_operator) == matrix.DenseOperator:
-                    noise_operator = noise_operator.data
-                h_n += [[noise_operator, len(self.transferred_time) * [1], 'Noise' + str(i)], ]
+        h_n = []
+        for i, noise_operator in enumerate(self.h_noise):
+            if type(noise_operator) == matrix.DenseOperator:
+                noise_operator = noise_operator.data
+            h_n += [[noise_operator, len(self.transferred_time) * [1], 'Noise' + str(i)], ]
 
+        self.filter_function_n_oper_identifiers = [term[2] for term in h_n]
         return h_n
 
 
-- 
2.43.0


From e563511b550a2faf25f05c79c48332da87d4a0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:36 +0000
Subject: [PATCH 08/55] fix: unary amplitude functions do not take the data
 type of their first value

---
 qopt/amplitude_functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qopt/amplitude_functions.py b/qopt/amplitude_functions.py
index 832a94c..068a3fa 100644
--- a/qopt/amplitude_functions.py
+++ b/qopt/amplitude_functions.py
@@ -158,8 +158,9 @@ class UnaryAnalyticAmpFunc(AmplitudeFunction):
     def __init__(self,
                  value_function: Callable[[float, ], float],
                  derivative_function: Callable[[float, ], float]):
-        self.value_function = np.vectorize(value_function)
-        self.derivative_function = np.vectorize(derivative_function)
+        self.value_function = np.vectorize(value_function, otypes=[float])
+        self.derivative_function = np.vectorize(
+            derivative_function, otypes=[float])
 
     def __call__(self, x: np.ndarray) -> np.ndarray:
         """See base class. """
-- 
2.43.0


From 14be558d94f37aa38b152ad3e73f8e202ebeea36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:11 +0000
Subject: [PATCH 09/55] fix: matrix transfer functions recalculate the transfer
 matrix for new time steps

---
 qopt/transfer_function.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index d1ccc38..cd35b81 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1063,6 +1063,12 @@ class ParallelTF(TransferFunction):
 
 class MatrixTF(TransferFunction):
 
+    def set_times(self, y_times: np.array) -> None:
+        """See base class. """
+        super().set_times(y_times)
+        # the transfer matrix depends on the time steps
+        self._transfer_matrix = None
+
     def __call__(self, y: np.array) -> np.array:
         """Calculate the transferred optimization parameters (x).
 
@@ -1299,6 +1305,7 @@ class ParallelMTF(MatrixTF):
         self._y_times = self.tf1._y_times
         self.num_x = self.tf1.num_x
         self.x_times = self.tf1.x_times
+        self._transfer_matrix = None
 
 
 class CustomMTF(MatrixTF):
@@ -1383,7 +1390,8 @@ class CustomMTF(MatrixTF):
                 raise ValueError('Unknown boundary type:'
                                  + str(self.bound_type[0]))
             self.oversampling = int(self.oversampling)
-            super().set_times(y_times)
+            # the transfer matrix is given and does not depend on the times
+            TransferFunction.set_times(self, y_times)
         else:
             y_times = np.squeeze(y_times)
             self.x_times = y_times
-- 
2.43.0


From 90a9b5c9a743e0eb8e4793f9b41ae46c624696f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:11 +0000
Subject: [PATCH 10/55] fix: the custom transfer function keeps explicit
 x_times and can be set to new time steps

---
 qopt/transfer_function.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index cd35b81..4cff83e 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1358,6 +1358,7 @@ class CustomMTF(MatrixTF):
         self._num_y = transfer_matrix.shape[1]
         self.num_x = transfer_matrix.shape[0]
         self.x_times = x_times
+        self._explicit_x_times = x_times is not None
         self.bound_type = bound_type
         self.oversampling = oversampling
 
@@ -1368,7 +1369,10 @@ class CustomMTF(MatrixTF):
 
     def set_times(self, y_times: np.ndarray) -> None:
         """See base class."""
-        if self.x_times is None:
+        if np.size(y_times) != self._num_y:
+            raise ValueError('Trying to set y_times, which do not fit the '
+                             'dimension of the transfer function.')
+        if not self._explicit_x_times:
             # construct the oversampling
             if self.bound_type is None:
                 # assume no padding
@@ -1393,11 +1397,7 @@ class CustomMTF(MatrixTF):
             # the transfer matrix is given and does not depend on the times
             TransferFunction.set_times(self, y_times)
         else:
-            y_times = np.squeeze(y_times)
-            self.x_times = y_times
-            if len(y_times) != self._num_y:
-                raise ValueError('Trying to set x_times, which do not fit the'
-                                 'dimension of the transfer function.')
+            self._y_times = np.atleast_1d(np.squeeze(y_times))
 
     def _calculate_transfer_matrix(self):
         """See base class. """
-- 
2.43.0


From 7af0da2daf3b0e034d68148788dd2b82b3863f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:11 +0000
Subject: [PATCH 11/55] fix: the concatenated matrix transfer function can be
 applied and differentiated

---
 qopt/transfer_function.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index 4cff83e..b19f691 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1210,12 +1210,10 @@ class ConcatenateMTF(MatrixTF):
         self.x_times = tf2.x_times
         self.num_x = tf2.num_x
 
-    @property
-    def transfer_matrix(self):
-        """The total transfer matrix is the product of the individual ones."""
-        return np.einsum('ijk,jlk->ilk',
-                         self.tf2.transfer_matrix,
-                         self.tf1.transfer_matrix)
+    def __call__(self, y: np.ndarray) -> np.ndarray:
+        """Calls the concatenated transfer functions in sequence."""
+        self._check_dimensions_datatype(y)
+        return self.tf2(self.tf1(y))
 
     def set_times(self, y_times: np.ndarray) -> None:
         """
@@ -1235,16 +1233,18 @@ class ConcatenateMTF(MatrixTF):
         self._y_times = self.tf1._y_times
         self.x_times = self.tf2.x_times
         self.num_x = self.tf2.num_x
-        return
+        self._transfer_matrix = None
 
     def plot_pulse(self, y: np.ndarray) -> None:
         """Calls the plot_pulse routine of the second transfer function."""
         self.tf2.plot_pulse(self.tf1(y))
 
     def _calculate_transfer_matrix(self):
-        """See base class. """
-        self.tf1._calculate_transfer_matrix()
-        self.tf2._calculate_transfer_matrix()
+        """The total transfer matrix is the product of the individual ones."""
+        self._transfer_matrix = np.einsum(
+            'ijk,jlk->ilk',
+            self.tf2.transfer_matrix,
+            self.tf1.transfer_matrix)
 
 
 class ParallelMTF(MatrixTF):
-- 
2.43.0


From 6ec5f767985d71cd6412e9c0c94b66b6c949fce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:11 +0000
Subject: [PATCH 12/55] fix: the parallel matrix transfer function adds the
 offsets of its parts

---
 qopt/transfer_function.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index b19f691..a120d54 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1292,6 +1292,15 @@ class ParallelMTF(MatrixTF):
             raise ValueError("The parallized transfer functions must have the "
                              "same oversampling.")
 
+    def __call__(self, y: np.ndarray) -> np.ndarray:
+        """The transfer functions are applied separately, because they can have
+        different offsets. """
+        self._check_dimensions_datatype(y)
+        return np.concatenate(
+            (self.tf1(y[:, :self.tf1.num_ctrls]),
+             self.tf2(y[:, self.tf1.num_ctrls:])),
+            axis=1)
+
     def _calculate_transfer_matrix(self):
         """See base class. """
         self._transfer_matrix = np.concatenate(
-- 
2.43.0


From 0c36dc4ea3ee18f27d41e16f31b6acbed9d0b5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:11 +0000
Subject: [PATCH 13/55] fix: the chain rule of convolutions applies the
 transposed convolution

---
 qopt/transfer_function.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index a120d54..ebb7514 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -741,7 +741,7 @@ class ConvolutionTF(TransferFunction):
             self, deriv_by_transferred_par: np.array) -> np.array:
         """ See base class.
 
-        The application of the chain rule is another convolution.
+        The application of the chain rule is the transposed convolution.
 
         Parameters
         ----------
@@ -761,11 +761,23 @@ class ConvolutionTF(TransferFunction):
         assert shape[2] == self.num_ctrls
         assert deriv_by_transferred_par.dtype in [np.float64, np.float32]
 
-        return scipy.ndimage.convolve(
-            deriv_by_transferred_par,
-            weights=np.expand_dims(self.kernel, axis=1),
-            cval=self.cval
-        )
+        # The chain rule requires the transposed convolution including its
+        # boundary conditions.
+        deriv_by_opt_par = np.zeros(
+            (self._num_y, shape[1], self.num_ctrls),
+            dtype=deriv_by_transferred_par.dtype)
+        for ctrl in range(self.num_ctrls):
+            # Convolution of the unit pulses on this control. The last axis
+            # denotes the time step of the pulse.
+            unit_pulses = np.zeros((self._num_y, self.num_ctrls, self._num_y))
+            unit_pulses[:, ctrl, :] = np.eye(self._num_y)
+            transfer_matrix = scipy.ndimage.convolve(
+                unit_pulses, weights=np.expand_dims(self.kernel, axis=2),
+                mode=self.mode, cval=0.
+            )
+            deriv_by_opt_par[:, :, ctrl] = np.einsum(
+                'ikj,ifk->jf', transfer_matrix, deriv_by_transferred_par)
+        return deriv_by_opt_par
 
     @property
     def transfer_matrix(self) -> np.array:
@@ -870,7 +882,7 @@ class GaussianConvolution(TransferFunction):
             self, deriv_by_transferred_par: np.array) -> np.array:
         """ See base class.
 
-        The application of the chain rule is another Gaussian filter.
+        The application of the chain rule is the transposed Gaussian filter.
 
         Parameters
         ----------
@@ -890,10 +902,14 @@ class GaussianConvolution(TransferFunction):
         assert shape[2] == self.num_ctrls
         assert deriv_by_transferred_par.dtype in [np.float64, np.float32]
 
-        return scipy.ndimage.gaussian_filter1d(
-            deriv_by_transferred_par, self.sigma, axis=0, order=self.order,
+        # The chain rule requires the transposed filter including its boundary
+        # conditions.
+        transfer_matrix = scipy.ndimage.gaussian_filter1d(
+            np.eye(self._num_y), self.sigma, axis=0, order=self.order,
             mode=self.mode, truncate=self.truncate
         )
+        return np.einsum('ij,ifk->jfk', transfer_matrix,
+                         deriv_by_transferred_par)
 
     @property
     def transfer_matrix(self) -> np.array:
-- 
2.43.0


From ca5fc8d4561a078b2b73477fa61ca2b50a1ae2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:11 +0000
Subject: [PATCH 14/55] fix: composed transfer functions report the padding of
 their parts

---
 qopt/transfer_function.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index ebb7514..45650af 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -957,6 +957,15 @@ class ConcatenateTF(TransferFunction):
         self.x_times = tf2.x_times
         self.num_x = tf2.num_x
 
+    @property
+    def num_padding_elements(self) -> (int, int):
+        """Padding of the first transfer function (oversampled by the second)
+        and of the second transfer function. """
+        start_1, end_1 = self.tf1.num_padding_elements
+        start_2, end_2 = self.tf2.num_padding_elements
+        return start_1 * self.tf2.oversampling + start_2, \
+            end_1 * self.tf2.oversampling + end_2
+
     def __call__(self, y: np.ndarray, *args, **kwargs):
         """Calls the concatenated transfer functions in sequence."""
         self._check_dimensions_datatype(y)
@@ -1041,6 +1050,11 @@ class ParallelTF(TransferFunction):
         self.num_x = self.tf1.num_x
         self._num_y = tf1._num_y
 
+    @property
+    def num_padding_elements(self) -> (int, int):
+        """Both transfer functions operate on the same time frame. """
+        return self.tf1.num_padding_elements
+
     def __call__(self, y: np.array) -> np.array:
         """See base class.
 
@@ -1226,6 +1240,15 @@ class ConcatenateMTF(MatrixTF):
         self.x_times = tf2.x_times
         self.num_x = tf2.num_x
 
+    @property
+    def num_padding_elements(self) -> (int, int):
+        """Padding of the first transfer function (oversampled by the second)
+        and of the second transfer function. """
+        start_1, end_1 = self.tf1.num_padding_elements
+        start_2, end_2 = self.tf2.num_padding_elements
+        return start_1 * self.tf2.oversampling + start_2, \
+            end_1 * self.tf2.oversampling + end_2
+
     def __call__(self, y: np.ndarray) -> np.ndarray:
         """Calls the concatenated transfer functions in sequence."""
         self._check_dimensions_datatype(y)
@@ -1308,6 +1331,11 @@ class ParallelMTF(MatrixTF):
             raise ValueError("The parallized transfer functions must have the "
                              "same oversampling.")
 
+    @property
+    def num_padding_elements(self) -> (int, int):
+        """Both transfer functions operate on the same time frame. """
+        return self.tf1.num_padding_elements
+
     def __call__(self, y: np.ndarray) -> np.ndarray:
         """The transfer functions are applied separately, because they can have
         different offsets. """
-- 
2.43.0


From 318f2be0642a801f343d408f6dedc18a2e17458f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:11 +0000
Subject: [PATCH 15/55] fix: transfer functions copy the time steps they are
 given

---
 qopt/transfer_function.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index 45650af..a1226ea 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -370,7 +370,8 @@ class TransferFunction(ABC):
         if not isinstance(y_times, np.ndarray):
             raise Exception("times must be a list or np.array")
 
-        y_times = np.atleast_1d(np.squeeze(y_times))
+        # copy, because the array belongs to the caller
+        y_times = np.array(np.atleast_1d(np.squeeze(y_times)))
 
         if len(y_times.shape) > 1:
             raise ValueError('The x_times should not have more than one '
@@ -1450,7 +1451,7 @@ class CustomMTF(MatrixTF):
             # the transfer matrix is given and does not depend on the times
             TransferFunction.set_times(self, y_times)
         else:
-            self._y_times = np.atleast_1d(np.squeeze(y_times))
+            self._y_times = np.array(np.atleast_1d(np.squeeze(y_times)))
 
     def _calculate_transfer_matrix(self):
         """See base class. """
-- 
2.43.0


From bb0c0b3a24b9e03a6b0a12941fb70a8e4c29e687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:51 +0000
Subject: [PATCH 16/55] fix: the pulse sequence can be created repeatedly for
 the same pulse

---
 qopt/solver_algorithms.py | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 0c681e2..b5e8cc8 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -740,27 +740,14 @@ class Solver(ABC):
         # nonlinear coupling), but in filter_functions the form H =
         # a(t) A is imposed, we don't tell the PulseSequence object
         # about H_drift and set the eigendecomposition after the fact.
-        if self.pulse_sequence is None:
-            h_c = list(zip(
-                self.h_ctrl,
-                self._ctrl_amps.T,
-                [f'Control{i}' for i in range(len(self.h_ctrl))]
-            ))
-            self.pulse_sequence = pulse_sequence.PulseSequence(
-                h_c, self.create_ff_h_n, self.transferred_time, basis
-            )
-        else:
-            # Clean up the caches and update coefficients
-            self.pulse_sequence.cleanup('all')
-            self.pulse_sequence.c_coeffs = self._ctrl_amps.T
-            # Not the most elegant, but necessary for the current
-            # implementation.
-            self.pulse_sequence.n_coeffs = pulse_sequence._parse_Hamiltonian(
-                self.create_ff_h_n,
-                len(self.transferred_time), 'H_n')[2]
-
-            if basis is not None:
-                self.pulse_sequence.basis = basis
+        h_c = list(zip(
+            self.h_ctrl,
+            self._ctrl_amps.T,
+            [f'Control{i}' for i in range(len(self.h_ctrl))]
+        ))
+        self.pulse_sequence = pulse_sequence.PulseSequence(
+            h_c, self.create_ff_h_n, self.transferred_time, basis
+        )
 
         self._diagonalize_and_propagate_pulse_sequence()
         return self.pulse_sequence
-- 
2.43.0


From 505f3a921246cf07e95cf5dc2d1f34e9739e6a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:51 +0000
Subject: [PATCH 17/55] fix: automatically chosen filter function frequencies
 follow the time steps

---
 qopt/cost_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 0bd8bff..f4c9499 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -1566,7 +1566,8 @@ class OperatorFilterFunctionInfidelity(CostFunction):
             if self.solver.pulse_sequence is None:
                 self.solver.create_pulse_sequence()
 
-            self._omega = filter_functions.util.get_sample_frequencies(
+            # depends on the time steps, which the solver can be given anew
+            return filter_functions.util.get_sample_frequencies(
                 pulse=self.solver.pulse_sequence,
                 n_samples=200,
                 spacing='log',
-- 
2.43.0


From 0922636ceb14c8d9bc69743ea53ed6fd4ca72afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:49 +0000
Subject: [PATCH 18/55] fix: the grape approximation does not depend on which
 quantity is read first

---
 qopt/solver_algorithms.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index b5e8cc8..ba9d622 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -960,11 +960,12 @@ class SchroedingerSolver(Solver):
         """
         Computes the frechet derivatives of the propagators.
 
-        The derivatives are not returned but cached. Since the function is only
-        called when no derivatives are cached, the approximation is
-        prioritised.
+        The derivatives are not returned but cached. The approximation is
+        never used, if calculate_propagator_derivatives is set to True, because
+        the derivatives are then calculated along with the propagators.
         """
-        if not self.frechet_deriv_approx_method:
+        if self.calculate_propagator_derivatives \
+                or not self.frechet_deriv_approx_method:
             self._compute_propagation(calculate_propagator_derivatives=True)
         elif self.frechet_deriv_approx_method == 'grape':
             if self._prop is None:
@@ -1418,11 +1419,12 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
         """
         Computes the frechet derivatives of the propagators.
 
-        The derivatives are not returned but cached. Since the function is only
-        called when no derivatives are cached, the approximation is
-        prioritised.
+        The derivatives are not returned but cached. The approximation is
+        never used, if calculate_propagator_derivatives is set to True, because
+        the derivatives are then calculated along with the propagators.
         """
-        if not self.frechet_deriv_approx_method:
+        if self.calculate_propagator_derivatives \
+                or not self.frechet_deriv_approx_method:
             self._compute_propagation(calculate_propagator_derivatives=True)
         elif self.frechet_deriv_approx_method == 'grape':
             super()._compute_propagation_derivatives()
-- 
2.43.0


From da7c811043ba23d97d49b9fd611b38d8b95b9ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:11 +0000
Subject: [PATCH 19/55] fix: OperatorMatrixNorm can be constructed

---
 qopt/cost_functions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index f4c9499..dac357d 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -260,8 +260,7 @@ class OperatorMatrixNorm(CostFunction):
     def __init__(self, solver: solver_algorithms.Solver,
                  target: matrix.OperatorMatrix, mode: str = 'scalar',
                  label: Optional[List[str]] = None):
-        super().__init__()
-        self.solver = solver
+        super().__init__(solver=solver, label=label)
         self.target = target
         self.mode = mode
         if label is not None:
-- 
2.43.0


From 2c4549085689e45b5a79e2d9b22b3cfe0c63a46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:11 +0000
Subject: [PATCH 20/55] fix: the angle axis representation checks all elements
 for unitarity

---
 qopt/cost_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index dac357d..23729e3 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -184,7 +184,7 @@ def angle_axis_representation(u: np.ndarray) \
     is_unitary = np.isclose(ident[0, 0], 1) \
                  and np.isclose(ident[1, 0], 0) \
                  and np.isclose(ident[0, 1], 0) \
-                 and np.isclose(ident[0, 0], 1)
+                 and np.isclose(ident[1, 1], 1)
 
     if not is_unitary:
         raise ValueError("Your input matrix must be unitary to calculate a "
-- 
2.43.0


From f88bdc074f71a85a397cc7ba34a702c31564dc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:11 +0000
Subject: [PATCH 21/55] fix: the warning of the subspace state fidelity does
 not index a scalar

---
 qopt/cost_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 23729e3..5355c40 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -628,7 +628,7 @@ def state_fidelity_subspace(
     scalar_prod = scalar_prod[0, 0]
     scalar_prod_real = scalar_prod.real
     if np.abs(scalar_prod - scalar_prod_real) > 1e-5:
-        scalar_prod_real = np.abs(scalar_prod[0, 0])
+        scalar_prod_real = np.abs(scalar_prod)
         print("Warning: the calculated fidelity should be real but has an "
               "imaginary component of : " + str(scalar_prod.imag))
     return scalar_prod_real
-- 
2.43.0


From 32b73d4f1da558a716c8acf6db83ddfd3d4d7b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:11 +0000
Subject: [PATCH 22/55] fix: the state noise infidelity can be used without
 target

---
 qopt/cost_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 5355c40..9fed5d4 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -1128,7 +1128,7 @@ class StateNoiseInfidelity(CostFunction):
         self.solver = solver
 
         # assure target is a bra vector
-        if target.shape[0] > target.shape[1]:
+        if target is not None and target.shape[0] > target.shape[1]:
             self.target = target.dag()
         else:
             self.target = target
-- 
2.43.0


From 48f1e754c545e707a5a44a8a9e43508451c3c0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:11 +0000
Subject: [PATCH 23/55] fix: setting the pulse of a simulator uses the shape of
 the new pulse

---
 qopt/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/simulator.py b/qopt/simulator.py
index f248460..3d055f2 100644
--- a/qopt/simulator.py
+++ b/qopt/simulator.py
@@ -145,7 +145,7 @@ class Simulator(object):
     def pulse(self, new_pulse):
         """Sets the pulse and the corresponding attributes accordingly. """
         if new_pulse is not None:
-            self._num_times, self._num_ctrl = self._optimization_parameteres.shape
+            self._num_times, self._num_ctrl = new_pulse.shape
         self._optimization_parameteres = new_pulse
 
     @needs_refactoring
-- 
2.43.0


From 97d6fa3f1a16afcd4345450ee664f89bc6d02421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:15 +0000
Subject: [PATCH 24/55] fix: fidelity gradients include the mapping to the
 closest unitary or normalised state

---
 qopt/cost_functions.py | 85 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 70 insertions(+), 15 deletions(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 9fed5d4..f729058 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -401,6 +401,56 @@ class OperatorMatrixNorm(CostFunction):
         return jacobian
 
 
+def _derivative_truncate_to_subspace(
+        operator: matrix.OperatorMatrix,
+        direction: matrix.OperatorMatrix,
+        computational_states: List[int],
+        map_to_closest_unitary: bool
+) -> matrix.OperatorMatrix:
+    """
+    Directional derivative of the truncation to a subspace.
+
+    Parameters
+    ----------
+    operator: OperatorMatrix
+        The propagator or state which is truncated.
+
+    direction: OperatorMatrix
+        The derivative of the propagator or state.
+
+    computational_states: list of int
+        The indices of the subspace.
+
+    map_to_closest_unitary: bool
+        If True, then the truncated propagator is mapped to the closest
+        unitary or the truncated state is normalised.
+
+    Returns
+    -------
+    derivative: OperatorMatrix
+        The derivative of the truncated propagator or state.
+
+    """
+    truncated_direction = direction.truncate_to_subspace(computational_states)
+    if not map_to_closest_unitary:
+        return truncated_direction
+
+    truncated = operator.truncate_to_subspace(computational_states).data
+    deriv = truncated_direction.data
+    if 1 in truncated.shape:
+        norm = np.linalg.norm(truncated)
+        overlap = np.sum(truncated.conj() * deriv).real
+        deriv = deriv / norm - truncated * overlap / norm ** 3
+    else:
+        # The closest unitary is the unitary factor of the polar decomposition.
+        left, singular_values, right_h = np.linalg.svd(truncated)
+        temp = left.conj().T @ deriv @ right_h.conj().T
+        temp = (temp - temp.conj().T) / np.add.outer(
+            singular_values, singular_values)
+        deriv = left @ temp @ right_h
+    return type(direction)(deriv)
+
+
 def state_fidelity(
         target: Union[np.ndarray, matrix.OperatorMatrix],
         propagated_state: Union[np.ndarray, matrix.OperatorMatrix],
@@ -529,14 +579,14 @@ def derivative_state_fidelity(
             if computational_states:
                 derivative_fidelity[t, ctrl] = 2 * np.real(
                     (scalar_prod * (
-                            target * (
-                            reversed_propagators[::-1][t + 1]
-                            * propagator_derivatives[ctrl][t]
-                            * forward_propagators[t]
-                    ).truncate_to_subspace(
-                        subspace_indices=computational_states,
-                        map_to_closest_unitary=rescale_propagated_state
-                    )
+                            target * _derivative_truncate_to_subspace(
+                                forward_propagators[-1],
+                                reversed_propagators[::-1][t + 1]
+                                * propagator_derivatives[ctrl][t]
+                                * forward_propagators[t],
+                                computational_states,
+                                rescale_propagated_state
+                            )
                     ))[0, 0])
             else:
                 derivative_fidelity[t, ctrl] = 2 * np.real(
@@ -812,11 +862,13 @@ def derivative_entanglement_fidelity_with_du(
             # here we need to take the real part.
             if computational_states:
                 derivative_fidelity[t, ctrl] = 2 / d / d * np.real(
-                    trace * ((reversed_propagators[::-1][t + 1]
-                              * propagator_derivatives[ctrl][t]
-                              * forward_propagators[t]).truncate_to_subspace(
-                        subspace_indices=computational_states,
-                        map_to_closest_unitary=map_to_closest_unitary
+                    trace * (_derivative_truncate_to_subspace(
+                        forward_propagators[-1],
+                        reversed_propagators[::-1][t + 1]
+                        * propagator_derivatives[ctrl][t]
+                        * forward_propagators[t],
+                        computational_states,
+                        map_to_closest_unitary
                     )
                              * target_unitary_dag).tr())
             else:
@@ -1307,6 +1359,7 @@ class OperationInfidelity(CostFunction):
                 reversed_propagators=self.solver.reversed_propagators,
                 propagator_derivatives=self.solver.frechet_deriv_propagators,
                 computational_states=self.computational_states,
+                map_to_closest_unitary=self.map_to_closest_unitary
             )
         else:
             raise NotImplementedError('Only the average and entanglement'
@@ -1435,7 +1488,8 @@ class OperationNoiseInfidelity(CostFunction):
                 propagator_derivatives=
                 self.solver.frechet_deriv_propagators_noise[i],
                 reversed_propagators=self.solver.reversed_propagators_noise[i],
-                computational_states=self.computational_states
+                computational_states=self.computational_states,
+                map_to_closest_unitary=self.map_to_closest_unitary
             )
             if self.neglect_systematic_errors:
                 temp_target = self._to_comp_space(
@@ -1447,7 +1501,8 @@ class OperationNoiseInfidelity(CostFunction):
                     propagator_derivatives=
                     self.solver.frechet_deriv_propagators,
                     reversed_propagators=self.solver.reversed_propagators,
-                    computational_states=self.computational_states
+                    computational_states=self.computational_states,
+                    map_to_closest_unitary=self.map_to_closest_unitary
                 )
             derivative[:, :, i] = np.real(temp)
         return np.mean(-derivative, axis=2)
-- 
2.43.0


From 5dc7929fa35eda2a5760cd7302b09f2bf0b0fb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:26 +0000
Subject: [PATCH 25/55] fix: exponential transfer function of a single time
 step with padding

---
 qopt/transfer_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index a1226ea..415b8f2 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1583,7 +1583,7 @@ class ExponentialMTF(MatrixTF):
 
         # for the padding at the beginning
         dudx[0:self.oversampling, 0] = one_minus_exp
-        if self.num_x > self.oversampling:
+        if self._num_y > 1:
             dudx[self.oversampling:2 * self.oversampling, 0] = exp
 
         # main part
-- 
2.43.0


From dea8acfab4f239b646c70896785869c708f3e033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:36 +0000
Subject: [PATCH 26/55] fix: the custom transfer function derives its
 oversampling also for explicit x_times

---
 qopt/transfer_function.py | 43 ++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index 415b8f2..6e788a6 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1426,28 +1426,29 @@ class CustomMTF(MatrixTF):
         if np.size(y_times) != self._num_y:
             raise ValueError('Trying to set y_times, which do not fit the '
                              'dimension of the transfer function.')
-        if not self._explicit_x_times:
-            # construct the oversampling
-            if self.bound_type is None:
-                # assume no padding
+        # construct the oversampling
+        if self.bound_type is None:
+            # assume no padding
+            if self.num_x % self._num_y == 0:
                 self.oversampling = self.num_x // self._num_y
-                if self.num_x % self._num_y:
-                    raise ValueError('Dimensions of transfer matrix '
-                                     'impossible if no padding is used.'
-                                     'State the boundary_type!')
-            elif self.bound_type[0] == 'n':
-                self.oversampling = (self.num_x - 2
-                                     * self.bound_type[1]) / self._num_y
-            elif self.bound_type[0] == 'x':
-                self.oversampling = self.num_x / (2 * self.bound_type[1]
-                                                   + self._num_y)
-            elif self.bound_type[0] == 'right_n':
-                self.oversampling = (self.num_x - self.bound_type[
-                    1]) / self._num_y
-            else:
-                raise ValueError('Unknown boundary type:'
-                                 + str(self.bound_type[0]))
-            self.oversampling = int(self.oversampling)
+            elif not self._explicit_x_times:
+                raise ValueError('Dimensions of transfer matrix '
+                                 'impossible if no padding is used.'
+                                 'State the boundary_type!')
+        elif self.bound_type[0] == 'n':
+            self.oversampling = (self.num_x - 2
+                                 * self.bound_type[1]) / self._num_y
+        elif self.bound_type[0] == 'x':
+            self.oversampling = self.num_x / (2 * self.bound_type[1]
+                                               + self._num_y)
+        elif self.bound_type[0] == 'right_n':
+            self.oversampling = (self.num_x - self.bound_type[
+                1]) / self._num_y
+        else:
+            raise ValueError('Unknown boundary type:'
+                             + str(self.bound_type[0]))
+        self.oversampling = int(self.oversampling)
+        if not self._explicit_x_times:
             # the transfer matrix is given and does not depend on the times
             TransferFunction.set_times(self, y_times)
         else:
-- 
2.43.0


From 9bd3ffed899f2835403b78a4937c70a9d0bb78b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:09 +0000
Subject: [PATCH 27/55] fix: partial trace over no or all subsystems

---
 qopt/matrix.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index 1e2ded8..451705e 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -946,10 +946,10 @@ class DenseOperator(OperatorMatrix):
         pmat = np.trace(mat.reshape(dims + dims)
                            .transpose(remove + [n_dim + q for q in remove] +
                                       keep + [n_dim + q for q in keep])
-                           .reshape([np.prod(dims_rm),
-                                    np.prod(dims_rm),
-                                    np.prod(dims_keep),
-                                    np.prod(dims_keep)])
+                           .reshape([np.prod(dims_rm, dtype=int),
+                                    np.prod(dims_rm, dtype=int),
+                                    np.prod(dims_keep, dtype=int),
+                                    np.prod(dims_keep, dtype=int)])
                         )
 
         if do_copy:
-- 
2.43.0


From dcfcba46b11852e4aff679fe26e527ed01c92264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:10 +0000
Subject: [PATCH 28/55] fix: the product of a numpy array with an operator is
 the matrix product

---
 qopt/matrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index 451705e..22d1b47 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -102,6 +102,9 @@ class OperatorMatrix(ABC):
         The stored data. Its type is defined in subclasses.
     """
 
+    # numpy arrays on the left side leave the multiplication to __rmul__
+    __array_priority__ = 100
+
     def __init__(self) -> None:
         self.data = None
         self._size = 0
-- 
2.43.0


From bc9dd93e06f69932952657763d7a4ef8b7a4b84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:44 +0000
Subject: [PATCH 29/55] fix: finite difference derivatives subtract the
 exponential of the same method

The approx method subtracted the spectral exponential from the scipy
exponential and divided the rounding differences by epsilon.
---
 qopt/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index 22d1b47..e6c77fa 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -1242,7 +1242,7 @@ class DenseOperator(OperatorMatrix):
         elif method == "approx":
             d_m = (self.data + epsilon * direction.data) * tau
             dprop = la.expm(d_m)
-            prop = self.exp(tau)
+            prop = self.exp(tau, method=method)
             prop_grad = (DenseOperator(dprop) - prop) * (1 / epsilon)
 
         elif method == "first_order":
-- 
2.43.0


From ac463c53b7a9297cfb4ca3d938bedaac79c25d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:45 +0000
Subject: [PATCH 30/55] fix: propagators of finite order methods do not depend
 on the derivatives being read

Calculating the propagator derivatives replaced the truncated series by the
exact exponential.
---
 qopt/solver_algorithms.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index ba9d622..d5616f1 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -78,6 +78,9 @@ from qopt.transfer_function import TransferFunction, IdentityTF
 from qopt.amplitude_functions import AmplitudeFunction, IdentityAmpFunc
 from qopt.util import needs_refactoring
 
+# exponentiation methods which truncate the taylor series
+SERIES_METHODS = ('first_order', 'second_order', 'third_order')
+
 
 class Solver(ABC):
     r"""
@@ -950,6 +953,11 @@ class SchroedingerSolver(Solver):
                         raise ValueError('The computation has failed with '
                                          'a value error. Try another '
                                          'exponentiation method.')
+                if self.exponential_method in SERIES_METHODS:
+                    # dexp returns the exact exponential for these methods
+                    self._prop[t] = self._dyn_gen[t].exp(
+                        tau=self.transferred_time[t],
+                        method=self.exponential_method)
         else:
             for t in range(len(self.transferred_time)):
                 self._prop[t] = self._dyn_gen[t].exp(
@@ -1353,6 +1361,11 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
                                 compute_expm=True,
                                 method=self.exponential_method,
                                 is_skew_hermitian=self._is_skew_hermitian)
+                        if self.exponential_method in SERIES_METHODS:
+                            self._prop_noise[k][t] = \
+                                self._dyn_gen_noise[k][t].exp(
+                                    tau=self.transferred_time[t],
+                                    method=self.exponential_method)
             else:
                 for k in range(n_noise_traces):
                     for t in range(num_t):
-- 
2.43.0


From 293a1ed4b646375efb8ac4d72e214691c08ae6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:44 +0000
Subject: [PATCH 31/55] fix: the exponential next to series derivatives does
 not need eigenvectors

dexp used the spectral exponential next to the derivative of the truncated
series, which is wrong or fails for generators without a basis of
eigenvectors.
---
 qopt/matrix.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index e6c77fa..eabf32e 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -1247,19 +1247,19 @@ class DenseOperator(OperatorMatrix):
 
         elif method == "first_order":
             if compute_expm:
-                prop = self.exp(tau)
+                prop = self.exp(tau, method="Frechet")
             prop_grad = direction.data * tau
 
         elif method == "second_order":
             if compute_expm:
-                prop = self.exp(tau)
+                prop = self.exp(tau, method="Frechet")
             prop_grad = direction.data * tau
             prop_grad += (self.data @ direction.data
                           + direction.data @ self.data) * (tau * tau * 0.5)
 
         elif method == "third_order":
             if compute_expm:
-                prop = self.exp(tau)
+                prop = self.exp(tau, method="Frechet")
             prop_grad = direction.data * tau
             prop_grad += (self.data @ direction.data
                           + direction.data @ self.data) * tau * tau * 0.5
-- 
2.43.0


From 82ec945bd6bc032c5c4ba99365aed65e826e8db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:38 +0000
Subject: [PATCH 32/55] fix: the noise generator does not rescale the list of
 the caller

---
 qopt/noise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qopt/noise.py b/qopt/noise.py
index bc81527..dc1f2bd 100644
--- a/qopt/noise.py
+++ b/qopt/noise.py
@@ -443,7 +443,8 @@ class NTGQuasiStatic(NoiseTraceGenerator):
                          n_traces=n_traces,
                          n_noise_operators=n_noise_operators,
                          always_redraw_samples=always_redraw_samples)
-        self.standard_deviation = standard_deviation
+        # the list is rescaled below, the caller keeps its own
+        self.standard_deviation = list(standard_deviation)
         self.sampling_mode = sampling_mode
 
         if correct_std_for_discrete_sampling:
-- 
2.43.0


From 51bc51dfd5b848bb05077614ab1f47ff8a33cdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:38 +0000
Subject: [PATCH 33/55] fix: the discretisation correction counts the traces of
 each noise operator

The correction was calculated for the total number of traces, but each
operator is sampled with n_traces points only.
---
 qopt/noise.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qopt/noise.py b/qopt/noise.py
index dc1f2bd..89e9faf 100644
--- a/qopt/noise.py
+++ b/qopt/noise.py
@@ -448,14 +448,16 @@ class NTGQuasiStatic(NoiseTraceGenerator):
         self.sampling_mode = sampling_mode
 
         if correct_std_for_discrete_sampling:
-            if self.n_traces == 1:
+            # number of traces sampled for each standard deviation
+            n_traces_per_std = self._n_traces or self.n_traces
+            if n_traces_per_std == 1:
                 raise RuntimeWarning('Standard deviation cannot be estimated'
                                      'for a single trace!')
             elif self.sampling_mode == 'uncorrelated_deterministic':
                 for i in range(len(self.standard_deviation)):
                     samples = sample_1dim_gaussian_distribution(
                         std=self.standard_deviation[i],
-                        n_samples=self.n_traces
+                        n_samples=n_traces_per_std
                     )
                     actual_std = np.std(samples)
                     if actual_std < 1e-20:
-- 
2.43.0


From 427c2a99af923639dca21aa0afe898361e18f8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:38 +0000
Subject: [PATCH 34/55] fix: coloured noise is rounded downwards to a power of
 two as documented

---
 qopt/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/noise.py b/qopt/noise.py
index 89e9faf..39fee39 100644
--- a/qopt/noise.py
+++ b/qopt/noise.py
@@ -293,7 +293,7 @@ def fast_colored_noise(spectral_density: Callable, dt: float, n_samples: int,
     f_nyquist = f_max / 2
     s0 = 1 / f_nyquist
     if r_power_of_two:
-        actual_n_samples = int(2 ** np.ceil(np.log2(n_samples)))
+        actual_n_samples = int(2 ** np.floor(np.log2(n_samples)))
     else:
         actual_n_samples = int(n_samples)
 
-- 
2.43.0


From 8cf7fe986c98f00ae637987f7d032e5a14a4bae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:38 +0000
Subject: [PATCH 35/55] fix: coloured noise traces of odd length have the
 requested spectrum

The highest frequency of a real fourier transform of odd length is not the
nyquist frequency.
---
 qopt/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/noise.py b/qopt/noise.py
index 39fee39..a1ef244 100644
--- a/qopt/noise.py
+++ b/qopt/noise.py
@@ -300,7 +300,7 @@ def fast_colored_noise(spectral_density: Callable, dt: float, n_samples: int,
     delta_white = np.random.randn(*output_shape, actual_n_samples)
     delta_white_ft = np.fft.rfft(delta_white, axis=-1)
     # Only positive frequencies since FFT is real and therefore symmetric
-    f = np.linspace(0, f_nyquist, actual_n_samples // 2 + 1)
+    f = np.fft.rfftfreq(actual_n_samples, d=dt)
     f[1:] = spectral_density(f[1:])
     f[0] = 0
     delta_colored = np.fft.irfft(delta_white_ft * np.sqrt(f / s0),
-- 
2.43.0


From c2338828141e238a92da6d74cf171f0d86c3935c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:38 +0000
Subject: [PATCH 36/55] fix: the one dimensional bell curve is normalised

---
 qopt/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/noise.py b/qopt/noise.py
index a1ef244..72154e1 100644
--- a/qopt/noise.py
+++ b/qopt/noise.py
@@ -97,7 +97,7 @@ def bell_curve_1dim(x: Union[np.ndarray, float],
         Function values.
 
     """
-    normalization_factor = 1 / 2 / np.pi / stdx
+    normalization_factor = 1 / np.sqrt(2 * np.pi) / stdx
     exponential = np.exp(-.5 * ((x / stdx) ** 2))
     return normalization_factor * exponential
 
-- 
2.43.0


From 739afd3009ebb889cff12ed82729b9755001aa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:17 +0000
Subject: [PATCH 37/55] fix: termination conditions of one optimizer leaked
 into all others

---
 qopt/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index c191a1a..59fd846 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -165,7 +165,8 @@ class Optimizer(ABC):
     ):
         self.system_simulator = system_simulator
         self.use_jacobian_function = use_jacobian_function
-        self.termination_conditions = default_termination_conditions
+        self.termination_conditions = copy.deepcopy(
+            default_termination_conditions)
         if termination_cond is not None:
             self.termination_conditions.update(**termination_cond)
 
-- 
2.43.0


From 00d8012a438091e3b05f3064f4bf5277823b716f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:17 +0000
Subject: [PATCH 38/55] fix: cost function weights overwrote the recorded costs
 and biased the best evaluation

---
 qopt/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 59fd846..7f8d3f4 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -227,7 +227,7 @@ class Optimizer(ABC):
 
         # apply the cost function weights after saving the values.
         if self.cost_func_weights is not None:
-            costs *= self.cost_func_weights
+            costs = costs * self.cost_func_weights
 
         self._n_cost_fkt_eval += 1
         return costs
-- 
2.43.0


From 419ce9ae62ab23a11b5fc50b7e0ab6ddf5dba0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:17 +0000
Subject: [PATCH 39/55] fix: gradient norm after an early stop was evaluated at
 reordered parameters, and failed without evaluations

---
 qopt/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 7f8d3f4..1f94ddd 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -335,9 +335,9 @@ class Optimizer(ABC):
         if self.system_simulator.stats is not None:
             self.system_simulator.stats.end_t_opt = time.time()
 
-        if self.use_jacobian_function:
+        if self.use_jacobian_function and self._min_costs_par is not None:
             jac_norm = np.linalg.norm(
-                self.cost_jacobian_wrapper(self._min_costs_par))
+                self.cost_jacobian_wrapper(self._min_costs_par.T.flatten()))
         else:
             jac_norm = 0
 
-- 
2.43.0


From b5e0eb79c39e8917336444f93669a516bd6310be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:17 +0000
Subject: [PATCH 40/55] fix: the least squares optimizer failed without bounds

---
 qopt/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 1f94ddd..78f225e 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -425,7 +425,8 @@ class LeastSquaresOptimizer(Optimizer):
                 fun=super().cost_func_wrapper,
                 x0=initial_control_amplitudes.T.flatten(),
                 jac=jac,
-                bounds=self.bounds,
+                bounds=((-np.inf, np.inf) if self.bounds is None
+                        else self.bounds),
                 method=self.method,
                 ftol=self.termination_conditions["min_cost_gain"],
                 xtol=self.termination_conditions["min_amplitude_change"],
-- 
2.43.0


From c809119cf181a3f52b1840497082a1bbb5b3e41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:05 +0000
Subject: [PATCH 41/55] fix: other minimisation methods ignored the gradient,
 the iteration limit and store_optimizer

---
 qopt/optimize.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 78f225e..3e6c077 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -610,10 +610,19 @@ class ScalarMinimizingOptimizer(Optimizer):
                 result = scipy.optimize.minimize(
                     fun=self.cost_func_wrapper,
                     x0=initial_control_amplitudes.T.flatten(),
+                    jac=jac,
                     bounds=self.bounds,
-                    method=self.method
+                    method=self.method,
+                    options={
+                        'maxiter': self.termination_conditions[
+                            "max_iterations"]},
                 )
 
+                if self.store_optimizer:
+                    storage_opt = self
+                else:
+                    storage_opt = None
+
                 optim_result = optimization_data.OptimizationResult(
                     final_cost=result.fun,
                     indices=self.system_simulator.cost_indices,
@@ -622,7 +631,7 @@ class ScalarMinimizingOptimizer(Optimizer):
                     num_iter=result.nfev,
                     termination_reason=result.message,
                     status=result.status,
-                    optimizer=self,
+                    optimizer=storage_opt,
                     optim_summary=self.optim_iter_summary,
                     optimization_stats=self.system_simulator.stats
                 )
-- 
2.43.0


From d5c1827134746283c51a9d2ff5d16b546f216e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:23 +0000
Subject: [PATCH 42/55] fix: recorded parameters changed with the working array
 of the minimisation algorithm

---
 qopt/optimize.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 3e6c077..dbe2521 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -218,12 +218,13 @@ class Optimizer(ABC):
             self.optim_iter_summary.iter_num += 1
             self.optim_iter_summary.costs.append(costs)
             self.optim_iter_summary.parameters.append(
-                optimization_parameters.reshape(self.pulse_shape[::-1]).T
+                optimization_parameters.reshape(
+                    self.pulse_shape[::-1]).T.copy()
             )
         if np.linalg.norm(costs) < np.linalg.norm(self._min_costs):
             self._min_costs = costs
             self._min_costs_par = optimization_parameters.reshape(
-                self.pulse_shape[::-1]).T
+                self.pulse_shape[::-1]).T.copy()
 
         # apply the cost function weights after saving the values.
         if self.cost_func_weights is not None:
-- 
2.43.0


From 65b87a50bc364dbcbe754dd7f6b2d6bcb7cb3d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:21 +0000
Subject: [PATCH 43/55] fix: the status of a result was lost by the conversion
 to a dictionary

---
 qopt/optimization_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qopt/optimization_data.py b/qopt/optimization_data.py
index 72d5264..8d78e4c 100644
--- a/qopt/optimization_data.py
+++ b/qopt/optimization_data.py
@@ -148,6 +148,7 @@ class OptimizationResult(object):
                 'init_parameters': self.init_parameters,
                 'num_iter': self.num_iter,
                 'termination_reason': self.termination_reason,
+                'status': self.status,
                 'optimizer': self.optimizer,
                 'optimization_stats': self.optimization_stats,
                 'optim_summary': self.optim_summary
-- 
2.43.0


From 7d9962a794e676b860062a879f0d4a956de98670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:21 +0000
Subject: [PATCH 44/55] fix: data containers could not be copied

---
 qopt/data_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/data_container.py b/qopt/data_container.py
index d635543..65aec6b 100644
--- a/qopt/data_container.py
+++ b/qopt/data_container.py
@@ -219,7 +219,7 @@ class DataContainer:
         self.optimization_statistics.append(optimization_stats)
         self.check_length()
 
-    def __deepcopy__(self):
+    def __deepcopy__(self, memo=None):
         cpyobj = type(self)(
             final_costs=copy.deepcopy(self.final_costs),
             indices=copy.deepcopy(self.indices),
-- 
2.43.0


From ce287b92969538fca17c2186ce59162db5a59923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:21 +0000
Subject: [PATCH 45/55] fix: the index of a data container was a method of the
 list of parameters

---
 qopt/data_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/data_container.py b/qopt/data_container.py
index 65aec6b..201697e 100644
--- a/qopt/data_container.py
+++ b/qopt/data_container.py
@@ -164,7 +164,7 @@ class DataContainer:
     @property
     def index(self):
         """Indices of the cost functions. """
-        return self.final_parameters.index
+        return self.indices
 
     def check_length(self):
         pass
-- 
2.43.0


From 82bb4d6fd850e92997f81202017e714c1a56ffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:21 +0000
Subject: [PATCH 46/55] fix: the total costs could not be tabulated when the
 first run has no history

---
 qopt/analyser.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/qopt/analyser.py b/qopt/analyser.py
index 3550d7f..5c6a5a5 100644
--- a/qopt/analyser.py
+++ b/qopt/analyser.py
@@ -134,16 +134,13 @@ class Analyser:
         """
         n_steps = np.max(list(map(len, self.data.costs)))
 
-        # shape: (num_runs, num_step, num_cost_fkt)
-        costs = np.empty(
-            (len(self.data.costs), n_steps, len(self.data.costs[0][0])))
-        costs[:] = np.nan
+        # shape: (num_runs, num_step)
+        costs = np.full((len(self.data.costs), n_steps), np.nan)
 
         for i, run in enumerate(self.data.costs):
-            num_steps = len(run)
-            costs[i, :num_steps, :] = np.stack(run, axis=0)
+            for j, step_costs in enumerate(run):
+                costs[i, j] = np.sqrt(np.sum(np.asarray(step_costs) ** 2))
 
-        costs = np.sqrt(np.sum(costs ** 2, axis=2))
         return costs
 
     def plot_absolute_costs(self) -> (plt.Figure, plt.Axes):
-- 
2.43.0


From 401376b9d7e96d76d8a970c59bd2ac6f38c7f9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:21 +0000
Subject: [PATCH 47/55] fix: the best run could not be found among runs with
 one and with several final costs

---
 qopt/analyser.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/qopt/analyser.py b/qopt/analyser.py
index 5c6a5a5..2d60cb0 100644
--- a/qopt/analyser.py
+++ b/qopt/analyser.py
@@ -78,11 +78,8 @@ class Analyser:
             Number of optimization run with smallest final costs.
 
         """
-        final_costs = np.asarray(self.data.final_costs)
-        if len(final_costs.shape) == 1:
-            final_costs = np.reshape(
-                final_costs, (len(self.data.final_costs), 1))
-        squared_sum = np.sum(final_costs**2, axis=1)
+        squared_sum = [np.sum(np.asarray(run) ** 2)
+                       for run in self.data.final_costs]
         return int(np.argmin(squared_sum, axis=0))
 
     def plot_costs(self, n=0, log_y=True, ax=None) -> None:
-- 
2.43.0


From 7638b13474b992b673f17c27a6dbe5474a82d854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:02 +0000
Subject: [PATCH 48/55] fix: results did not hold the initial parameters

---
 qopt/optimize.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index dbe2521..9930090 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -176,6 +176,7 @@ class Optimizer(ABC):
         self._opt_start_time = 0
         self._min_costs = np.inf
         self._min_costs_par = None
+        self._init_parameters = None
         self._n_cost_fkt_eval = 0
         self._n_jac_fkt_eval = 0
 
@@ -304,6 +305,7 @@ class Optimizer(ABC):
         self._min_costs_par = None
         self._n_cost_fkt_eval = 0
         self._n_jac_fkt_eval = 0
+        self._init_parameters = np.array(initial_optimization_parameters)
         self.pulse_shape = initial_optimization_parameters.shape
         if self.save_intermediary_steps:
             self.optim_iter_summary = \
@@ -350,6 +352,7 @@ class Optimizer(ABC):
         optim_result = optimization_data.OptimizationResult(
             final_cost=self._min_costs,
             indices=self.system_simulator.cost_indices,
+            init_parameters=self._init_parameters,
             final_parameters=self._min_costs_par,
             final_grad_norm=jac_norm,
             num_iter=self._n_cost_fkt_eval,
@@ -447,6 +450,7 @@ class LeastSquaresOptimizer(Optimizer):
             optim_result = optimization_data.OptimizationResult(
                 final_cost=result.fun,
                 indices=self.system_simulator.cost_indices,
+                init_parameters=self._init_parameters,
                 final_parameters=result.x.reshape(
                     self.pulse_shape[::-1]).T,
                 final_grad_norm=np.linalg.norm(result.grad),
@@ -561,6 +565,7 @@ class ScalarMinimizingOptimizer(Optimizer):
                 optim_result = optimization_data.OptimizationResult(
                     final_cost=result.fun,
                     indices=self.system_simulator.cost_indices,
+                    init_parameters=self._init_parameters,
                     final_parameters=result.x.reshape(
                         self.pulse_shape[::-1]).T,
                     final_grad_norm=np.linalg.norm(result.jac),
@@ -594,6 +599,7 @@ class ScalarMinimizingOptimizer(Optimizer):
                 optim_result = optimization_data.OptimizationResult(
                     final_cost=result.fun,
                     indices=self.system_simulator.cost_indices,
+                    init_parameters=self._init_parameters,
                     final_parameters=result.x.reshape(
                         self.pulse_shape[::-1]).T,
                     num_iter=result.nfev,
@@ -627,6 +633,7 @@ class ScalarMinimizingOptimizer(Optimizer):
                 optim_result = optimization_data.OptimizationResult(
                     final_cost=result.fun,
                     indices=self.system_simulator.cost_indices,
+                    init_parameters=self._init_parameters,
                     final_parameters=result.x.reshape(
                         self.pulse_shape[::-1]).T,
                     num_iter=result.nfev,
@@ -877,6 +884,7 @@ class SimulatedAnnealing(Optimizer):
         optim_result = optimization_data.OptimizationResult(
             final_cost=costs,
             indices=self.system_simulator.cost_indices,
+            init_parameters=self._init_parameters,
             final_parameters=pulse,
             optimizer=storage_opt,
             optim_summary=self.optim_iter_summary,
-- 
2.43.0


From 075c326d14eb49f2838ae3323cb745fb70dd1f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:02 +0000
Subject: [PATCH 49/55] fix: a data container with an empty file name could not
 be stored

---
 qopt/data_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/data_container.py b/qopt/data_container.py
index 201697e..86191e5 100644
--- a/qopt/data_container.py
+++ b/qopt/data_container.py
@@ -245,7 +245,7 @@ class DataContainer:
 
         """
         if filename is None:
-            if self.file_name is not None:
+            if self.file_name:
                 filename = os.path.join(self.storage_path, self.file_name)
             else:
                 filename = self.storage_path
-- 
2.43.0


From 622a8e12365ebbded9898f3cf5833fe6d5e70d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 50/55] fix: a data container appended results to the lists of
 the caller

---
 qopt/data_container.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/qopt/data_container.py b/qopt/data_container.py
index 86191e5..6b1d9b5 100644
--- a/qopt/data_container.py
+++ b/qopt/data_container.py
@@ -127,17 +127,18 @@ class DataContainer:
             __file__, r"..\..\temp"
         ) if storage_path is None else storage_path
 
-        self.final_costs = [] if final_costs is None else final_costs
+        # results are appended to these lists, the caller keeps its own
+        self.final_costs = [] if final_costs is None else list(final_costs)
         self.indices = [] if indices is None else indices
         self.init_parameters = (
-            [] if init_parameters is None else init_parameters)
+            [] if init_parameters is None else list(init_parameters))
         self.final_parameters = (
-            [] if final_parameters is None else final_parameters)
-        self.costs = [] if costs is None else costs
-        self.parameters = [] if parameters is None else parameters
-        self.status = [] if status is None else status
+            [] if final_parameters is None else list(final_parameters))
+        self.costs = [] if costs is None else list(costs)
+        self.parameters = [] if parameters is None else list(parameters)
+        self.status = [] if status is None else list(status)
         self.optimization_statistics = (
-            [] if optimization_stats is None else optimization_stats)
+            [] if optimization_stats is None else list(optimization_stats))
 
         self.check_length()
 
-- 
2.43.0


From 2ef282d7e293b4dd38fb494f9052d2317a70c601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 51/55] fix: the pulse of a simulator changed with the array of
 the caller

---
 qopt/simulator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qopt/simulator.py b/qopt/simulator.py
index 3d055f2..e4fc870 100644
--- a/qopt/simulator.py
+++ b/qopt/simulator.py
@@ -51,6 +51,7 @@ References
 
 """
 
+import copy
 from typing import Optional, Sequence
 import numpy as np
 import time
@@ -125,7 +126,7 @@ class Simulator(object):
     ):
         self._num_ctrl = num_ctrl
         self._num_times = num_times
-        self._optimization_parameteres = optimization_parameters
+        self._optimization_parameteres = copy.deepcopy(optimization_parameters)
         self._times = times
 
         self.solvers = solvers
@@ -146,7 +147,7 @@ class Simulator(object):
         """Sets the pulse and the corresponding attributes accordingly. """
         if new_pulse is not None:
             self._num_times, self._num_ctrl = new_pulse.shape
-        self._optimization_parameteres = new_pulse
+        self._optimization_parameteres = copy.deepcopy(new_pulse)
 
     @needs_refactoring
     def check(self):
-- 
2.43.0


From f6fcfade170346f1fd15b9bbf5e9781ed1ac5b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:42 +0000
Subject: [PATCH 52/55] fix: spectral derivative of the exponential of strongly
 damped operators

---
 qopt/matrix.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index eabf32e..ac67ae0 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -1057,19 +1057,24 @@ class DenseOperator(OperatorMatrix):
         degenerate = eig_val_diffs == 0
         eig_val_diffs[degenerate] = 1
 
+        # divided differences of the exponential. The larger one of the two
+        # exponentials is factored out: the ratio of the others would overflow
+        # or lose all digits for strongly damped systems.
+        growing = np.real(eig_val_diffs * tau) > 0
+        eig_val_diffs[growing] *= -1
         omega = np.expm1(eig_val_diffs * tau) / eig_val_diffs
 
         # override the elements of degenerate eigenvalues.
         omega[degenerate] = tau
+        omega *= np.exp(tau * np.where(growing, eig_val_cols, eig_val_cols.T))
 
         direction_transformed = eig_vec_inv @ direction.data @ eig_vec
-        dk_dalpha = direction_transformed * omega
+
+        # einsum might be less accurate than the @ operator
+        du_dalpha = eig_vec @ (direction_transformed * omega) @ eig_vec_inv
 
         exp = np.einsum('ij,j,jk->ik', eig_vec, np.exp(tau * eig_val),
                         eig_vec_inv)
-        # einsum might be less accurate than the @ operator
-        dv_dalpha = eig_vec @ dk_dalpha @ eig_vec_inv
-        du_dalpha = exp @ dv_dalpha
 
         if compute_expm:
             return exp, du_dalpha
-- 
2.43.0


From 033f27ca1f8d57cdb33185794b51370003f6797e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:34 +0000
Subject: [PATCH 53/55] fix: spectral exponential of operators without a usable
 basis of eigenvectors

---
 qopt/matrix.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index ac67ae0..f341f4c 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -972,6 +972,15 @@ class DenseOperator(OperatorMatrix):
                              'is not defined for: ' + str(type(other)))
         return DenseOperator(out)
 
+    @staticmethod
+    def _is_well_conditioned(eig_vec: np.ndarray) -> bool:
+        """
+        Whether the eigenvectors are a basis which can be used for a spectral
+        decomposition. This is not the case for defective matrices and it can
+        also fail for repeated eigenvalues of matrices which are not normal.
+        """
+        return np.linalg.cond(eig_vec) < 1e4
+
     def _exp_diagonalize(self, tau: complex = 1,
                          is_skew_hermitian: bool = False) -> 'DenseOperator':
         """ Calculates the matrix exponential by spectral decomposition.
@@ -998,6 +1007,9 @@ class DenseOperator(OperatorMatrix):
             eig_vec_inv = eig_vec.conj().T
         else:
             eig_val, eig_vec = np.linalg.eig(self.data)
+            if not self._is_well_conditioned(eig_vec):
+                # no usable basis of eigenvectors
+                return DenseOperator(la.expm(tau * self.data))
             # the eigenvectors are in general not orthogonal
             eig_vec_inv = np.linalg.inv(eig_vec)
 
@@ -1047,6 +1059,11 @@ class DenseOperator(OperatorMatrix):
             eig_vec_inv = eig_vec.conj().T
         else:
             eig_val, eig_vec = np.linalg.eig(self.data)
+            if not self._is_well_conditioned(eig_vec):
+                # no usable basis of eigenvectors
+                return la.expm_frechet(
+                    tau * self.data, tau * direction.data,
+                    compute_expm=compute_expm)
             # the eigenvectors are in general not orthogonal
             eig_vec_inv = np.linalg.inv(eig_vec)
 
-- 
2.43.0


From 6a92fb9127a265f29f7585f8d7ceedaee85a1907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:58 +0000
Subject: [PATCH 54/55] fix: operators can be made of qutip objects of any
 version

---
 qopt/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index f341f4c..f4c786c 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -705,7 +705,7 @@ class DenseOperator(OperatorMatrix):
         super().__init__()
         self.data = None
         if type(obj) is Qobj:
-            self.data = np.array(obj.data.todense())
+            self.data = np.array(obj.full())
         elif type(obj) is np.ndarray:
             self.data = obj
         elif type(obj) is sp.csr_matrix:
-- 
2.43.0


From d12ef4845b9bb96e3885038d59e51da8ebea59fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:43 +0000
Subject: [PATCH 55/55] fix: the angle axis representation accepts the identity
 when rounding exceeds one

---
 qopt/cost_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index f729058..916653a 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -193,7 +193,7 @@ def angle_axis_representation(u: np.ndarray) \
     # there is an unphysical global phase alpha
     cos_alpha = .5 * (u[0, 0] + u[1, 1])
     # beta in [0, pi) so sin in [0, 1]
-    sin = np.sqrt(1 - np.abs(cos_alpha) ** 2)
+    sin = np.sqrt(max(0., 1 - np.abs(cos_alpha) ** 2))
     if np.isclose(0, sin, atol=1e-6):
         return 0, np.array([1, 0, 0])
     n_1_alpha = (u[0, 1] + u[1, 0]) / 1j / sin / 2
-- 
2.43.0

