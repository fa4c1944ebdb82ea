From 3e8e4207bedb6ec8d327aca3bfe7c5fbe3c61a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:40 +0000
Subject: [PATCH 01/38] fix: truncate and rescale kets and bras in
 truncate_to_subspace

The branch for kets repeated the condition of the branch for bras and was
never reached, and the Frobenius norm was requested as 'fre'.
---
 qopt/matrix.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index c77968d..88a633c 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -1295,12 +1295,12 @@ class DenseOperator(OperatorMatrix):
             # bra-vector
             out = type(self)(self.data[np.ix_([0], subspace_indices)])
             if map_to_closest_unitary:
-                out *= 1 / out.norm('fre')
-        elif self.shape[0] == 1:
+                out *= 1 / out.norm('fro')
+        elif self.shape[1] == 1:
             # ket-vector
             out = type(self)(self.data[np.ix_(subspace_indices, [0])])
             if map_to_closest_unitary:
-                out *= 1 / out.norm('fre')
+                out *= 1 / out.norm('fro')
         else:
             out = type(self)(self.data[np.ix_(subspace_indices)])
 
-- 
2.43.0


From 95dbd285062b21fe085fcae70d05a6bc500f8507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:01 +0000
Subject: [PATCH 02/38] fix: derivative of the spectral matrix exponential and
 non-normal matrices

The direction was transformed with the adjoint of the required basis change,
degenerate eigenvalues resulted in NaN, and the general (not skew hermitian)
case used the adjoint instead of the inverse of the eigenvectors.
---
 qopt/matrix.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index 88a633c..7ecf4b0 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -992,13 +992,16 @@ class DenseOperator(OperatorMatrix):
         if is_skew_hermitian:
             eig_val, eig_vec = np.linalg.eigh(-1j * self.data)
             eig_val = 1j * eig_val
+            eig_vec_inv = eig_vec.conj().T
         else:
+            # the eigenvectors are only orthogonal for normal matrices
             eig_val, eig_vec = np.linalg.eig(self.data)
+            eig_vec_inv = np.linalg.inv(eig_vec)
 
         # apply the exponential function to the eigenvalues and invert the
         # diagonalization transformation
-        exp = np.einsum('ij,j,kj->ik', eig_vec, np.exp(tau * eig_val),
-                        eig_vec.conj())
+        exp = np.einsum('ij,j,jk->ik', eig_vec, np.exp(tau * eig_val),
+                        eig_vec_inv)
 
         return DenseOperator(exp)
 
@@ -1038,29 +1041,32 @@ class DenseOperator(OperatorMatrix):
         if is_skew_hermitian:
             eig_val, eig_vec = np.linalg.eigh(-1j * self.data)
             eig_val = 1j * eig_val
+            eig_vec_inv = eig_vec.conj().T
         else:
+            # the eigenvectors are only orthogonal for normal matrices
             eig_val, eig_vec = np.linalg.eig(self.data)
-
-        eig_vec_dag = eig_vec.conj().T
+            eig_vec_inv = np.linalg.inv(eig_vec)
 
         eig_val_cols = eig_val * np.ones(self.shape)
         eig_val_diffs = eig_val_cols - eig_val_cols.T
 
-        # avoid devision by zero
-        eig_val_diffs += np.eye(self.data.shape[0])
+        # avoid devision by zero on the diagonal and for degenerate eigenvalues
+        degenerate = eig_val_diffs == 0
+        eig_val_diffs[degenerate] = 1.
 
-        omega = (np.exp(eig_val_diffs * tau) - 1.) / eig_val_diffs
+        omega = np.expm1(eig_val_diffs * tau) / eig_val_diffs
 
-        # override the false diagonal elements.
-        np.fill_diagonal(omega, tau)
+        # override the false elements.
+        omega[degenerate] = tau
 
-        direction_transformed = eig_vec @ direction.data @ eig_vec_dag
+        # transform the direction to the eigenbasis
+        direction_transformed = eig_vec_inv @ direction.data @ eig_vec
         dk_dalpha = direction_transformed * omega
 
         exp = np.einsum('ij,j,jk->ik', eig_vec, np.exp(tau * eig_val),
-                        eig_vec_dag)
+                        eig_vec_inv)
         # einsum might be less accurate than the @ operator
-        dv_dalpha = eig_vec_dag @ dk_dalpha @ eig_vec
+        dv_dalpha = eig_vec @ dk_dalpha @ eig_vec_inv
         du_dalpha = exp @ dv_dalpha
 
         if compute_expm:
-- 
2.43.0


From 7ef0c0321eec33d21548a8d73ade18b40826f53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:59 +0000
Subject: [PATCH 03/38] fix: keep rejected optimization parameters from
 becoming the current ones

A rejected array was stored before it was checked, so that passing it again
was accepted silently. The array is copied because the propagators are only
calculated on demand.
---
 qopt/solver_algorithms.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 5ce5f68..cb344dc 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -373,19 +373,20 @@ class Solver(ABC):
 
         if np.array_equal(self._opt_pars, y):
             return
-        else:
-            self._opt_pars = np.copy(y)
+
+        # the propagators are calculated lazily and must not depend on what
+        # the caller does with the array in the meantime
+        y = np.copy(y)
 
         if self.transfer_function is not None:
-            self.transferred_parameters = self.transfer_function(y)
+            transferred_parameters = self.transfer_function(y)
         else:
-            self.transferred_parameters = np.copy(y)
+            transferred_parameters = np.copy(y)
 
         if self.amplitude_function is not None:
-            u = self.amplitude_function(
-                self.transferred_parameters)
+            u = self.amplitude_function(transferred_parameters)
         else:
-            u = self.transferred_parameters
+            u = transferred_parameters
 
         if len(u.shape) != 2:
             raise ValueError('The new control amplitudes must have two '
@@ -400,6 +401,9 @@ class Solver(ABC):
             raise ValueError('The new control amplitudes do not have the '
                              'correnct number of entries on the control axis!')
 
+        # only parameters which passed the checks become the current ones
+        self._opt_pars = y
+        self.transferred_parameters = transferred_parameters
         self._ctrl_amps = u
         self.reset_cached_propagators()
 
-- 
2.43.0


From d61c9299ca221aeffb14ba4bdc0f7e3cb13fd726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:09 +0000
Subject: [PATCH 04/38] fix: order of the propagator derivatives in the grape
 approximation

The list was indexed by time and control instead of control and time.
---
 qopt/solver_algorithms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index cb344dc..b905b8b 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -970,12 +970,13 @@ class SchroedingerSolver(Solver):
             if self._prop is None:
                 self._compute_propagation(
                     calculate_propagator_derivatives=False)
-            self._derivative_prop = [[None for _ in range(len(self.h_ctrl))]
-                                     for _2 in range(len(self.transferred_time))]
+            self._derivative_prop = [
+                [None for _ in range(len(self.transferred_time))]
+                for _2 in range(len(self.h_ctrl))]
             derivative_directions = self._compute_derivative_directions()
             for t in range(len(self.transferred_time)):
                 for ctrl in range(len(self.h_ctrl)):
-                    self._derivative_prop[t][ctrl] = \
+                    self._derivative_prop[ctrl][t] = \
                         self.transferred_time[t] * derivative_directions[t][ctrl] \
                         * self._prop[t]
         else:
-- 
2.43.0


From 0a2ca03a416512becd70e4aa930871ee7a8ddf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:25 +0000
Subject: [PATCH 05/38] fix: filter function noise of the Monte Carlo solver

A callable noise Hamiltonian did not receive the three documented arguments
and the identifiers of the noise operators were not recorded.
---
 qopt/solver_algorithms.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index b905b8b..ea470cd 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -1468,17 +1468,16 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
             Noise Hamiltonian of the filter function formalism.
 
         """
-        if type(self._filter_function_h_n) == list:
-            h_n = self._filter_function_h_n
-        else:
-            h_n = self._filter_function_h_n(self._opt_pars)
-
-        if not h_n:
-            h_n = []
-            for i, noise_operator in enumerate(self.h_noise):
-                if type(noise_operator) == matrix.DenseOperator:
-                    noise_operator = noise_operator.data
-                h_n += [[noise_operator, len(self.transferred_time) * [1], 'Noise' + str(i)], ]
+        if self._filter_function_h_n:
+            return super().create_ff_h_n
+
+        h_n = []
+        for i, noise_operator in enumerate(self.h_noise):
+            if type(noise_operator) == matrix.DenseOperator:
+                noise_operator = noise_operator.data
+            h_n += [[noise_operator, len(self.transferred_time) * [1], 'Noise' + str(i)], ]
+        self.filter_function_n_oper_identifiers = [
+            noise_term[2] for noise_term in h_n]
 
         return h_n
 
-- 
2.43.0


From 2b02857d3e7959bd64b34d5188529fbaa69757a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:02 +0000
Subject: [PATCH 06/38] fix: keep the dissipation superoperators of the caller
 unchanged

Summing the constant superoperators added all of them to the first one
given by the caller.
---
 qopt/solver_algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index ea470cd..ede221e 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -1922,7 +1922,7 @@ class LindbladSolver(SchroedingerSolver):
                                    factor_at_time_t[1:]):
                         self._diss_sup_op[-1] += sup_op * factor
             else:
-                self._diss_sup_op = [const_diss_sup_op[0], ]
+                self._diss_sup_op = [const_diss_sup_op[0].copy(), ]
                 for sup_op in const_diss_sup_op[1:]:
                     self._diss_sup_op[0] += sup_op
                 self._diss_sup_op *= len(self.transferred_time)
-- 
2.43.0


From 2b1fdb7619be6b45e8274139d572606586635dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:36 +0000
Subject: [PATCH 07/38] fix: transfer the parameters again when the times of a
 solver change

The control amplitudes of a time dependent transfer function were kept, and
setting the same parameters again was skipped.
---
 qopt/solver_algorithms.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index ede221e..d5540af 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -284,7 +284,7 @@ class Solver(ABC):
 
         self.h_ctrl = h_ctrl
         self._ctrl_amps = ctrl_amps
-        self._opt_pars = opt_pars
+        self._opt_pars = None
 
         if initial_state is None:
             dim = self.h_ctrl[0].shape[0]
@@ -325,6 +325,7 @@ class Solver(ABC):
 
         self.transferred_time = None
         self.set_times(tau=tau)
+        self._opt_pars = opt_pars
 
         if type(h_drift) in [matrix.DenseOperator, matrix.SparseOperator]:
             self.h_drift = [h_drift, ] * self.transfer_function.num_x
@@ -355,6 +356,16 @@ class Solver(ABC):
         self.transferred_time = self.transfer_function.x_times
         self.reset_cached_propagators()
 
+        # the control amplitudes can depend on the times
+        y = self._opt_pars
+        if y is not None:
+            self._opt_pars = None
+            if len(y) == np.size(tau):
+                self.set_optimization_parameters(y)
+            else:
+                self._ctrl_amps = None
+                self.transferred_parameters = None
+
     def set_optimization_parameters(self, y: np.array) -> None:
         """
         Set the control amplitudes.
-- 
2.43.0


From 50b5210c9861aae6eb4e709250b1b591173d8b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:12 +0000
Subject: [PATCH 08/38] fix: matrices of concatenated, parallel and reused
 transfer functions

ConcatenateMTF never stored its matrix, ConcatenateMTF and ParallelMTF lost
the offsets, and a cached matrix outlived the times it was made for.
---
 qopt/transfer_function.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index d1ccc38..d0c96ac 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1112,6 +1112,11 @@ class MatrixTF(TransferFunction):
         """Create the transfer matrix. """
         pass
 
+    def set_times(self, y_times: np.array) -> None:
+        """See base class. The transfer matrix can depend on the times. """
+        super().set_times(y_times)
+        self._transfer_matrix = None
+
     def gradient_chain_rule(
             self, deriv_by_transferred_par: np.array) -> np.array:
         """ See base class.
@@ -1204,12 +1209,10 @@ class ConcatenateMTF(MatrixTF):
         self.x_times = tf2.x_times
         self.num_x = tf2.num_x
 
-    @property
-    def transfer_matrix(self):
-        """The total transfer matrix is the product of the individual ones."""
-        return np.einsum('ijk,jlk->ilk',
-                         self.tf2.transfer_matrix,
-                         self.tf1.transfer_matrix)
+    def __call__(self, y: np.array) -> np.array:
+        """Calls the concatenated transfer functions in sequence. """
+        self._check_dimensions_datatype(y)
+        return self.tf2(self.tf1(y))
 
     def set_times(self, y_times: np.ndarray) -> None:
         """
@@ -1229,6 +1232,7 @@ class ConcatenateMTF(MatrixTF):
         self._y_times = self.tf1._y_times
         self.x_times = self.tf2.x_times
         self.num_x = self.tf2.num_x
+        self._transfer_matrix = None
         return
 
     def plot_pulse(self, y: np.ndarray) -> None:
@@ -1236,9 +1240,10 @@ class ConcatenateMTF(MatrixTF):
         self.tf2.plot_pulse(self.tf1(y))
 
     def _calculate_transfer_matrix(self):
-        """See base class. """
-        self.tf1._calculate_transfer_matrix()
-        self.tf2._calculate_transfer_matrix()
+        """The total transfer matrix is the product of the individual ones."""
+        self._transfer_matrix = np.einsum('ijk,jlk->ilk',
+                                          self.tf2.transfer_matrix,
+                                          self.tf1.transfer_matrix)
 
 
 class ParallelMTF(MatrixTF):
@@ -1286,6 +1291,13 @@ class ParallelMTF(MatrixTF):
             raise ValueError("The parallized transfer functions must have the "
                              "same oversampling.")
 
+    def __call__(self, y: np.array) -> np.array:
+        """Calls both transfer functions on their control pulses. """
+        self._check_dimensions_datatype(y)
+        return np.concatenate(
+            (self.tf1(y[:, :self.tf1.num_ctrls]),
+             self.tf2(y[:, self.tf1.num_ctrls:])), axis=1)
+
     def _calculate_transfer_matrix(self):
         """See base class. """
         self._transfer_matrix = np.concatenate(
@@ -1299,6 +1311,7 @@ class ParallelMTF(MatrixTF):
         self._y_times = self.tf1._y_times
         self.num_x = self.tf1.num_x
         self.x_times = self.tf1.x_times
+        self._transfer_matrix = None
 
 
 class CustomMTF(MatrixTF):
-- 
2.43.0


From 1b5d9cbe0436dad063b1a55fc6a83fb96d0ce5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:57 +0000
Subject: [PATCH 09/38] fix: times of transfer functions given by a custom
 matrix

Explicit control times were overwritten with the times of the optimization
parameters, and times could be set only once.
---
 qopt/transfer_function.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index d0c96ac..08f7b6f 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1364,6 +1364,7 @@ class CustomMTF(MatrixTF):
         self._num_y = transfer_matrix.shape[1]
         self.num_x = transfer_matrix.shape[0]
         self.x_times = x_times
+        self._explicit_x_times = x_times is not None
         self.bound_type = bound_type
         self.oversampling = oversampling
 
@@ -1374,7 +1375,7 @@ class CustomMTF(MatrixTF):
 
     def set_times(self, y_times: np.ndarray) -> None:
         """See base class."""
-        if self.x_times is None:
+        if not self._explicit_x_times:
             # construct the oversampling
             if self.bound_type is None:
                 # assume no padding
@@ -1396,13 +1397,17 @@ class CustomMTF(MatrixTF):
                 raise ValueError('Unknown boundary type:'
                                  + str(self.bound_type[0]))
             self.oversampling = int(self.oversampling)
-            super().set_times(y_times)
+            # the transfer matrix is constant
+            if np.size(y_times) != self._num_y:
+                raise ValueError('Trying to set times, which do not fit the'
+                                 'dimension of the transfer function.')
+            TransferFunction.set_times(self, y_times)
         else:
-            y_times = np.squeeze(y_times)
-            self.x_times = y_times
+            y_times = np.atleast_1d(np.squeeze(y_times))
             if len(y_times) != self._num_y:
                 raise ValueError('Trying to set x_times, which do not fit the'
                                  'dimension of the transfer function.')
+            self._y_times = y_times
 
     def _calculate_transfer_matrix(self):
         """See base class. """
-- 
2.43.0


From cf5e1768cb9c7e177589ff72b7b011d702f5a516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:06 +0000
Subject: [PATCH 10/38] fix: exponential transfer function of a single padded
 time step

---
 qopt/transfer_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index 08f7b6f..cd44c34 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1539,7 +1539,7 @@ class ExponentialMTF(MatrixTF):
 
         # for the padding at the beginning
         dudx[0:self.oversampling, 0] = one_minus_exp
-        if self.num_x > self.oversampling:
+        if self._num_y > 1:
             dudx[self.oversampling:2 * self.oversampling, 0] = exp
 
         # main part
-- 
2.43.0


From c9852e1898a6205ede841310a54fdc770c8e3774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:55 +0000
Subject: [PATCH 11/38] fix: gradients of the convolution transfer functions

The chain rule applied the filter again instead of its transpose: wrong for
asymmetric kernels, derivatives of Gaussians and boundary elements, and a
constant boundary value entered the gradient.
---
 qopt/transfer_function.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index cd44c34..2288e14 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -741,7 +741,8 @@ class ConvolutionTF(TransferFunction):
             self, deriv_by_transferred_par: np.array) -> np.array:
         """ See base class.
 
-        The application of the chain rule is another convolution.
+        The convolution is linear. The chain rule applies the transpose of
+        its matrix, including the elements at the boundaries.
 
         Parameters
         ----------
@@ -761,11 +762,19 @@ class ConvolutionTF(TransferFunction):
         assert shape[2] == self.num_ctrls
         assert deriv_by_transferred_par.dtype in [np.float64, np.float32]
 
-        return scipy.ndimage.convolve(
-            deriv_by_transferred_par,
-            weights=np.expand_dims(self.kernel, axis=1),
-            cval=self.cval
-        )
+        deriv_by_opt_par = np.zeros(
+            (self._num_y, shape[1], self.num_ctrls))
+        for j in range(self._num_y):
+            for k in range(self.num_ctrls):
+                unit = np.zeros((self._num_y, self.num_ctrls))
+                unit[j, k] = 1
+                # derivative of the convolution by the element y[j, k]
+                response = scipy.ndimage.convolve(
+                    unit, weights=self.kernel, mode=self.mode, cval=0.
+                )
+                deriv_by_opt_par[j, :, k] = np.einsum(
+                    'ik,ifk->f', response, deriv_by_transferred_par)
+        return deriv_by_opt_par
 
     @property
     def transfer_matrix(self) -> np.array:
@@ -870,7 +879,8 @@ class GaussianConvolution(TransferFunction):
             self, deriv_by_transferred_par: np.array) -> np.array:
         """ See base class.
 
-        The application of the chain rule is another Gaussian filter.
+        The filter is linear. The chain rule applies the transpose of its
+        matrix, including the elements at the boundaries.
 
         Parameters
         ----------
@@ -890,10 +900,12 @@ class GaussianConvolution(TransferFunction):
         assert shape[2] == self.num_ctrls
         assert deriv_by_transferred_par.dtype in [np.float64, np.float32]
 
-        return scipy.ndimage.gaussian_filter1d(
-            deriv_by_transferred_par, self.sigma, axis=0, order=self.order,
+        # the response to unit vectors: shape (num_x, num_y)
+        matrix = scipy.ndimage.gaussian_filter1d(
+            np.eye(self._num_y), self.sigma, axis=0, order=self.order,
             mode=self.mode, truncate=self.truncate
         )
+        return np.einsum('ij,ifk->jfk', matrix, deriv_by_transferred_par)
 
     @property
     def transfer_matrix(self) -> np.array:
-- 
2.43.0


From dde006fd1e190b9c830b57ad5ad309f77ac46a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:55 +0000
Subject: [PATCH 12/38] fix: keep a copy of the times in transfer functions

---
 qopt/transfer_function.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index 2288e14..9ba6ec9 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -370,7 +370,8 @@ class TransferFunction(ABC):
         if not isinstance(y_times, np.ndarray):
             raise Exception("times must be a list or np.array")
 
-        y_times = np.atleast_1d(np.squeeze(y_times))
+        # transfer matrices are calculated lazily from these times
+        y_times = np.atleast_1d(np.squeeze(y_times)).copy()
 
         if len(y_times.shape) > 1:
             raise ValueError('The x_times should not have more than one '
-- 
2.43.0


From d9d46c270b93eb74e8831502dba346cff6f8e566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:43 +0000
Subject: [PATCH 13/38] fix: construction of the matrix norm cost function

---
 qopt/cost_functions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 0bd8bff..12518d8 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -260,8 +260,7 @@ class OperatorMatrixNorm(CostFunction):
     def __init__(self, solver: solver_algorithms.Solver,
                  target: matrix.OperatorMatrix, mode: str = 'scalar',
                  label: Optional[List[str]] = None):
-        super().__init__()
-        self.solver = solver
+        super().__init__(solver=solver)
         self.target = target
         self.mode = mode
         if label is not None:
-- 
2.43.0


From 842c09f984d01d2016d59c22153483588de18801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:43 +0000
Subject: [PATCH 14/38] fix: state noise infidelity without a target state

---
 qopt/cost_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 12518d8..8d42d9d 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -1128,7 +1128,7 @@ class StateNoiseInfidelity(CostFunction):
         self.solver = solver
 
         # assure target is a bra vector
-        if target.shape[0] > target.shape[1]:
+        if target is not None and target.shape[0] > target.shape[1]:
             self.target = target.dag()
         else:
             self.target = target
-- 
2.43.0


From 5dd4168139254814313370f9c371caa00131c03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:43 +0000
Subject: [PATCH 15/38] fix: warning about a complex state fidelity

---
 qopt/cost_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 8d42d9d..8b189ff 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -628,7 +628,7 @@ def state_fidelity_subspace(
     scalar_prod = scalar_prod[0, 0]
     scalar_prod_real = scalar_prod.real
     if np.abs(scalar_prod - scalar_prod_real) > 1e-5:
-        scalar_prod_real = np.abs(scalar_prod[0, 0])
+        scalar_prod_real = np.abs(scalar_prod)
         print("Warning: the calculated fidelity should be real but has an "
               "imaginary component of : " + str(scalar_prod.imag))
     return scalar_prod_real
-- 
2.43.0


From 111e17a51a2d1f16bb8cab45b4bd98d189c82080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:43 +0000
Subject: [PATCH 16/38] fix: gradient of the state fidelity with rescaled
 states

The derivative of the state was normalized instead of differentiating the
normalization of the state.
---
 qopt/cost_functions.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 8b189ff..2fd3e73 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -509,10 +509,9 @@ def derivative_state_fidelity(
     """
 
     if computational_states is not None:
-        scalar_prod = target * forward_propagators[-1].truncate_to_subspace(
-            subspace_indices=computational_states,
-            map_to_closest_unitary=rescale_propagated_state
-        )
+        final = forward_propagators[-1].truncate_to_subspace(
+            subspace_indices=computational_states)
+        scalar_prod = target * final
     else:
         scalar_prod = target * forward_propagators[-1]
 
@@ -527,17 +526,23 @@ def derivative_state_fidelity(
         for t in range(num_time_steps):
             # here we need to take the real part.
             if computational_states:
-                derivative_fidelity[t, ctrl] = 2 * np.real(
-                    (scalar_prod * (
-                            target * (
+                derivative_final = (
                             reversed_propagators[::-1][t + 1]
                             * propagator_derivatives[ctrl][t]
                             * forward_propagators[t]
                     ).truncate_to_subspace(
-                        subspace_indices=computational_states,
-                        map_to_closest_unitary=rescale_propagated_state
-                    )
-                    ))[0, 0])
+                        subspace_indices=computational_states)
+                derivative_fidelity[t, ctrl] = 2 * np.real(
+                    (scalar_prod * (target * derivative_final))[0, 0])
+                if rescale_propagated_state:
+                    # the state is divided by its norm
+                    norm_sqr = np.sum(np.abs(final.data) ** 2)
+                    fidelity = np.abs(scalar_prod[0, 0]) ** 2 / norm_sqr
+                    derivative_norm_sqr = 2 * np.real(
+                        (final.dag() * derivative_final)[0, 0])
+                    derivative_fidelity[t, ctrl] = (
+                        derivative_fidelity[t, ctrl]
+                        - fidelity * derivative_norm_sqr) / norm_sqr
             else:
                 derivative_fidelity[t, ctrl] = 2 * np.real(
                     (scalar_prod * (target * reversed_propagators[::-1][t + 1]
-- 
2.43.0


From 3051f89503f164adca0598fce4417d8f8fd8b7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:57 +0000
Subject: [PATCH 17/38] fix: integer values of unary amplitude functions

np.vectorize takes the data type of the first value, so that a function
returning an integer there truncated all other amplitudes.
---
 qopt/amplitude_functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qopt/amplitude_functions.py b/qopt/amplitude_functions.py
index 832a94c..068a3fa 100644
--- a/qopt/amplitude_functions.py
+++ b/qopt/amplitude_functions.py
@@ -158,8 +158,9 @@ class UnaryAnalyticAmpFunc(AmplitudeFunction):
     def __init__(self,
                  value_function: Callable[[float, ], float],
                  derivative_function: Callable[[float, ], float]):
-        self.value_function = np.vectorize(value_function)
-        self.derivative_function = np.vectorize(derivative_function)
+        self.value_function = np.vectorize(value_function, otypes=[float])
+        self.derivative_function = np.vectorize(
+            derivative_function, otypes=[float])
 
     def __call__(self, x: np.ndarray) -> np.ndarray:
         """See base class. """
-- 
2.43.0


From 398dba2dd7c21453e8b31c2d089448c3b6b5a2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 18/38] fix: set the first pulse of a simulator

---
 qopt/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/simulator.py b/qopt/simulator.py
index f248460..3d055f2 100644
--- a/qopt/simulator.py
+++ b/qopt/simulator.py
@@ -145,7 +145,7 @@ class Simulator(object):
     def pulse(self, new_pulse):
         """Sets the pulse and the corresponding attributes accordingly. """
         if new_pulse is not None:
-            self._num_times, self._num_ctrl = self._optimization_parameteres.shape
+            self._num_times, self._num_ctrl = new_pulse.shape
         self._optimization_parameteres = new_pulse
 
     @needs_refactoring
-- 
2.43.0


From a5084ba07a8e6f9d08d817f8ebae0029eb49ee6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:37 +0000
Subject: [PATCH 19/38] fix: optimizers no longer share their termination
 conditions

Updating the conditions of one optimizer changed the module wide defaults.
---
 qopt/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index c191a1a..59fd846 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -165,7 +165,8 @@ class Optimizer(ABC):
     ):
         self.system_simulator = system_simulator
         self.use_jacobian_function = use_jacobian_function
-        self.termination_conditions = default_termination_conditions
+        self.termination_conditions = copy.deepcopy(
+            default_termination_conditions)
         if termination_cond is not None:
             self.termination_conditions.update(**termination_cond)
 
-- 
2.43.0


From f5e22c3e1de32d7e7761c303743631aebba6323a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:37 +0000
Subject: [PATCH 20/38] fix: cost function weights no longer change the saved
 costs

The weights were applied in place to the arrays kept in the summary and as
best costs.
---
 qopt/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 59fd846..7f8d3f4 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -227,7 +227,7 @@ class Optimizer(ABC):
 
         # apply the cost function weights after saving the values.
         if self.cost_func_weights is not None:
-            costs *= self.cost_func_weights
+            costs = costs * self.cost_func_weights
 
         self._n_cost_fkt_eval += 1
         return costs
-- 
2.43.0


From d82c8a154fcb5ea7003bc2700d2a63d8d8dc5d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:37 +0000
Subject: [PATCH 21/38] fix: copy the optimization parameters before saving
 them

The summary and the best parameters were views of the array of the
optimization algorithm.
---
 qopt/optimize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 7f8d3f4..4e5127f 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -211,6 +211,8 @@ class Optimizer(ABC):
                 > self.termination_conditions['max_wall_time']:
             raise WallTimeExceeded
 
+        # copied, because the optimization algorithm can reuse its array.
+        optimization_parameters = np.array(optimization_parameters)
         costs = self.system_simulator.wrapped_cost_functions(
             optimization_parameters.reshape(self.pulse_shape[::-1]).T)
 
-- 
2.43.0


From a90e7bd229111fb20b06282e7e88923eae799c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:37 +0000
Subject: [PATCH 22/38] fix: gradient norm of the result after exceeding the
 wall time

The best parameters were passed without flattening, which permuted them,
and an exceeded limit before the first evaluation failed.
---
 qopt/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 4e5127f..05c2193 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -337,9 +337,9 @@ class Optimizer(ABC):
         if self.system_simulator.stats is not None:
             self.system_simulator.stats.end_t_opt = time.time()
 
-        if self.use_jacobian_function:
+        if self.use_jacobian_function and self._min_costs_par is not None:
             jac_norm = np.linalg.norm(
-                self.cost_jacobian_wrapper(self._min_costs_par))
+                self.cost_jacobian_wrapper(self._min_costs_par.T.flatten()))
         else:
             jac_norm = 0
 
-- 
2.43.0


From 99807dba75bfab193985d3e60f51d174c49ec02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:37 +0000
Subject: [PATCH 23/38] fix: least squares optimization without bounds

scipy.optimize.least_squares does not accept None.
---
 qopt/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 05c2193..7370a23 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -409,7 +409,7 @@ class LeastSquaresOptimizer(Optimizer):
                          use_jacobian_function=use_jacobian_function,
                          store_optimizer=store_optimizer)
         self.method = method
-        self.bounds = bounds
+        self.bounds = (-np.inf, np.inf) if bounds is None else bounds
 
     def run_optimization(self, initial_control_amplitudes: np.array,
                          verbose: int = 0) -> optimization_data.OptimizationResult:
-- 
2.43.0


From 9449376859d7d2adb5dc53b8ebeee690716244d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:38 +0000
Subject: [PATCH 24/38] fix: store the optimizer in the result only on request

---
 qopt/optimize.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 7370a23..8aae2a0 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -615,6 +615,11 @@ class ScalarMinimizingOptimizer(Optimizer):
                     method=self.method
                 )
 
+                if self.store_optimizer:
+                    storage_opt = self
+                else:
+                    storage_opt = None
+
                 optim_result = optimization_data.OptimizationResult(
                     final_cost=result.fun,
                     indices=self.system_simulator.cost_indices,
@@ -623,7 +628,7 @@ class ScalarMinimizingOptimizer(Optimizer):
                     num_iter=result.nfev,
                     termination_reason=result.message,
                     status=result.status,
-                    optimizer=self,
+                    optimizer=storage_opt,
                     optim_summary=self.optim_iter_summary,
                     optimization_stats=self.system_simulator.stats
                 )
-- 
2.43.0


From 284a40df786b6a6fa38c1c0ec9890e56cf8cb4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 25/38] fix: keep the status in the dictionary of an
 optimization result

---
 qopt/optimization_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qopt/optimization_data.py b/qopt/optimization_data.py
index 72d5264..8d78e4c 100644
--- a/qopt/optimization_data.py
+++ b/qopt/optimization_data.py
@@ -148,6 +148,7 @@ class OptimizationResult(object):
                 'init_parameters': self.init_parameters,
                 'num_iter': self.num_iter,
                 'termination_reason': self.termination_reason,
+                'status': self.status,
                 'optimizer': self.optimizer,
                 'optimization_stats': self.optimization_stats,
                 'optim_summary': self.optim_summary
-- 
2.43.0


From f052077d54ac91a3cd309a8a2e26763146d79496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 26/38] fix: copy.deepcopy of a data container

__deepcopy__ did not accept the memo dictionary.
---
 qopt/data_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/data_container.py b/qopt/data_container.py
index d635543..65aec6b 100644
--- a/qopt/data_container.py
+++ b/qopt/data_container.py
@@ -219,7 +219,7 @@ class DataContainer:
         self.optimization_statistics.append(optimization_stats)
         self.check_length()
 
-    def __deepcopy__(self):
+    def __deepcopy__(self, memo=None):
         cpyobj = type(self)(
             final_costs=copy.deepcopy(self.final_costs),
             indices=copy.deepcopy(self.indices),
-- 
2.43.0


From 84824fe255e3584a623235e43f9e49e790b76b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 27/38] fix: index of a data container

The property returned the index method of a list.
---
 qopt/data_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/data_container.py b/qopt/data_container.py
index 65aec6b..201697e 100644
--- a/qopt/data_container.py
+++ b/qopt/data_container.py
@@ -164,7 +164,7 @@ class DataContainer:
     @property
     def index(self):
         """Indices of the cost functions. """
-        return self.final_parameters.index
+        return self.indices
 
     def check_length(self):
         pass
-- 
2.43.0


From bde822df405c7d1d1714a0b6065faed273e42cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 28/38] fix: normalization of the one dimensional bell curve

---
 qopt/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/noise.py b/qopt/noise.py
index bc81527..8c4492b 100644
--- a/qopt/noise.py
+++ b/qopt/noise.py
@@ -97,7 +97,7 @@ def bell_curve_1dim(x: Union[np.ndarray, float],
         Function values.
 
     """
-    normalization_factor = 1 / 2 / np.pi / stdx
+    normalization_factor = 1 / np.sqrt(2 * np.pi) / stdx
     exponential = np.exp(-.5 * ((x / stdx) ** 2))
     return normalization_factor * exponential
 
-- 
2.43.0


From 3193d3e4e5ac5869eeaae7bfac5425d31046240a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 29/38] fix: frequencies of colored noise with an odd number of
 samples

---
 qopt/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/noise.py b/qopt/noise.py
index 8c4492b..e4cd8e0 100644
--- a/qopt/noise.py
+++ b/qopt/noise.py
@@ -300,7 +300,7 @@ def fast_colored_noise(spectral_density: Callable, dt: float, n_samples: int,
     delta_white = np.random.randn(*output_shape, actual_n_samples)
     delta_white_ft = np.fft.rfft(delta_white, axis=-1)
     # Only positive frequencies since FFT is real and therefore symmetric
-    f = np.linspace(0, f_nyquist, actual_n_samples // 2 + 1)
+    f = np.fft.rfftfreq(actual_n_samples, d=dt)
     f[1:] = spectral_density(f[1:])
     f[0] = 0
     delta_colored = np.fft.irfft(delta_white_ft * np.sqrt(f / s0),
-- 
2.43.0


From f39f2fe108e9a39409ff422ee7400d6dfbd6aaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 30/38] fix: round the number of noise samples down to a power
 of two

The documentation promises rounding down, the code rounded up.
---
 qopt/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/noise.py b/qopt/noise.py
index e4cd8e0..3084df1 100644
--- a/qopt/noise.py
+++ b/qopt/noise.py
@@ -293,7 +293,7 @@ def fast_colored_noise(spectral_density: Callable, dt: float, n_samples: int,
     f_nyquist = f_max / 2
     s0 = 1 / f_nyquist
     if r_power_of_two:
-        actual_n_samples = int(2 ** np.ceil(np.log2(n_samples)))
+        actual_n_samples = int(2 ** np.floor(np.log2(n_samples)))
     else:
         actual_n_samples = int(n_samples)
 
-- 
2.43.0


From 848336dc8f6353c2ec600beadc8595984ecab6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 31/38] fix: quasi static noise no longer changes the caller's
 list

The correction for discrete sampling was applied in place, and twice when
two generators were created from the same list.
---
 qopt/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/noise.py b/qopt/noise.py
index 3084df1..a17b73e 100644
--- a/qopt/noise.py
+++ b/qopt/noise.py
@@ -443,7 +443,7 @@ class NTGQuasiStatic(NoiseTraceGenerator):
                          n_traces=n_traces,
                          n_noise_operators=n_noise_operators,
                          always_redraw_samples=always_redraw_samples)
-        self.standard_deviation = standard_deviation
+        self.standard_deviation = list(standard_deviation)
         self.sampling_mode = sampling_mode
 
         if correct_std_for_discrete_sampling:
-- 
2.43.0


From dea4f2f6ddc507265fa7c40a6de41937bd3f7cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 32/38] fix: standard deviation of quasi static noise with
 several operators

Each operator is sampled with _n_traces values, but the correction for
discrete sampling was estimated with n_traces values, the number for all
operators.
---
 qopt/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/noise.py b/qopt/noise.py
index a17b73e..5421313 100644
--- a/qopt/noise.py
+++ b/qopt/noise.py
@@ -454,7 +454,7 @@ class NTGQuasiStatic(NoiseTraceGenerator):
                 for i in range(len(self.standard_deviation)):
                     samples = sample_1dim_gaussian_distribution(
                         std=self.standard_deviation[i],
-                        n_samples=self.n_traces
+                        n_samples=self._n_traces
                     )
                     actual_std = np.std(samples)
                     if actual_std < 1e-20:
-- 
2.43.0


From 6366a0bd22a283026993a827cc86f0e9375eeeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:45 +0000
Subject: [PATCH 33/38] fix: repeated creation of a pulse sequence for the same
 amplitudes

The update used a function missing in filter_functions and ignored that
the coefficients of a PulseSequence are sorted by their identifiers.
---
 qopt/solver_algorithms.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index d5540af..f4c2df6 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -738,24 +738,22 @@ class Solver(ABC):
         # nonlinear coupling), but in filter_functions the form H =
         # a(t) A is imposed, we don't tell the PulseSequence object
         # about H_drift and set the eigendecomposition after the fact.
+        h_c = list(zip(
+            self.h_ctrl,
+            self._ctrl_amps.T,
+            [f'Control{i}' for i in range(len(self.h_ctrl))]
+        ))
+        new_sequence = pulse_sequence.PulseSequence(
+            h_c, self.create_ff_h_n, self.transferred_time, basis
+        )
         if self.pulse_sequence is None:
-            h_c = list(zip(
-                self.h_ctrl,
-                self._ctrl_amps.T,
-                [f'Control{i}' for i in range(len(self.h_ctrl))]
-            ))
-            self.pulse_sequence = pulse_sequence.PulseSequence(
-                h_c, self.create_ff_h_n, self.transferred_time, basis
-            )
+            self.pulse_sequence = new_sequence
         else:
-            # Clean up the caches and update coefficients
+            # Clean up the caches and update coefficients, which are sorted
+            # by the identifiers in the PulseSequence.
             self.pulse_sequence.cleanup('all')
-            self.pulse_sequence.c_coeffs = self._ctrl_amps.T
-            # Not the most elegant, but necessary for the current
-            # implementation.
-            self.pulse_sequence.n_coeffs = pulse_sequence._parse_Hamiltonian(
-                self.create_ff_h_n,
-                len(self.transferred_time), 'H_n')[2]
+            self.pulse_sequence.c_coeffs = new_sequence.c_coeffs
+            self.pulse_sequence.n_coeffs = new_sequence.n_coeffs
 
             if basis is not None:
                 self.pulse_sequence.basis = basis
-- 
2.43.0


From 75f070fafe1358d9a75dbb272bb08c65ce429fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 34/38] fix: check of the second diagonal element in
 angle_axis_representation

---
 qopt/cost_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 2fd3e73..c7241a3 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -184,7 +184,7 @@ def angle_axis_representation(u: np.ndarray) \
     is_unitary = np.isclose(ident[0, 0], 1) \
                  and np.isclose(ident[1, 0], 0) \
                  and np.isclose(ident[0, 1], 0) \
-                 and np.isclose(ident[0, 0], 1)
+                 and np.isclose(ident[1, 1], 1)
 
     if not is_unitary:
         raise ValueError("Your input matrix must be unitary to calculate a "
-- 
2.43.0


From 9f723c8a2e556c535ccbcee28d32ae7060f29abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 35/38] fix: energy spectrum colors use the colormap lookup
 that matplotlib still offers

---
 qopt/energy_spectrum.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qopt/energy_spectrum.py b/qopt/energy_spectrum.py
index 7c9bf4d..11609c4 100644
--- a/qopt/energy_spectrum.py
+++ b/qopt/energy_spectrum.py
@@ -34,7 +34,6 @@ Functions
 
 """
 
-import matplotlib as mpl
 import matplotlib.pyplot as plt
 import numpy as np
 
@@ -64,7 +63,7 @@ def vector_color_map(vectors: np.array):
 
     points_on_cmap = np.linspace(0, 1, vectors.shape[-1], endpoint=True)
     # include the endpoint to use the full colormap
-    basis_colors = mpl.cm.get_cmap('brg')(points_on_cmap)
+    basis_colors = plt.get_cmap('brg')(points_on_cmap)
     basis_colors = np.array(basis_colors)[:, :-1]
     
     values = np.einsum('ij, ni -> nj', basis_colors, np.abs(vectors))
-- 
2.43.0


From 4a6fb494d73bf41a245908e5e3f29bb53a3b9698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:36 +0000
Subject: [PATCH 36/38] fix: extend constant drift and dissipation when the
 number of time steps changes

A single drift operator and constant dissipation were extended to the number
of time steps only once. After Solver.set_times with another number of steps
the propagation raised an IndexError or an AssertionError.
---
 qopt/solver_algorithms.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index f4c2df6..24d0d4f 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -323,6 +323,7 @@ class Solver(ABC):
         else:
             self.transfer_function = transfer_function
 
+        self.h_drift = []
         self.transferred_time = None
         self.set_times(tau=tau)
         self._opt_pars = opt_pars
@@ -356,6 +357,10 @@ class Solver(ABC):
         self.transferred_time = self.transfer_function.x_times
         self.reset_cached_propagators()
 
+        # a single drift operator applies to every time slice
+        if self.h_drift and all(h is self.h_drift[0] for h in self.h_drift):
+            self.h_drift = self.h_drift[:1] * self.transfer_function.num_x
+
         # the control amplitudes can depend on the times
         y = self._opt_pars
         if y is not None:
@@ -1881,7 +1886,8 @@ class LindbladSolver(SchroedingerSolver):
         """ See base class. """
         super().reset_cached_propagators()
         if self._prefactor_function is not None \
-                or self._sup_op_func is not None:
+                or self._sup_op_func is not None \
+                or len(self._diss_sup_op or []) != len(self.transferred_time):
             self._diss_sup_op = None
             self._diss_sup_op_deriv = None
 
-- 
2.43.0


From c9ae0e67c40c649004e7b48430642de8231a7865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:44 +0000
Subject: [PATCH 37/38] fix: plot pulses with unequal time steps

---
 qopt/transfer_function.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index 9ba6ec9..dd0c24f 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -470,12 +470,12 @@ class TransferFunction(ABC):
         n_padding_start, n_padding_end = self.num_padding_elements
         for y_per_control, x_per_control in zip(y.T, x.T):
             plt.figure()
-            plt.bar(np.cumsum(self.x_times) - .5 * self.x_times[0],
-                    x_per_control, self.x_times[0])
-            plt.bar(np.cumsum(self._y_times) - .5 * self._y_times[0]
+            plt.bar(np.cumsum(self.x_times) - .5 * self.x_times,
+                    x_per_control, self.x_times)
+            plt.bar(np.cumsum(self._y_times) - .5 * self._y_times
                     + np.cumsum(self.x_times)[n_padding_start]
                     - self.x_times[n_padding_start],
-                    y_per_control, self._y_times[0],
+                    y_per_control, self._y_times,
                     fill=False)
         plt.xlabel(xlabel)
         plt.ylabel(ylabel)
-- 
2.43.0


From f9560cc4e4d505a351dab96bf57ba4c143fbf4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:26 +0000
Subject: [PATCH 38/38] fix: transferred parameters do not share memory with
 the optimization parameters

---
 qopt/solver_algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 24d0d4f..6534712 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -395,7 +395,7 @@ class Solver(ABC):
         y = np.copy(y)
 
         if self.transfer_function is not None:
-            transferred_parameters = self.transfer_function(y)
+            transferred_parameters = self.transfer_function(np.copy(y))
         else:
             transferred_parameters = np.copy(y)
 
-- 
2.43.0

