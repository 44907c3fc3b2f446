From e4ca61787ad791c29fe8f302fde06b5667f6b8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:13 +0000
Subject: [PATCH 01/27] fix: GARCHModel.fit returns its estimates when already
 estimated

---
 src/frds/algorithms/_garch.py | 1046 ++++++++++++++++-----------------
 1 file changed, 523 insertions(+), 523 deletions(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 9857305..eafbb33 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -1,523 +1,523 @@
-import warnings
-import itertools
-from typing import List
-from dataclasses import dataclass
-import numpy as np
-from scipy.optimize import minimize, OptimizeResult
-
-USE_CPP_EXTENSION = True
-try:
-    import frds.algorithms.utils.utils_ext as ext
-except ImportError:
-    USE_CPP_EXTENSION = False
-
-
-class GARCHModel:
-    """:doc:`/algorithms/garch` model with constant mean and Normal noise
-
-    It estimates the model parameters only. No standard errors calculated.
-
-    This code is heavily based on the `arch <https://arch.readthedocs.io/>`_.
-    Modifications are made for easier understaing of the code flow.
-    """
-
-    @dataclass
-    class Parameters:
-        mu: float = np.nan
-        omega: float = np.nan
-        alpha: float = np.nan
-        beta: float = np.nan
-        loglikelihood: float = np.nan
-
-    def __init__(self, returns: np.ndarray, zero_mean=False) -> None:
-        """__init__
-
-        Args:
-            returns (np.ndarray): ``(T,)`` array of ``T`` returns
-            zero_mean (bool): whether to use a zero mean returns model. Default to False.
-
-        .. note:: ``returns`` is best to be percentage returns for optimization
-        """
-        self.returns = np.asarray(returns, dtype=np.float64)
-        self.estimation_success = False
-        self.loglikelihood_final = np.nan
-        self.parameters = type(self).Parameters()
-        self.resids = np.empty_like(self.returns)
-        self.sigma2 = np.empty_like(self.returns)
-        self.backcast_value = np.nan
-        self.var_bounds: np.ndarray = None
-        self.zero_mean = zero_mean
-
-    def fit(self) -> Parameters:
-        """Estimates the GARCH(1,1) parameters via MLE
-
-        Returns:
-            params: :class:`frds.algorithms.GARCHModel.Parameters`
-        """
-        # No repeated estimation?
-        if self.estimation_success:
-            return
-
-        starting_vals = self.preparation()
-
-        # Set bounds for parameters
-        bounds = [
-            (-np.inf, np.inf),  # No bounds for mu
-            (1e-6, np.inf),  # Lower bound for omega
-            (0.0, 1.0),  # Bounds for alpha
-            (0.0, 1.0),  # Boudns for beta
-        ]
-        if self.zero_mean:
-            bounds = bounds[1:]
-
-        # Set constraint for stationarity
-        def persistence_smaller_than_one(params: List[float]):
-            alpha, beta = params[-2:]
-            return 1.0 - (alpha + beta)
-
-        # MLE via minimizing the negative log-likelihood
-        # fmt: off
-        with warnings.catch_warnings():
-            warnings.filterwarnings(
-                "ignore",
-                "Values in x were outside bounds during a minimize step",
-                RuntimeWarning,
-            )
-            opt: OptimizeResult = minimize(
-                self.loglikelihood_model,
-                starting_vals,
-                args=(self.backcast_value, self.var_bounds, self.zero_mean),
-                method="SLSQP",
-                bounds=bounds,
-                constraints={"type": "ineq", "fun": persistence_smaller_than_one},
-            )
-            if opt.success:
-                self.estimation_success = True
-                if self.zero_mean:
-                    self.parameters = type(self).Parameters(0.0, *list(opt.x), loglikelihood=-opt.fun)
-                else:
-                    self.parameters = type(self).Parameters(*list(opt.x), loglikelihood=-opt.fun)
-                self.resids = self.returns - self.parameters.mu
-
-        return self.parameters
-
-    def preparation(self) -> List[float]:
-        """Prepare starting values.
-
-        Returns:
-            List[float]: list of starting values
-        """
-        # Compute a starting value for volatility process by backcasting
-        if self.zero_mean:
-            resids = self.returns
-        else:
-            resids = self.returns - np.mean(self.returns)
-        self.backcast_value = self.backcast(resids)
-        # Compute a loose bound for the volatility process
-        # This is to avoid NaN in MLE by avoiding zero/negative variance,
-        # as well as unreasonably large variance.
-        self.var_bounds = self.variance_bounds(resids)
-        # Compute the starting values for MLE
-        # Starting values for the volatility process
-        var_params = self.starting_values(resids)
-        # Starting value for mu is the sample mean return
-        initial_mu = self.returns.mean()
-        # Starting values are [mu, omega, alpha, beta]
-        starting_vals = [initial_mu, *var_params]
-
-        return starting_vals if not self.zero_mean else var_params
-
-    def loglikelihood_model(
-        self,
-        params: np.ndarray,
-        backcast: float,
-        var_bounds: np.ndarray,
-        zero_mean=False,
-    ) -> float:
-        """Calculates the negative log-likelihood based on the current ``params``.
-        This function is used in optimization.
-
-        Args:
-            params (np.ndarray): [mu, omega, alpha, (gamma), beta]
-            backcast (float): backcast value
-            var_bounds (np.ndarray): variance bounds
-
-        Returns:
-            float: negative log-likelihood
-        """
-        if zero_mean:
-            resids = self.returns
-            self.sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
-        else:
-            resids = self.returns - params[0]  # params[0] is mu
-            self.sigma2 = self.compute_variance(
-                params[1:], resids, backcast, var_bounds
-            )
-        return -self.loglikelihood(resids, self.sigma2)
-
-    @staticmethod
-    def loglikelihood(resids: np.ndarray, sigma2: np.ndarray) -> float:
-        """Computes the log-likelihood assuming residuals are
-        normally distributed conditional on the variance.
-
-        Args:
-            resids (np.ndarray): residuals to use in computing log-likelihood.
-            sigma2 (np.ndarray): conditional variance of residuals.
-
-        Returns:
-            float: log-likelihood
-        """
-        l = -0.5 * (np.log(2 * np.pi) + np.log(sigma2) + resids**2.0 / sigma2)
-        return np.sum(l)
-
-    @staticmethod
-    def compute_variance(
-        params: List[float],
-        resids: np.ndarray,
-        backcast: float,
-        var_bounds: np.ndarray,
-    ) -> np.ndarray:
-        """Computes the variances conditional on given parameters
-
-        Args:
-            params (List[float]): [omega, alpha, beta]
-            resids (np.ndarray): residuals from mean equation
-            backcast (float): backcast value
-            var_bounds (np.ndarray): variance bounds
-
-        Returns:
-            np.ndarray: conditional variance
-        """
-        if USE_CPP_EXTENSION:
-            return ext.compute_garch_variance(params, resids, backcast, var_bounds)
-        omega, alpha, beta = params
-        sigma2 = np.zeros_like(resids)
-        sigma2[0] = omega + (alpha + beta) * backcast
-        for t in range(1, len(resids)):
-            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
-            sigma2[t] = GARCHModel.bounds_check(sigma2[t], var_bounds[t])
-        return sigma2
-
-    def starting_values(self, resids: np.ndarray) -> List[float]:
-        """Finds the optimal initial values for the volatility model via a grid
-        search. For varying target persistence and alpha values, return the
-        combination of alpha and beta that gives the highest loglikelihood.
-
-        Args:
-            resids (np.ndarray): residuals from the mean model
-
-        Returns:
-            List[float]: [omega, alpha, beta]
-        """
-        # Candidate target persistence - we don't have a prior knowledge here
-        persistence_grid = [0.5, 0.7, 0.9, 0.98]
-        # Candidate alpha values
-        alpha_grid = [0.01, 0.05, 0.1, 0.2]
-        # Sample variance
-        var = self.returns.var()
-        # Backcast initial value for the volaility process
-        initial_params = []
-        max_likelihood = -np.inf
-        for alpha, p in itertools.product(*[alpha_grid, persistence_grid]):
-            # Note that (alpha+beta) is the "persistence"
-            beta = p - alpha
-            # Note that the unconditional variance is omega/(1-persistence).
-            # As we are guessing the initial value, we use the sample variance
-            # as the unconditional variance to guess the omega value.
-            omega = var * (1 - p)
-            params = [omega, alpha, beta]
-            sigma2 = self.compute_variance(
-                params, resids, self.backcast_value, self.var_bounds
-            )
-            if -self.loglikelihood(resids, sigma2) > max_likelihood:
-                initial_params = params
-        return initial_params
-
-    @staticmethod
-    def variance_bounds(resids: np.ndarray) -> np.ndarray:
-        """Compute bounds for conditional variances using EWMA.
-
-        This function calculates the lower and upper bounds for conditional variances
-        based on the residuals provided. The bounds are computed to ensure numerical
-        stability during the parameter estimation process of GARCH models. The function
-        uses Exponentially Weighted Moving Average (EWMA) to estimate the initial variance
-        and then adjusts these estimates to lie within global bounds.
-
-        Args:
-            resids (np.ndarray): residuals from the mean model.
-
-        Returns:
-            np.ndarray: an array where each row contains the lower and upper bounds for the conditional variance at each time point.
-        """
-
-        T = len(resids)
-        tau = min(75, T)
-        # Compute initial variance using EWMA
-        decay_factor = 0.94
-        weights = decay_factor ** np.arange(tau)
-        weights /= weights.sum()
-        initial_variance = np.dot(weights, resids[:tau] ** 2)
-        # Compute var_bound using EWMA (assuming ewma_recursion is defined)
-        var_bound = GARCHModel.ewma(resids, initial_variance)
-        # Compute global bounds
-        global_lower_bound = resids.var() / 1e8
-        global_upper_bound = 1e7 * (1 + (resids**2).max())
-        # Adjust var_bound to ensure it lies within global bounds
-        var_bound = np.clip(var_bound, global_lower_bound, global_upper_bound)
-        # Create bounds matrix
-        var_bounds = np.vstack((var_bound / 1e6, var_bound * 1e6)).T
-
-        return np.ascontiguousarray(var_bounds)
-
-    @staticmethod
-    def bounds_check(sigma2: float, var_bounds: np.ndarray) -> float:
-        """Adjust the conditional variance at time t based on its bounds
-
-        Args:
-            sigma2 (float): conditional variance
-            var_bounds (np.ndarray): lower and upper bounds
-
-        Returns:
-            float: adjusted conditional variance
-        """
-        if USE_CPP_EXTENSION:
-            return ext.bounds_check(sigma2, var_bounds)
-        lower, upper = var_bounds[0], var_bounds[1]
-        sigma2 = max(lower, sigma2)
-        if sigma2 > upper:
-            if not np.isinf(sigma2):
-                sigma2 = upper + np.log(sigma2 / upper)
-            else:
-                sigma2 = upper + 1000
-        return sigma2
-
-    @staticmethod
-    def backcast(resids: np.ndarray) -> float:
-        """Computes the starting value for estimating conditional variance.
-
-        Args:
-            resids (np.ndarray): residuals
-
-        Returns:
-            float: initial value from backcasting
-        """
-        # Limit to first tau observations to reduce computation
-        tau = min(75, resids.shape[0])
-        # Weights for Exponential Weighted Moving Average (EWMA)
-        w = 0.94 ** np.arange(tau)
-        w = w / sum(w)  # Ensure weights add up to 1
-        # Let the initial value to be the EWMA of first tau observations
-        return float(np.sum((resids[:tau] ** 2) * w))
-
-    @staticmethod
-    def ewma(resids: np.ndarray, initial_value: float, lam=0.94) -> np.ndarray:
-        """Compute the conditional variance estimates using
-        Exponentially Weighted Moving Average (EWMA).
-
-        Args:
-            resids (np.ndarray): Residuals from the model.
-            initial_value (float): Initial value for the conditional variance.
-            lam (float): Decay factor for the EWMA.
-
-        Returns:
-            np.ndarray: Array containing the conditional variance estimates.
-        """
-        if USE_CPP_EXTENSION:
-            return ext.ewma(resids, initial_value, lam)
-        T = len(resids)
-        variance = np.empty(T)
-        variance[0] = initial_value  # Set the initial value
-        # Compute the squared residuals
-        squared_resids = resids**2
-        # Compute the EWMA using the decay factors and squared residuals
-        for t in range(1, T):
-            variance[t] = lam * variance[t - 1] + (1 - lam) * squared_resids[t - 1]
-        return variance
-
-
-class GJRGARCHModel(GARCHModel):
-    """:doc:`/algorithms/gjr-garch` model with constant mean and Normal noise
-
-    It estimates the model parameters only. No standard errors calculated.
-
-    This code is heavily based on the `arch <https://arch.readthedocs.io/>`_.
-    Modifications are made for easier understaing of the code flow.
-    """
-
-    @dataclass
-    class Parameters:
-        mu: float = np.nan
-        omega: float = np.nan
-        alpha: float = np.nan
-        gamma: float = np.nan
-        beta: float = np.nan
-        loglikelihood: float = np.nan
-
-    def fit(self) -> Parameters:
-        """Estimates the GJR-GARCH(1,1) parameters via MLE
-
-        Returns:
-            List[float]: [mu, omega, alpha, gamma, beta, loglikelihood]
-        """
-        starting_vals = self.preparation()
-
-        bounds = [
-            (-np.inf, np.inf),  # No bounds for mu
-            (1e-6, np.inf),  # Lower bound for omega
-            (1e-6, 1.0),  # Bounds for alpha
-            (1e-6, 1.0),  # Bounds for gamma
-            (1e-6, 1.0),  # Boudns for beta
-        ]
-        if self.zero_mean:
-            bounds = bounds[1:]
-
-        # Set constraint for stationarity
-        def persistence_smaller_than_one(params: List[float]):
-            alpha, gamma, beta = params[-3:]
-            return 1.0 - (alpha + beta + gamma / 2)
-
-        # MLE via minimizing the negative log-likelihood
-        with warnings.catch_warnings():
-            warnings.filterwarnings(
-                "ignore",
-                "Values in x were outside bounds during a minimize step",
-                RuntimeWarning,
-            )
-            opt: OptimizeResult = minimize(
-                self.loglikelihood_model,
-                starting_vals,
-                args=(self.backcast_value, self.var_bounds, self.zero_mean),
-                method="SLSQP",
-                bounds=bounds,
-                constraints={"type": "ineq", "fun": persistence_smaller_than_one},
-            )
-            if opt.success:
-                self.estimation_success = True
-                if self.zero_mean:
-                    self.parameters = type(self).Parameters(
-                        0.0, *list(opt.x), loglikelihood=-opt.fun
-                    )
-                else:
-                    self.parameters = type(self).Parameters(
-                        *list(opt.x), loglikelihood=-opt.fun
-                    )
-                self.resids = self.returns - self.parameters.mu
-
-        return self.parameters
-
-    @staticmethod
-    def compute_variance(
-        params: List[float],
-        resids: np.ndarray,
-        backcast: float,
-        var_bounds: np.ndarray,
-    ) -> np.ndarray:
-        """Computes the variances conditional on given parameters
-
-        Args:
-            params (List[float]): [omega, alpha, gamma, beta]
-            resids (np.ndarray): residuals from mean equation
-            backcast (float): backcast value
-            var_bounds (np.ndarray): variance bounds
-
-        Returns:
-            np.ndarray: conditional variance
-        """
-        if USE_CPP_EXTENSION:
-            return ext.compute_gjrgarch_variance(params, resids, backcast, var_bounds)
-        # fmt: off
-        omega, alpha, gamma, beta = params
-        sigma2 = np.zeros_like(resids)
-        sigma2[0] = omega + (alpha + gamma/2 + beta) * backcast
-        for t in range(1, len(resids)):
-            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
-            sigma2[t] += gamma * resids[t - 1] ** 2 if resids[t - 1] < 0 else 0
-            sigma2[t] = GJRGARCHModel.bounds_check(sigma2[t], var_bounds[t])
-        return sigma2
-
-    @staticmethod
-    def forecast_variance(
-        params: Parameters,
-        resids: np.ndarray,
-        initial_variance: float,
-    ) -> np.ndarray:
-        """Forecast the variances conditional on given parameters and residuals.
-
-        Args:
-            params (Parameters): :class:`frds.algorithms.GJRGARCHModel.Parameters`
-            resids (np.ndarray): residuals to use
-            initial_variance (float): starting value of variance forecasts
-
-        Returns:
-            np.ndarray: conditional variance
-        """
-        # fmt: off
-        omega, alpha, gamma, beta = params.omega, params.alpha, params.gamma, params.beta
-        sigma2 = np.zeros_like(resids)
-        sigma2[0] = initial_variance
-        for t in range(1, len(resids)):
-            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
-            sigma2[t] += gamma * resids[t - 1] ** 2 if resids[t - 1] < 0 else 0
-        return sigma2[1:]
-
-    def starting_values(self, resids: np.ndarray) -> List[float]:
-        """Finds the optimal initial values for the volatility model via a grid
-        search. For varying target persistence and alpha values, return the
-        combination of alpha and beta that gives the highest loglikelihood.
-
-        Args:
-            resids (np.ndarray): residuals from the mean model
-
-        Returns:
-            List[float]: [omega, alpha, gamma, beta]
-        """
-        # Candidate target persistence - we don't have a prior knowledge here
-        persistence_grid = [0.5, 0.7, 0.9, 0.98]
-        # Candidate alpha values
-        alpha_grid = [0.01, 0.05, 0.1, 0.2]
-        gamma_grid = alpha_grid
-        # Sample variance
-        var = self.returns.var()
-        # Backcast initial value for the volaility process
-        var_bounds = self.variance_bounds(resids)
-        backcast = self.backcast(resids)
-        initial_params = []
-        max_likelihood = -np.inf
-        # fmt: off
-        for alpha, gamma, p in itertools.product(*[alpha_grid, gamma_grid, persistence_grid]):
-            # Note that (alpha+beta) is the "persistence"
-            beta = p - alpha - gamma/2
-            # Note that the unconditional variance is omega/(1-persistence).
-            # As we are guessing the initial value, we use the sample variance
-            # as the unconditional variance to guess the omega value.
-            omega = var * (1 - p)
-            params = [omega, alpha, gamma, beta]
-            sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
-            if -self.loglikelihood(resids, sigma2) > max_likelihood:
-                initial_params = params
-        return initial_params
-
-
-if __name__ == "__main__":
-    import pandas as pd
-    from pprint import pprint
-
-    df = pd.read_stata(
-        "https://www.stata-press.com/data/r18/stocks.dta", convert_dates=["date"]
-    )
-    df.set_index("date", inplace=True)
-    # Scale returns to percentage returns for better optimization results
-    returns = df["nissan"].to_numpy() * 100
-
-    g = GARCHModel(returns)
-    res = g.fit()
-    pprint(res)
-
-    gjr = GJRGARCHModel(returns)
-    res = gjr.fit()
-    pprint(res)
-
-    from arch import arch_model
-
-    m = arch_model(returns, p=1, o=1, q=1)
-    print(m.fit(disp=False))
+import warnings
+import itertools
+from typing import List
+from dataclasses import dataclass
+import numpy as np
+from scipy.optimize import minimize, OptimizeResult
+
+USE_CPP_EXTENSION = True
+try:
+    import frds.algorithms.utils.utils_ext as ext
+except ImportError:
+    USE_CPP_EXTENSION = False
+
+
+class GARCHModel:
+    """:doc:`/algorithms/garch` model with constant mean and Normal noise
+
+    It estimates the model parameters only. No standard errors calculated.
+
+    This code is heavily based on the `arch <https://arch.readthedocs.io/>`_.
+    Modifications are made for easier understaing of the code flow.
+    """
+
+    @dataclass
+    class Parameters:
+        mu: float = np.nan
+        omega: float = np.nan
+        alpha: float = np.nan
+        beta: float = np.nan
+        loglikelihood: float = np.nan
+
+    def __init__(self, returns: np.ndarray, zero_mean=False) -> None:
+        """__init__
+
+        Args:
+            returns (np.ndarray): ``(T,)`` array of ``T`` returns
+            zero_mean (bool): whether to use a zero mean returns model. Default to False.
+
+        .. note:: ``returns`` is best to be percentage returns for optimization
+        """
+        self.returns = np.asarray(returns, dtype=np.float64)
+        self.estimation_success = False
+        self.loglikelihood_final = np.nan
+        self.parameters = type(self).Parameters()
+        self.resids = np.empty_like(self.returns)
+        self.sigma2 = np.empty_like(self.returns)
+        self.backcast_value = np.nan
+        self.var_bounds: np.ndarray = None
+        self.zero_mean = zero_mean
+
+    def fit(self) -> Parameters:
+        """Estimates the GARCH(1,1) parameters via MLE
+
+        Returns:
+            params: :class:`frds.algorithms.GARCHModel.Parameters`
+        """
+        # No repeated estimation?
+        if self.estimation_success:
+            return self.parameters
+
+        starting_vals = self.preparation()
+
+        # Set bounds for parameters
+        bounds = [
+            (-np.inf, np.inf),  # No bounds for mu
+            (1e-6, np.inf),  # Lower bound for omega
+            (0.0, 1.0),  # Bounds for alpha
+            (0.0, 1.0),  # Boudns for beta
+        ]
+        if self.zero_mean:
+            bounds = bounds[1:]
+
+        # Set constraint for stationarity
+        def persistence_smaller_than_one(params: List[float]):
+            alpha, beta = params[-2:]
+            return 1.0 - (alpha + beta)
+
+        # MLE via minimizing the negative log-likelihood
+        # fmt: off
+        with warnings.catch_warnings():
+            warnings.filterwarnings(
+                "ignore",
+                "Values in x were outside bounds during a minimize step",
+                RuntimeWarning,
+            )
+            opt: OptimizeResult = minimize(
+                self.loglikelihood_model,
+                starting_vals,
+                args=(self.backcast_value, self.var_bounds, self.zero_mean),
+                method="SLSQP",
+                bounds=bounds,
+                constraints={"type": "ineq", "fun": persistence_smaller_than_one},
+            )
+            if opt.success:
+                self.estimation_success = True
+                if self.zero_mean:
+                    self.parameters = type(self).Parameters(0.0, *list(opt.x), loglikelihood=-opt.fun)
+                else:
+                    self.parameters = type(self).Parameters(*list(opt.x), loglikelihood=-opt.fun)
+                self.resids = self.returns - self.parameters.mu
+
+        return self.parameters
+
+    def preparation(self) -> List[float]:
+        """Prepare starting values.
+
+        Returns:
+            List[float]: list of starting values
+        """
+        # Compute a starting value for volatility process by backcasting
+        if self.zero_mean:
+            resids = self.returns
+        else:
+            resids = self.returns - np.mean(self.returns)
+        self.backcast_value = self.backcast(resids)
+        # Compute a loose bound for the volatility process
+        # This is to avoid NaN in MLE by avoiding zero/negative variance,
+        # as well as unreasonably large variance.
+        self.var_bounds = self.variance_bounds(resids)
+        # Compute the starting values for MLE
+        # Starting values for the volatility process
+        var_params = self.starting_values(resids)
+        # Starting value for mu is the sample mean return
+        initial_mu = self.returns.mean()
+        # Starting values are [mu, omega, alpha, beta]
+        starting_vals = [initial_mu, *var_params]
+
+        return starting_vals if not self.zero_mean else var_params
+
+    def loglikelihood_model(
+        self,
+        params: np.ndarray,
+        backcast: float,
+        var_bounds: np.ndarray,
+        zero_mean=False,
+    ) -> float:
+        """Calculates the negative log-likelihood based on the current ``params``.
+        This function is used in optimization.
+
+        Args:
+            params (np.ndarray): [mu, omega, alpha, (gamma), beta]
+            backcast (float): backcast value
+            var_bounds (np.ndarray): variance bounds
+
+        Returns:
+            float: negative log-likelihood
+        """
+        if zero_mean:
+            resids = self.returns
+            self.sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
+        else:
+            resids = self.returns - params[0]  # params[0] is mu
+            self.sigma2 = self.compute_variance(
+                params[1:], resids, backcast, var_bounds
+            )
+        return -self.loglikelihood(resids, self.sigma2)
+
+    @staticmethod
+    def loglikelihood(resids: np.ndarray, sigma2: np.ndarray) -> float:
+        """Computes the log-likelihood assuming residuals are
+        normally distributed conditional on the variance.
+
+        Args:
+            resids (np.ndarray): residuals to use in computing log-likelihood.
+            sigma2 (np.ndarray): conditional variance of residuals.
+
+        Returns:
+            float: log-likelihood
+        """
+        l = -0.5 * (np.log(2 * np.pi) + np.log(sigma2) + resids**2.0 / sigma2)
+        return np.sum(l)
+
+    @staticmethod
+    def compute_variance(
+        params: List[float],
+        resids: np.ndarray,
+        backcast: float,
+        var_bounds: np.ndarray,
+    ) -> np.ndarray:
+        """Computes the variances conditional on given parameters
+
+        Args:
+            params (List[float]): [omega, alpha, beta]
+            resids (np.ndarray): residuals from mean equation
+            backcast (float): backcast value
+            var_bounds (np.ndarray): variance bounds
+
+        Returns:
+            np.ndarray: conditional variance
+        """
+        if USE_CPP_EXTENSION:
+            return ext.compute_garch_variance(params, resids, backcast, var_bounds)
+        omega, alpha, beta = params
+        sigma2 = np.zeros_like(resids)
+        sigma2[0] = omega + (alpha + beta) * backcast
+        for t in range(1, len(resids)):
+            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
+            sigma2[t] = GARCHModel.bounds_check(sigma2[t], var_bounds[t])
+        return sigma2
+
+    def starting_values(self, resids: np.ndarray) -> List[float]:
+        """Finds the optimal initial values for the volatility model via a grid
+        search. For varying target persistence and alpha values, return the
+        combination of alpha and beta that gives the highest loglikelihood.
+
+        Args:
+            resids (np.ndarray): residuals from the mean model
+
+        Returns:
+            List[float]: [omega, alpha, beta]
+        """
+        # Candidate target persistence - we don't have a prior knowledge here
+        persistence_grid = [0.5, 0.7, 0.9, 0.98]
+        # Candidate alpha values
+        alpha_grid = [0.01, 0.05, 0.1, 0.2]
+        # Sample variance
+        var = self.returns.var()
+        # Backcast initial value for the volaility process
+        initial_params = []
+        max_likelihood = -np.inf
+        for alpha, p in itertools.product(*[alpha_grid, persistence_grid]):
+            # Note that (alpha+beta) is the "persistence"
+            beta = p - alpha
+            # Note that the unconditional variance is omega/(1-persistence).
+            # As we are guessing the initial value, we use the sample variance
+            # as the unconditional variance to guess the omega value.
+            omega = var * (1 - p)
+            params = [omega, alpha, beta]
+            sigma2 = self.compute_variance(
+                params, resids, self.backcast_value, self.var_bounds
+            )
+            if -self.loglikelihood(resids, sigma2) > max_likelihood:
+                initial_params = params
+        return initial_params
+
+    @staticmethod
+    def variance_bounds(resids: np.ndarray) -> np.ndarray:
+        """Compute bounds for conditional variances using EWMA.
+
+        This function calculates the lower and upper bounds for conditional variances
+        based on the residuals provided. The bounds are computed to ensure numerical
+        stability during the parameter estimation process of GARCH models. The function
+        uses Exponentially Weighted Moving Average (EWMA) to estimate the initial variance
+        and then adjusts these estimates to lie within global bounds.
+
+        Args:
+            resids (np.ndarray): residuals from the mean model.
+
+        Returns:
+            np.ndarray: an array where each row contains the lower and upper bounds for the conditional variance at each time point.
+        """
+
+        T = len(resids)
+        tau = min(75, T)
+        # Compute initial variance using EWMA
+        decay_factor = 0.94
+        weights = decay_factor ** np.arange(tau)
+        weights /= weights.sum()
+        initial_variance = np.dot(weights, resids[:tau] ** 2)
+        # Compute var_bound using EWMA (assuming ewma_recursion is defined)
+        var_bound = GARCHModel.ewma(resids, initial_variance)
+        # Compute global bounds
+        global_lower_bound = resids.var() / 1e8
+        global_upper_bound = 1e7 * (1 + (resids**2).max())
+        # Adjust var_bound to ensure it lies within global bounds
+        var_bound = np.clip(var_bound, global_lower_bound, global_upper_bound)
+        # Create bounds matrix
+        var_bounds = np.vstack((var_bound / 1e6, var_bound * 1e6)).T
+
+        return np.ascontiguousarray(var_bounds)
+
+    @staticmethod
+    def bounds_check(sigma2: float, var_bounds: np.ndarray) -> float:
+        """Adjust the conditional variance at time t based on its bounds
+
+        Args:
+            sigma2 (float): conditional variance
+            var_bounds (np.ndarray): lower and upper bounds
+
+        Returns:
+            float: adjusted conditional variance
+        """
+        if USE_CPP_EXTENSION:
+            return ext.bounds_check(sigma2, var_bounds)
+        lower, upper = var_bounds[0], var_bounds[1]
+        sigma2 = max(lower, sigma2)
+        if sigma2 > upper:
+            if not np.isinf(sigma2):
+                sigma2 = upper + np.log(sigma2 / upper)
+            else:
+                sigma2 = upper + 1000
+        return sigma2
+
+    @staticmethod
+    def backcast(resids: np.ndarray) -> float:
+        """Computes the starting value for estimating conditional variance.
+
+        Args:
+            resids (np.ndarray): residuals
+
+        Returns:
+            float: initial value from backcasting
+        """
+        # Limit to first tau observations to reduce computation
+        tau = min(75, resids.shape[0])
+        # Weights for Exponential Weighted Moving Average (EWMA)
+        w = 0.94 ** np.arange(tau)
+        w = w / sum(w)  # Ensure weights add up to 1
+        # Let the initial value to be the EWMA of first tau observations
+        return float(np.sum((resids[:tau] ** 2) * w))
+
+    @staticmethod
+    def ewma(resids: np.ndarray, initial_value: float, lam=0.94) -> np.ndarray:
+        """Compute the conditional variance estimates using
+        Exponentially Weighted Moving Average (EWMA).
+
+        Args:
+            resids (np.ndarray): Residuals from the model.
+            initial_value (float): Initial value for the conditional variance.
+            lam (float): Decay factor for the EWMA.
+
+        Returns:
+            np.ndarray: Array containing the conditional variance estimates.
+        """
+        if USE_CPP_EXTENSION:
+            return ext.ewma(resids, initial_value, lam)
+        T = len(resids)
+        variance = np.empty(T)
+        variance[0] = initial_value  # Set the initial value
+        # Compute the squared residuals
+        squared_resids = resids**2
+        # Compute the EWMA using the decay factors and squared residuals
+        for t in range(1, T):
+            variance[t] = lam * variance[t - 1] + (1 - lam) * squared_resids[t - 1]
+        return variance
+
+
+class GJRGARCHModel(GARCHModel):
+    """:doc:`/algorithms/gjr-garch` model with constant mean and Normal noise
+
+    It estimates the model parameters only. No standard errors calculated.
+
+    This code is heavily based on the `arch <https://arch.readthedocs.io/>`_.
+    Modifications are made for easier understaing of the code flow.
+    """
+
+    @dataclass
+    class Parameters:
+        mu: float = np.nan
+        omega: float = np.nan
+        alpha: float = np.nan
+        gamma: float = np.nan
+        beta: float = np.nan
+        loglikelihood: float = np.nan
+
+    def fit(self) -> Parameters:
+        """Estimates the GJR-GARCH(1,1) parameters via MLE
+
+        Returns:
+            List[float]: [mu, omega, alpha, gamma, beta, loglikelihood]
+        """
+        starting_vals = self.preparation()
+
+        bounds = [
+            (-np.inf, np.inf),  # No bounds for mu
+            (1e-6, np.inf),  # Lower bound for omega
+            (1e-6, 1.0),  # Bounds for alpha
+            (1e-6, 1.0),  # Bounds for gamma
+            (1e-6, 1.0),  # Boudns for beta
+        ]
+        if self.zero_mean:
+            bounds = bounds[1:]
+
+        # Set constraint for stationarity
+        def persistence_smaller_than_one(params: List[float]):
+            alpha, gamma, beta = params[-3:]
+            return 1.0 - (alpha + beta + gamma / 2)
+
+        # MLE via minimizing the negative log-likelihood
+        with warnings.catch_warnings():
+            warnings.filterwarnings(
+                "ignore",
+                "Values in x were outside bounds during a minimize step",
+                RuntimeWarning,
+            )
+            opt: OptimizeResult = minimize(
+                self.loglikelihood_model,
+                starting_vals,
+                args=(self.backcast_value, self.var_bounds, self.zero_mean),
+                method="SLSQP",
+                bounds=bounds,
+                constraints={"type": "ineq", "fun": persistence_smaller_than_one},
+            )
+            if opt.success:
+                self.estimation_success = True
+                if self.zero_mean:
+                    self.parameters = type(self).Parameters(
+                        0.0, *list(opt.x), loglikelihood=-opt.fun
+                    )
+                else:
+                    self.parameters = type(self).Parameters(
+                        *list(opt.x), loglikelihood=-opt.fun
+                    )
+                self.resids = self.returns - self.parameters.mu
+
+        return self.parameters
+
+    @staticmethod
+    def compute_variance(
+        params: List[float],
+        resids: np.ndarray,
+        backcast: float,
+        var_bounds: np.ndarray,
+    ) -> np.ndarray:
+        """Computes the variances conditional on given parameters
+
+        Args:
+            params (List[float]): [omega, alpha, gamma, beta]
+            resids (np.ndarray): residuals from mean equation
+            backcast (float): backcast value
+            var_bounds (np.ndarray): variance bounds
+
+        Returns:
+            np.ndarray: conditional variance
+        """
+        if USE_CPP_EXTENSION:
+            return ext.compute_gjrgarch_variance(params, resids, backcast, var_bounds)
+        # fmt: off
+        omega, alpha, gamma, beta = params
+        sigma2 = np.zeros_like(resids)
+        sigma2[0] = omega + (alpha + gamma/2 + beta) * backcast
+        for t in range(1, len(resids)):
+            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
+            sigma2[t] += gamma * resids[t - 1] ** 2 if resids[t - 1] < 0 else 0
+            sigma2[t] = GJRGARCHModel.bounds_check(sigma2[t], var_bounds[t])
+        return sigma2
+
+    @staticmethod
+    def forecast_variance(
+        params: Parameters,
+        resids: np.ndarray,
+        initial_variance: float,
+    ) -> np.ndarray:
+        """Forecast the variances conditional on given parameters and residuals.
+
+        Args:
+            params (Parameters): :class:`frds.algorithms.GJRGARCHModel.Parameters`
+            resids (np.ndarray): residuals to use
+            initial_variance (float): starting value of variance forecasts
+
+        Returns:
+            np.ndarray: conditional variance
+        """
+        # fmt: off
+        omega, alpha, gamma, beta = params.omega, params.alpha, params.gamma, params.beta
+        sigma2 = np.zeros_like(resids)
+        sigma2[0] = initial_variance
+        for t in range(1, len(resids)):
+            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
+            sigma2[t] += gamma * resids[t - 1] ** 2 if resids[t - 1] < 0 else 0
+        return sigma2[1:]
+
+    def starting_values(self, resids: np.ndarray) -> List[float]:
+        """Finds the optimal initial values for the volatility model via a grid
+        search. For varying target persistence and alpha values, return the
+        combination of alpha and beta that gives the highest loglikelihood.
+
+        Args:
+            resids (np.ndarray): residuals from the mean model
+
+        Returns:
+            List[float]: [omega, alpha, gamma, beta]
+        """
+        # Candidate target persistence - we don't have a prior knowledge here
+        persistence_grid = [0.5, 0.7, 0.9, 0.98]
+        # Candidate alpha values
+        alpha_grid = [0.01, 0.05, 0.1, 0.2]
+        gamma_grid = alpha_grid
+        # Sample variance
+        var = self.returns.var()
+        # Backcast initial value for the volaility process
+        var_bounds = self.variance_bounds(resids)
+        backcast = self.backcast(resids)
+        initial_params = []
+        max_likelihood = -np.inf
+        # fmt: off
+        for alpha, gamma, p in itertools.product(*[alpha_grid, gamma_grid, persistence_grid]):
+            # Note that (alpha+beta) is the "persistence"
+            beta = p - alpha - gamma/2
+            # Note that the unconditional variance is omega/(1-persistence).
+            # As we are guessing the initial value, we use the sample variance
+            # as the unconditional variance to guess the omega value.
+            omega = var * (1 - p)
+            params = [omega, alpha, gamma, beta]
+            sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
+            if -self.loglikelihood(resids, sigma2) > max_likelihood:
+                initial_params = params
+        return initial_params
+
+
+if __name__ == "__main__":
+    import pandas as pd
+    from pprint import pprint
+
+    df = pd.read_stata(
+        "https://www.stata-press.com/data/r18/stocks.dta", convert_dates=["date"]
+    )
+    df.set_index("date", inplace=True)
+    # Scale returns to percentage returns for better optimization results
+    returns = df["nissan"].to_numpy() * 100
+
+    g = GARCHModel(returns)
+    res = g.fit()
+    pprint(res)
+
+    gjr = GJRGARCHModel(returns)
+    res = gjr.fit()
+    pprint(res)
+
+    from arch import arch_model
+
+    m = arch_model(returns, p=1, o=1, q=1)
+    print(m.fit(disp=False))
-- 
2.43.0


From 2e7da2ea3dc67fa4d3be9c2374b907849c30a559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:38 +0000
Subject: [PATCH 02/27] fix: GJRGARCHModel.fit does not estimate again once
 estimated

---
 src/frds/algorithms/_garch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index eafbb33..5ac4ced 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -359,6 +359,10 @@ class GJRGARCHModel(GARCHModel):
         Returns:
             List[float]: [mu, omega, alpha, gamma, beta, loglikelihood]
         """
+        # No repeated estimation?
+        if self.estimation_success:
+            return self.parameters
+
         starting_vals = self.preparation()
 
         bounds = [
-- 
2.43.0


From 265963dcec3d39b897f1c84eb0f53b0a487429b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:46 +0000
Subject: [PATCH 03/27] fix: grid searches for starting values keep the highest
 log-likelihood

---
 src/frds/algorithms/_garch.py  | 8 ++++++--
 src/frds/algorithms/_mgarch.py | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 5ac4ced..1c21c58 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -229,7 +229,9 @@ class GARCHModel:
             sigma2 = self.compute_variance(
                 params, resids, self.backcast_value, self.var_bounds
             )
-            if -self.loglikelihood(resids, sigma2) > max_likelihood:
+            likelihood = self.loglikelihood(resids, sigma2)
+            if likelihood > max_likelihood:
+                max_likelihood = likelihood
                 initial_params = params
         return initial_params
 
@@ -497,7 +499,9 @@ class GJRGARCHModel(GARCHModel):
             omega = var * (1 - p)
             params = [omega, alpha, gamma, beta]
             sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
-            if -self.loglikelihood(resids, sigma2) > max_likelihood:
+            likelihood = self.loglikelihood(resids, sigma2)
+            if likelihood > max_likelihood:
+                max_likelihood = likelihood
                 initial_params = params
         return initial_params
 
diff --git a/src/frds/algorithms/_mgarch.py b/src/frds/algorithms/_mgarch.py
index c2c8a14..f38fdf3 100644
--- a/src/frds/algorithms/_mgarch.py
+++ b/src/frds/algorithms/_mgarch.py
@@ -313,6 +313,7 @@ class GARCHModel_DCC(GARCHModel_CCC):
                 continue
             ll = -self.loglikelihood_model([a, b])
             if ll > max_ll:
+                max_ll = ll
                 initial_values = [a, b]
         return initial_values
 
-- 
2.43.0


From aef3d009cee757d3fbd0838c15f65b74e37f6054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 04/27] fix: stored conditional variances are those of the
 published parameters

---
 src/frds/algorithms/_garch.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 1c21c58..eac1c62 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -98,6 +98,12 @@ class GARCHModel:
                 else:
                     self.parameters = type(self).Parameters(*list(opt.x), loglikelihood=-opt.fun)
                 self.resids = self.returns - self.parameters.mu
+                self.sigma2 = self.compute_variance(
+                    opt.x if self.zero_mean else opt.x[1:],
+                    self.resids,
+                    self.backcast_value,
+                    self.var_bounds,
+                )
 
         return self.parameters
 
@@ -408,6 +414,12 @@ class GJRGARCHModel(GARCHModel):
                         *list(opt.x), loglikelihood=-opt.fun
                     )
                 self.resids = self.returns - self.parameters.mu
+                self.sigma2 = self.compute_variance(
+                    opt.x if self.zero_mean else opt.x[1:],
+                    self.resids,
+                    self.backcast_value,
+                    self.var_bounds,
+                )
 
         return self.parameters
 
-- 
2.43.0


From cc4745d5cfc1b102700f6723ae9ec852d223c31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:09 +0000
Subject: [PATCH 05/27] fix: native DCC correlations start from the correlation
 matrix, as the fallback does

---
 src/frds/algorithms/utils/mgarch.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/frds/algorithms/utils/mgarch.hpp b/src/frds/algorithms/utils/mgarch.hpp
index 7db5f1f..e109489 100644
--- a/src/frds/algorithms/utils/mgarch.hpp
+++ b/src/frds/algorithms/utils/mgarch.hpp
@@ -26,16 +26,21 @@ std::vector<double> conditional_correlations(double a, double b,
   }
 
   // Compute Q_bar (correlation matrix)
-  // Since z1 z2 have zero mean, covariance matrix is same as correlation matrix
-  double q_11_bar = 0.0, q_12_bar = 0.0, q_22_bar = 0.0;
+  double z1_mean = 0.0, z2_mean = 0.0;
   for (int t = 0; t < T; ++t) {
-    q_11_bar += z1[t] * z1[t];
-    q_12_bar += z1[t] * z2[t];
-    q_22_bar += z2[t] * z2[t];
+    z1_mean += z1[t];
+    z2_mean += z2[t];
   }
-  q_11_bar /= T;
-  q_12_bar /= T;
-  q_22_bar /= T;
+  z1_mean /= T;
+  z2_mean /= T;
+  double c11 = 0.0, c12 = 0.0, c22 = 0.0;
+  for (int t = 0; t < T; ++t) {
+    c11 += (z1[t] - z1_mean) * (z1[t] - z1_mean);
+    c12 += (z1[t] - z1_mean) * (z2[t] - z2_mean);
+    c22 += (z2[t] - z2_mean) * (z2[t] - z2_mean);
+  }
+  double q_11_bar = 1.0, q_22_bar = 1.0;
+  double q_12_bar = c12 / std::sqrt(c11 * c22);
 
   // Initialize q11, q12, q22
   std::vector<double> q11(T);
-- 
2.43.0


From 1b710b61d7e9260588d6d0506a2c0b23cb3c3dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:23 +0000
Subject: [PATCH 06/27] fix: spreads and price impact use trade directions
 given as any array-like

---
 src/frds/measures/price_impact.py | 3 ++-
 src/frds/measures/spread.py       | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/frds/measures/price_impact.py b/src/frds/measures/price_impact.py
index 40b8d53..af8b5f9 100644
--- a/src/frds/measures/price_impact.py
+++ b/src/frds/measures/price_impact.py
@@ -29,7 +29,7 @@ def simple_price_impact(
     midpoint = np.asarray(midpoint)
     volume = np.asarray(volume)
     assert midpoint_later.shape == midpoint.shape == volume.shape
-    if not isinstance(trade_direction, np.ndarray):
+    if trade_direction is None:
         # No trade direction
         if pct_spread:
             spread = 2 * np.absolute(midpoint_later - midpoint) / midpoint * 100
@@ -37,6 +37,7 @@ def simple_price_impact(
             spread = 2 * np.absolute(np.log(midpoint_later) - np.log(midpoint))
     else:
         # Use trade direction
+        trade_direction = np.asarray(trade_direction)
         assert midpoint.shape == trade_direction.shape
         if pct_spread:
             spread = 2 * trade_direction * (midpoint_later - midpoint) / midpoint * 100
diff --git a/src/frds/measures/spread.py b/src/frds/measures/spread.py
index 30504c2..ab90809 100644
--- a/src/frds/measures/spread.py
+++ b/src/frds/measures/spread.py
@@ -50,7 +50,7 @@ def effective_spread(
     midpoint = np.asarray(midpoint)
     volume = np.asarray(volume)
     assert price.shape == midpoint.shape == volume.shape
-    if not isinstance(trade_direction, np.ndarray):
+    if trade_direction is None:
         # No trade direction
         if pct_spread:
             spread = 2 * np.absolute(price - midpoint) / midpoint * 100
@@ -58,6 +58,7 @@ def effective_spread(
             spread = 2 * np.absolute(np.log(price) - np.log(midpoint))
     else:
         # Use trade direction
+        trade_direction = np.asarray(trade_direction)
         assert price.shape == trade_direction.shape
         if pct_spread:
             spread = 2 * trade_direction * (price - midpoint) / midpoint * 100
@@ -98,7 +99,7 @@ def realized_spread(
     midpoint = np.asarray(midpoint)
     volume = np.asarray(volume)
     assert price.shape == midpoint_later.shape == midpoint.shape == volume.shape
-    if not isinstance(trade_direction, np.ndarray):
+    if trade_direction is None:
         # No trade direction
         if pct_spread:
             spread = 2 * np.absolute(price - midpoint_later) / midpoint * 100
@@ -106,6 +107,7 @@ def realized_spread(
             spread = 2 * np.absolute(np.log(price) - np.log(midpoint_later))
     else:
         # Use trade direction
+        trade_direction = np.asarray(trade_direction)
         assert price.shape == trade_direction.shape
         if pct_spread:
             spread = 2 * trade_direction * (price - midpoint_later) / midpoint * 100
-- 
2.43.0


From 8cb6fbf9266ad2e42b9e0a5c1c43abec5bde3770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:31 +0000
Subject: [PATCH 07/27] fix: simple_price_impact converts and shape-checks its
 prices

---
 src/frds/measures/price_impact.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frds/measures/price_impact.py b/src/frds/measures/price_impact.py
index af8b5f9..9fe63e0 100644
--- a/src/frds/measures/price_impact.py
+++ b/src/frds/measures/price_impact.py
@@ -25,10 +25,11 @@ def simple_price_impact(
     Returns:
         float: simple price impact
     """
+    price = np.asarray(price)
     midpoint_later = np.asarray(midpoint_later)
     midpoint = np.asarray(midpoint)
     volume = np.asarray(volume)
-    assert midpoint_later.shape == midpoint.shape == volume.shape
+    assert price.shape == midpoint_later.shape == midpoint.shape == volume.shape
     if trade_direction is None:
         # No trade direction
         if pct_spread:
-- 
2.43.0


From 581d15534fbfca615aca31c0d427922a588536a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:50 +0000
Subject: [PATCH 08/27] fix: order-book slopes reject prices whose shape
 differs from the quotes

---
 src/frds/measures/lob_slope.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/frds/measures/lob_slope.py b/src/frds/measures/lob_slope.py
index 4793149..b7150db 100644
--- a/src/frds/measures/lob_slope.py
+++ b/src/frds/measures/lob_slope.py
@@ -55,6 +55,7 @@ def DGGW_ask_slope(
     n, k = ask_size.shape
     assert k > 1  # at least two levels
     assert len(mid_point.shape) == 1 and n == mid_point.shape[0]
+    assert ask_price_highest_level.shape == mid_point.shape
 
     slope = np.sum(ask_size, axis=1) / (ask_price_highest_level - mid_point)
     return np.nanmean(slope)
@@ -94,6 +95,7 @@ def DGGW_bid_slope(
     n, k = bid_size.shape
     assert k > 1  # at least two levels
     assert len(mid_point.shape) == 1 and n == mid_point.shape[0]
+    assert bid_price_highest_level.shape == mid_point.shape
 
     slope = np.sum(bid_size, axis=1) / np.abs((bid_price_highest_level - mid_point))
     return np.nanmean(slope)
@@ -114,6 +116,7 @@ def DGGW_bid_side_slope_difference(
     assert len(bid_size.shape) > 1
     n, k = bid_size.shape
     assert k > 1  # at least two levels
+    assert bid_price.shape == bid_size.shape
     # fmt: off
     slope_h = (bid_size[:,4] - bid_size[:,2]) / np.abs(bid_price[:,4] - bid_price[:,2])
     slope_l = (bid_size[:,2] - bid_size[:,0]) / np.abs(bid_price[:,2] - bid_price[:,0])
-- 
2.43.0


From 8debc850991c51b88604bf7e0f288d8319c45849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:44 +0000
Subject: [PATCH 09/27] fix: absorption ratio stays real for rank-deficient
 covariances

---
 src/frds/measures/_absorption_ratio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/measures/_absorption_ratio.py b/src/frds/measures/_absorption_ratio.py
index 14f88e4..6b101e4 100644
--- a/src/frds/measures/_absorption_ratio.py
+++ b/src/frds/measures/_absorption_ratio.py
@@ -48,4 +48,4 @@ class AbsorptionRatio:
         Returns:
             np.ndarray: eigenvalues
         """
-        return np.linalg.eigvals(self.asset_covariance)
+        return np.linalg.eigvalsh(self.asset_covariance)
-- 
2.43.0


From a7f8e096a81a26d2093edc5b432c8894ead8d33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:01 +0000
Subject: [PATCH 10/27] fix: aggregate SRISK of a single firm

---
 src/frds/measures/_srisk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/measures/_srisk.py b/src/frds/measures/_srisk.py
index b709b6c..1788e91 100644
--- a/src/frds/measures/_srisk.py
+++ b/src/frds/measures/_srisk.py
@@ -94,4 +94,4 @@ class SRISK:
         if not aggregate_srisk:
             return srisk
         else:
-            return np.sum(srisk.clip(min=0.0))
+            return np.sum(np.clip(srisk, 0.0, None))
-- 
2.43.0


From 4126c69f1cfa2cb38a83e10ef8ed51b88ed43640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:08 +0000
Subject: [PATCH 11/27] fix: PIN.estimate does not report the success of an
 earlier call

---
 src/frds/measures/_probability_of_informed_trading.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frds/measures/_probability_of_informed_trading.py b/src/frds/measures/_probability_of_informed_trading.py
index b7e804b..89b473d 100644
--- a/src/frds/measures/_probability_of_informed_trading.py
+++ b/src/frds/measures/_probability_of_informed_trading.py
@@ -72,6 +72,7 @@ class PIN:
         ]
 
         # Reset params
+        self.estimation_success = False
         self.parameters = type(self).Parameters()
         if method == "EHO2010":
             func = self.loglikelihood_EHO2010
-- 
2.43.0


From 279e4f80337b05f9dba202568652fe815217d221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:15 +0000
Subject: [PATCH 12/27] fix: distress insurance premium has a slot for losses
 near the total

---
 src/frds/measures/_distress_insurance_premium.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/frds/measures/_distress_insurance_premium.py b/src/frds/measures/_distress_insurance_premium.py
index 37dea74..9d69f3d 100644
--- a/src/frds/measures/_distress_insurance_premium.py
+++ b/src/frds/measures/_distress_insurance_premium.py
@@ -67,7 +67,8 @@ class DistressInsurancePremium:
         intervals = 100
         loss_given_default *= intervals
 
-        prob_losses = np.zeros(n_banks * intervals)
+        # Slot k holds the losses in (k-1, k], the last one is the total loss N
+        prob_losses = np.zeros(n_banks * intervals + 1)
         for i in range(n_banks):
             for j in range(n_simulations):
                 # Multiply losses_given_default(i,j) by intervals to find the right slot
@@ -83,7 +84,7 @@ class DistressInsurancePremium:
         prob_great_losses = np.sum(prob_losses[pct_threshold * n_banks :])
 
         exp_losses = np.dot(
-            np.array(range(pct_threshold * n_banks, intervals * n_banks)),
+            np.array(range(pct_threshold * n_banks, intervals * n_banks + 1)),
             prob_losses[pct_threshold * n_banks :],
         ) / (100 * prob_great_losses)
 
-- 
2.43.0


From 0077f69177356a1aa46e69b14b9c845ba11f9205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:23 +0000
Subject: [PATCH 13/27] fix: distress insurance premium is zero when great
 losses have zero probability

---
 src/frds/measures/_distress_insurance_premium.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/frds/measures/_distress_insurance_premium.py b/src/frds/measures/_distress_insurance_premium.py
index 9d69f3d..0e87087 100644
--- a/src/frds/measures/_distress_insurance_premium.py
+++ b/src/frds/measures/_distress_insurance_premium.py
@@ -83,6 +83,9 @@ class DistressInsurancePremium:
         # Find the probability that the losses are great than 0.15 the total liabilities i.e. > 0.15*N
         prob_great_losses = np.sum(prob_losses[pct_threshold * n_banks :])
 
+        if prob_great_losses == 0:
+            return 0.0
+
         exp_losses = np.dot(
             np.array(range(pct_threshold * n_banks, intervals * n_banks + 1)),
             prob_losses[pct_threshold * n_banks :],
-- 
2.43.0


From 5d15537d35aa576d40e5a6170b4339371d2b8b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:59 +0000
Subject: [PATCH 14/27] fix: import blsprice from the module that defines it

---
 src/frds/measures/modified_merton/find_face_value_indiv.py | 2 +-
 src/frds/measures/modified_merton/merton_solution.py       | 2 +-
 src/frds/measures/modified_merton/mod_merton_simulation.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/frds/measures/modified_merton/find_face_value_indiv.py b/src/frds/measures/modified_merton/find_face_value_indiv.py
index 19de9fa..eafb1f3 100644
--- a/src/frds/measures/modified_merton/find_face_value_indiv.py
+++ b/src/frds/measures/modified_merton/find_face_value_indiv.py
@@ -1,5 +1,5 @@
 import numpy as np
-from frds.measures.option_price import blsprice
+from frds.measures._option_price import blsprice
 
 
 def find_face_value_indiv(
diff --git a/src/frds/measures/modified_merton/merton_solution.py b/src/frds/measures/modified_merton/merton_solution.py
index d844421..36a4090 100644
--- a/src/frds/measures/modified_merton/merton_solution.py
+++ b/src/frds/measures/modified_merton/merton_solution.py
@@ -3,7 +3,7 @@ from scipy.optimize import fsolve
 from scipy.stats import norm
 from typing import Tuple
 
-from frds.measures.option_price import blsprice
+from frds.measures._option_price import blsprice
 
 
 def merton_solution(
diff --git a/src/frds/measures/modified_merton/mod_merton_simulation.py b/src/frds/measures/modified_merton/mod_merton_simulation.py
index 07c3835..de318db 100644
--- a/src/frds/measures/modified_merton/mod_merton_simulation.py
+++ b/src/frds/measures/modified_merton/mod_merton_simulation.py
@@ -7,7 +7,7 @@ from scipy.stats import norm
 
 import matplotlib.pyplot as plt
 
-from frds.measures.option_price import blsprice
+from frds.measures._option_price import blsprice
 from frds.measures.modified_merton.merton_solution import merton_solution
 from frds.measures.modified_merton.mod_merton_computation import mod_merton_computation
 from frds.measures.modified_merton.mod_merton_create_lookup import (
-- 
2.43.0


From a6dcbdd51bb24724a4c655aae25248f3d7f596fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:07 +0000
Subject: [PATCH 15/27] fix: penalise negative estimates in the Merton
 equations by their own size

---
 src/frds/measures/modified_merton/merton_solution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frds/measures/modified_merton/merton_solution.py b/src/frds/measures/modified_merton/merton_solution.py
index 36a4090..a024ddf 100644
--- a/src/frds/measures/modified_merton/merton_solution.py
+++ b/src/frds/measures/modified_merton/merton_solution.py
@@ -53,7 +53,8 @@ def merton_solution(
     # A includes PV(div), but B-S derivative prices don't
     # Merton asset volatility too high
 
-    penalty = esig * sig**2 + eA * A**2
+    # the penalty grows with the rejected negative estimates themselves
+    penalty = esig * x[1] ** 2 + eA * x[0] ** 2
     err = (E - C + penalty, sigE - v + penalty)
 
     return err
-- 
2.43.0


From 61257f46881c84502c6acf648b3236416a37d402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:40 +0000
Subject: [PATCH 16/27] fix: evaluate the single-cohort solver error at a
 scalar shock without changing the caller's parameters

---
 .../measures/modified_merton/mod_single_cohort_solution.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/frds/measures/modified_merton/mod_single_cohort_solution.py b/src/frds/measures/modified_merton/mod_single_cohort_solution.py
index e7c5ee3..498a52f 100644
--- a/src/frds/measures/modified_merton/mod_single_cohort_solution.py
+++ b/src/frds/measures/modified_merton/mod_single_cohort_solution.py
@@ -1,15 +1,18 @@
+import numpy as np
+
 from frds.measures.modified_merton.mod_single_cohort_computation import (
     mod_single_cohort_computation,
 )
 
 
 def mod_single_cohort_solution(b, param, N, Nsim2, E, sigE):
-    fs = b[0]
+    fs = np.atleast_1d(b[0])
+    param = list(param)  # the caller's parameters stay as they are
     param[2] = b[1]
 
     # fmt: off
     Lt, Bt, Et, LH, BH, EH, sigEt, mFt, default, mdef, face, FH, Gt, mu, F, sigLt = mod_single_cohort_computation(fs, param, N, Nsim2)
     # fmt: on
-    err = [E - Et, sigE - sigEt]
+    err = [E - Et[0], sigE - sigEt[0]]
 
     return err
-- 
2.43.0


From 1eb7e85f49b09a6daab8ec2b063751e0348ac9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:06 +0000
Subject: [PATCH 17/27] fix: simulate restores the process-wide warning filters
 it changes

---
 .../modified_merton/mod_merton_simulation.py  | 43 +++++++++----------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/src/frds/measures/modified_merton/mod_merton_simulation.py b/src/frds/measures/modified_merton/mod_merton_simulation.py
index de318db..1b7d5df 100644
--- a/src/frds/measures/modified_merton/mod_merton_simulation.py
+++ b/src/frds/measures/modified_merton/mod_merton_simulation.py
@@ -119,28 +119,27 @@ def simulate(Nsim=10000, direc=None):
     fs1 = []
     bookF1 = []
 
-    warnings.filterwarnings("ignore", category=RuntimeWarning)
-
-    # Merton model fit to equity value and volatility from our model
-    for k in range(K):
-        initb = (Et[k] + D * np.exp(-r * H), sigEt[k] / 2)
-
-        bout = fsolve(lambda b: merton_solution(b, Et[k], D, r, y, H, sigEt[k]), initb)
-
-        A = bout[0]
-        s = max(bout[1], 0.0001)
-
-        mertdd[k] = (np.log(A) - np.log(D) + (r - y - s**2 / 2) * H) / (
-            s * np.sqrt(H)
-        )
-        mertdef[k] = norm.cdf(-mertdd[k])
-        C, P = blsprice(A, D, r, H, s, y)
-        mertGG[k] = g * P
-        mertsp[k] = (1 / H) * np.log((D * np.exp(-r * H)) / ((D * np.exp(-r * H)) - P))
-        mertA[k] = A
-        merts[k] = s
-
-    warnings.filterwarnings("default")
+    with warnings.catch_warnings():
+        warnings.filterwarnings("ignore", category=RuntimeWarning)
+
+        # Merton model fit to equity value and volatility from our model
+        for k in range(K):
+            initb = (Et[k] + D * np.exp(-r * H), sigEt[k] / 2)
+
+            bout = fsolve(lambda b: merton_solution(b, Et[k], D, r, y, H, sigEt[k]), initb)
+
+            A = bout[0]
+            s = max(bout[1], 0.0001)
+
+            mertdd[k] = (np.log(A) - np.log(D) + (r - y - s**2 / 2) * H) / (
+                s * np.sqrt(H)
+            )
+            mertdef[k] = norm.cdf(-mertdd[k])
+            C, P = blsprice(A, D, r, H, s, y)
+            mertGG[k] = g * P
+            mertsp[k] = (1 / H) * np.log((D * np.exp(-r * H)) / ((D * np.exp(-r * H)) - P))
+            mertA[k] = A
+            merts[k] = s
 
     mktCR = Et / (Et + Bt)
     sp = (1 / H) * np.log((D * np.exp(-r * H)) / Bt)
-- 
2.43.0


From e43ecd2018298bf1711329bba4bc2da47ad860f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:33 +0000
Subject: [PATCH 18/27] fix: kyle_lambda rejects returns whose shape differs
 from the volumes

---
 src/frds/measures/_kyle_lambda.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frds/measures/_kyle_lambda.py b/src/frds/measures/_kyle_lambda.py
index 016ce16..90e98e6 100644
--- a/src/frds/measures/_kyle_lambda.py
+++ b/src/frds/measures/_kyle_lambda.py
@@ -17,6 +17,7 @@ def kyle_lambda(returns: np.ndarray, signed_dollar_volume: np.ndarray) -> float:
     """
     y = np.asarray(returns)
     x = np.asarray(signed_dollar_volume)
+    assert y.shape == x.shape
     x = x[:, np.newaxis]
     a, _, _, _ = np.linalg.lstsq(x, y, rcond=None)
     return a[0] * 1_000_000
-- 
2.43.0


From 2bb12bbe2057c1b47468534162a3e11c207f46c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:07 +0000
Subject: [PATCH 19/27] fix: grow every isolation tree once, with its own
 random engine and slot

---
 .../isolation_forest/IsolationForest.cpp      | 27 ++++++++++---------
 .../isolation_forest/IsolationForest.hpp      |  9 ++++---
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index 576d94b..68b2473 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -18,7 +18,8 @@ void IsolationForest::growTree(std::vector<size_t> &sample,
     return;
   }
   // Here, randomly pick an attribute
-  auto attr = this->uniformDist(randomGen);
+  auto uniformDist = this->uniformDist;
+  auto attr = uniformDist(randomGen);
 
   std::vector<size_t> lobs, robs;
   lobs.reserve(nObs);
@@ -94,7 +95,7 @@ IsolationForest::IsolationForest(PyArrayObject *num_data,
       nObs(PyArray_DIM(num_data, 1)) {
   this->num_data = num_data;
   this->char_data = char_data;
-  this->trees.reserve(forestSize);
+  this->trees.resize(forestSize);
   this->anomalyScores.resize(this->nObs);
   // this->randomGen = std::mt19937_64(randomSeed);
   this->uniformDist =
@@ -145,9 +146,9 @@ double IsolationForest::pathLength(size_t const &ob,
   }
 }
 
-std::thread IsolationForest::grow(const unsigned int thread_id,
-                                  const unsigned int jobs) {
-  return std::thread([this, thread_id, jobs] {
+std::thread IsolationForest::grow(const size_t first_tree,
+                                  const size_t n_trees) {
+  return std::thread([this, first_tree, n_trees] {
     // Make a vector from 0 to (nObs-1) representing the indices of observations
     std::vector<size_t> obs(this->nObs);
     std::iota(obs.begin(), obs.end(), 0);
@@ -156,19 +157,19 @@ std::thread IsolationForest::grow(const unsigned int thread_id,
     auto random_offset =
         this->nObs %
         (this->randomSeed > 0 ? this->randomSeed : 1 - this->randomSeed);
-    for (size_t i = thread_id * jobs; i < thread_id * jobs + jobs; i++) {
+    for (size_t i = first_tree; i < first_tree + n_trees; i++) {
       // Sample `treeSize` observations without replacement
       // Random engine for the i-th sampling and tree construction
       // The samples chosen and tree grown is thus determined by the number of
       // trees and random seed only, unaffected by the worker threads used
-      static thread_local auto randomGen = std::mt19937_64(i + random_offset);
+      auto randomGen = std::mt19937_64(i + random_offset);
       std::sample(obs.begin(), obs.end(), std::back_inserter(sample),
                   this->treeSize, randomGen);
       auto tree = std::make_unique<IsolationTree>();
       growTree(sample, tree->root, 0, randomGen);
-      this->mylock.lock();
-      this->trees.push_back(std::move(tree));
-      this->mylock.unlock();
+      // no need to lock because each tree is grown by one thread and has its own
+      // slot
+      this->trees[i] = std::move(tree);
     }
   });
 };
@@ -180,11 +181,13 @@ void IsolationForest::grow() {
 
   Py_BEGIN_ALLOW_THREADS
 
-      for (size_t i = 0; i < this->workers; i++) {
+      size_t first_tree = 0;
+  for (size_t i = 0; i < this->workers; i++) {
     auto jobs =
         i == 0 ? this->forestSize - jobs_per_processor * (this->workers - 1)
                : jobs_per_processor;
-    auto t = this->grow(i, jobs);
+    auto t = this->grow(first_tree, jobs);
+    first_tree += jobs;
     ts.push_back(std::move(t));
   }
 
diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.hpp b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
index e7c2ffd..06826e7 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.hpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
@@ -2,8 +2,8 @@
 #define FRDS_ALGO_ISOLATION_FOREST_H
 
 #define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
+#include <algorithm>
 #include <memory>
-#include <mutex>
 #include <random>
 #include <thread>
 #include <vector>
@@ -50,9 +50,10 @@ class IsolationForest {
   std::uniform_int_distribution<size_t> uniformDist;
   const size_t treeSize, forestSize, randomSeed, maxTreeHeight;
   const size_t n_num_attrs, n_char_attrs, nObs;
-  const unsigned int workers = std::thread::hardware_concurrency();
+  // the number of cores is 0 when it is unknown
+  const unsigned int workers =
+      std::max(std::thread::hardware_concurrency(), 1u);
   std::vector<std::unique_ptr<IsolationTree>> trees;
-  std::mutex mylock;
 
   /* methods */
   inline double averagePathLength(size_t const &nObs);
@@ -61,7 +62,7 @@ class IsolationForest {
   void growTree(std::vector<size_t> &sample,
                 std::unique_ptr<IsolationTree::Node> &node, int const height,
                 std::mt19937_64 randomGen);
-  std::thread grow(const unsigned int thread_id, const unsigned int jobs);
+  std::thread grow(const size_t first_tree, const size_t n_trees);
   std::thread calAnomalyScores(const size_t &start_ob, const size_t &n);
   double anomalyScore(size_t const &ob);
 
-- 
2.43.0


From 074270a1a6ddbaae4ca101bf22782a04370d190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:03 +0000
Subject: [PATCH 20/27] fix: sample every isolation tree afresh

---
 src/frds/algorithms/isolation_forest/IsolationForest.cpp | 3 ++-
 src/frds/algorithms/isolation_forest/IsolationForest.hpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index 68b2473..9afd636 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -11,7 +11,7 @@
 
 void IsolationForest::growTree(std::vector<size_t> &sample,
                                std::unique_ptr<IsolationTree::Node> &node,
-                               int const height, std::mt19937_64 randomGen) {
+                               int const height, std::mt19937_64 &randomGen) {
   auto nObs = sample.size();
   if ((nObs <= 1) || (height >= this->maxTreeHeight)) {
     node = std::make_unique<IsolationTree::Node>(-1, NAN, nullptr, true, nObs);
@@ -163,6 +163,7 @@ std::thread IsolationForest::grow(const size_t first_tree,
       // The samples chosen and tree grown is thus determined by the number of
       // trees and random seed only, unaffected by the worker threads used
       auto randomGen = std::mt19937_64(i + random_offset);
+      sample.clear();
       std::sample(obs.begin(), obs.end(), std::back_inserter(sample),
                   this->treeSize, randomGen);
       auto tree = std::make_unique<IsolationTree>();
diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.hpp b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
index 06826e7..e22f393 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.hpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
@@ -61,7 +61,7 @@ class IsolationForest {
                     std::unique_ptr<IsolationTree::Node> &node, int length = 0);
   void growTree(std::vector<size_t> &sample,
                 std::unique_ptr<IsolationTree::Node> &node, int const height,
-                std::mt19937_64 randomGen);
+                std::mt19937_64 &randomGen);
   std::thread grow(const size_t first_tree, const size_t n_trees);
   std::thread calAnomalyScores(const size_t &start_ob, const size_t &n);
   double anomalyScore(size_t const &ob);
-- 
2.43.0


From f6a94668ff68fde951e39ab73271252c546aa02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:16 +0000
Subject: [PATCH 21/27] fix: route missing values and full-width strings alike
 when growing and scoring

---
 .../isolation_forest/IsolationForest.cpp      | 57 +++++++++----------
 1 file changed, 28 insertions(+), 29 deletions(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index 9afd636..cf3ce44 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <cstring>
 #include <iterator>
 #include <numeric>
 
@@ -9,6 +10,25 @@
 #define EULER_GAMMA 0.57721566490153286
 #endif
 
+// Whether an observation's number is sent to the left child of a node.
+// NAN is set to be "smaller" than any value
+static inline bool goesLeft(const DataType obsVal, const DataType splitVal) {
+  // If the split value is NAN, then obs with NAN are pushed left
+  if (std::isnan(splitVal)) return std::isnan(obsVal);
+  // Split value is not NAN, then obs with NAN or smaller are pushed left
+  return std::isnan(obsVal) || obsVal < splitVal;
+}
+
+// Whether an observation's string is sent to the left child of a node.
+// Strings are not terminated when they take the whole width of their array
+static inline bool goesLeft(const CharDataType obsVal,
+                            const CharDataType splitVal, const size_t width) {
+  const auto obsVal_len = strnlen(obsVal, width);
+  const auto splitVal_len = strnlen(splitVal, width);
+  if (obsVal_len != splitVal_len) return obsVal_len < splitVal_len;
+  return memcmp(obsVal, splitVal, obsVal_len) < 0;
+}
+
 void IsolationForest::growTree(std::vector<size_t> &sample,
                                std::unique_ptr<IsolationTree::Node> &node,
                                int const height, std::mt19937_64 &randomGen) {
@@ -33,21 +53,10 @@ void IsolationForest::growTree(std::vector<size_t> &sample,
                                                 sample[dist(randomGen)]);
     for (auto &i : sample) {
       auto obsVal = *(DataType *)PyArray_GETPTR2(this->num_data, attr, i);
-      // NAN is set to be "smaller" than any value
-      // If the split value is NAN, then obs with NAN are pushed left
-      if (isnan(val)) {
-        if (isnan(obsVal)) {
-          lobs.push_back(i);
-        } else {
-          robs.push_back(i);
-        }
-        // Split value is not NAN, then obs with NAN or smaller are pushed left
+      if (goesLeft(obsVal, val)) {
+        lobs.push_back(i);
       } else {
-        if ((isnan(obsVal)) || (obsVal < val)) {
-          lobs.push_back(i);
-        } else {
-          robs.push_back(i);
-        }
+        robs.push_back(i);
       }
     }
 
@@ -58,16 +67,11 @@ void IsolationForest::growTree(std::vector<size_t> &sample,
     // The datatype of the attribute is string
     CharDataType val = (CharDataType)PyArray_GETPTR2(
         this->char_data, attr - this->n_num_attrs, sample[dist(randomGen)]);
-    const auto val_len = strlen(val);
+    const size_t width = PyArray_ITEMSIZE(this->char_data);
     for (auto &i : sample) {
       auto obsVal = (CharDataType)PyArray_GETPTR2(this->char_data,
                                                   attr - this->n_num_attrs, i);
-      const auto obsVal_len = strlen(obsVal);
-      if (obsVal_len < val_len) {
-        lobs.push_back(i);
-      } else if (obsVal_len > val_len) {
-        robs.push_back(i);
-      } else if (strcmp(obsVal, val) < 0) {
+      if (goesLeft(obsVal, val, width)) {
         lobs.push_back(i);
       } else {
         robs.push_back(i);
@@ -124,7 +128,7 @@ double IsolationForest::pathLength(size_t const &ob,
   if (node->splitAttribute < this->n_num_attrs) {
     DataType val =
         *(DataType *)PyArray_GETPTR2(this->num_data, node->splitAttribute, ob);
-    if (val < node->splitValue) {
+    if (goesLeft(val, node->splitValue)) {
       return this->pathLength(ob, node->lnode, length + 1);
     } else {
       return this->pathLength(ob, node->rnode, length + 1);
@@ -132,13 +136,8 @@ double IsolationForest::pathLength(size_t const &ob,
   } else {
     CharDataType val = (CharDataType)PyArray_GETPTR2(
         this->char_data, node->splitAttribute - this->n_num_attrs, ob);
-    const auto val_len = strlen(val);
-    const auto splitVal_len = strlen(node->splitChar);
-    if (val_len < splitVal_len) {
-      return this->pathLength(ob, node->lnode, length + 1);
-    } else if (val_len > splitVal_len) {
-      return this->pathLength(ob, node->rnode, length + 1);
-    } else if (strcmp(val, node->splitChar) < 0) {
+    const size_t width = PyArray_ITEMSIZE(this->char_data);
+    if (goesLeft(val, node->splitChar, width)) {
       return this->pathLength(ob, node->lnode, length + 1);
     } else {
       return this->pathLength(ob, node->rnode, length + 1);
-- 
2.43.0


From 3d3e10a15dfbad29930f072e3844035193e31f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:10 +0000
Subject: [PATCH 22/27] fix: convert or reject the arguments of the compiled
 volatility kernels

---
 src/frds/algorithms/utils/utils_module.cpp | 259 +++++++++++++--------
 1 file changed, 163 insertions(+), 96 deletions(-)

diff --git a/src/frds/algorithms/utils/utils_module.cpp b/src/frds/algorithms/utils/utils_module.cpp
index dba85ae..862f105 100644
--- a/src/frds/algorithms/utils/utils_module.cpp
+++ b/src/frds/algorithms/utils/utils_module.cpp
@@ -13,40 +13,95 @@
 
 #include "numpy/arrayobject.h"
 
+#include <algorithm>
+#include <climits>
+#include <new>
+
+// A new reference to `obj` as a C-contiguous array of doubles with `ndim`
+// dimensions, NULL with an exception set if there is no such array
+static PyArrayObject *as_doubles(PyObject *obj, int ndim) {
+  return (PyArrayObject *)PyArray_FROMANY(obj, NPY_DOUBLE, ndim, ndim,
+                                          NPY_ARRAY_IN_ARRAY);
+}
+
+// Whether a series is neither empty nor too long, otherwise sets an exception
+static bool check_series(PyArrayObject *series) {
+  if (PyArray_DIM(series, 0) < 1 || PyArray_DIM(series, 0) > INT_MAX) {
+    PyErr_SetString(PyExc_ValueError, "Invalid array length");
+    return false;
+  }
+  return true;
+}
+
+// Whether there are `n` parameters, otherwise sets an exception
+static bool check_params(PyArrayObject *params, npy_intp n) {
+  if (PyArray_DIM(params, 0) != n) {
+    PyErr_SetString(PyExc_ValueError, "Invalid number of parameters");
+    return false;
+  }
+  return true;
+}
+
+// Whether there is a pair of bounds for each of the `T` observations, otherwise
+// sets an exception
+static bool check_bounds(PyArrayObject *var_bounds, npy_intp T) {
+  if (PyArray_DIM(var_bounds, 0) < T || PyArray_DIM(var_bounds, 1) != 2) {
+    PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
+    return false;
+  }
+  return true;
+}
+
 // The wrapper function to be called from Python
 static PyObject *ewma_wrapper(PyObject *self, PyObject *args) {
-  PyArrayObject *resids_in;
+  PyObject *resids_obj;
   double initial_value, lam;
 
   // Parse the input tuple
-  if (!PyArg_ParseTuple(args, "O!dd", &PyArray_Type, &resids_in, &initial_value,
-                        &lam)) {
+  if (!PyArg_ParseTuple(args, "Odd", &resids_obj, &initial_value, &lam)) {
     return NULL;
   }
 
-  // Construct the output array
-  int T = PyArray_DIM(resids_in, 0);
-  npy_intp dims[1] = {T};
-  PyObject *variance_out = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
-  if (variance_out == NULL) {
+  PyArrayObject *resids_in = as_doubles(resids_obj, 1);
+  if (resids_in == NULL) {
     return NULL;
   }
 
-  // Call the core EWMA function
-  ewma((double *)PyArray_DATA(resids_in),
-       (double *)PyArray_DATA((PyArrayObject *)variance_out), T, initial_value,
-       lam);
+  PyObject *variance_out = NULL;
+  if (check_series(resids_in)) {
+    // Construct the output array
+    int T = PyArray_DIM(resids_in, 0);
+    npy_intp dims[1] = {T};
+    variance_out = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
+    if (variance_out != NULL) {
+      // Call the core EWMA function
+      ewma((double *)PyArray_DATA(resids_in),
+           (double *)PyArray_DATA((PyArrayObject *)variance_out), T,
+           initial_value, lam);
+    }
+  }
 
+  Py_DECREF(resids_in);
   return variance_out;
 }
 
 // The wrapper function to be called from Python
 static PyObject *bounds_check_wrapper(PyObject *self, PyObject *args) {
   double sigma2;
-  PyArrayObject *var_bounds_in;
+  PyObject *var_bounds_obj;
 
   // Parse the input tuple
-  if (!PyArg_ParseTuple(args, "dO!", &sigma2, &PyArray_Type, &var_bounds_in)) {
+  if (!PyArg_ParseTuple(args, "dO", &sigma2, &var_bounds_obj)) {
+    return NULL;
+  }
+
+  PyArrayObject *var_bounds_in = as_doubles(var_bounds_obj, 1);
+  if (var_bounds_in == NULL) {
+    return NULL;
+  }
+  if (PyArray_DIM(var_bounds_in, 0) < 2) {
+    Py_DECREF(var_bounds_in);
+    PyErr_SetString(PyExc_ValueError, "Invalid array length");
     return NULL;
   }
 
@@ -54,6 +109,7 @@ static PyObject *bounds_check_wrapper(PyObject *self, PyObject *args) {
   double *bounds_ptr = (double *)PyArray_DATA(var_bounds_in);
   double lower = bounds_ptr[0];
   double upper = bounds_ptr[1];
+  Py_DECREF(var_bounds_in);
 
   // Call the core bounds_check function
   double result = bounds_check(sigma2, lower, upper);
@@ -64,120 +120,131 @@ static PyObject *bounds_check_wrapper(PyObject *self, PyObject *args) {
 // The wrapper function to be called from Python
 static PyObject *compute_garch_variance_wrapper(PyObject *self,
                                                 PyObject *args) {
-  PyObject *params_obj;
-  PyArrayObject *resids_in;
+  PyObject *params_obj, *resids_obj, *var_bounds_obj;
   double backcast;
-  PyArrayObject *var_bounds_in;
 
   // Parse the input tuple
-  if (!PyArg_ParseTuple(args, "OO!dO!", &params_obj, &PyArray_Type, &resids_in,
-                        &backcast, &PyArray_Type, &var_bounds_in)) {
+  if (!PyArg_ParseTuple(args, "OOdO", &params_obj, &resids_obj, &backcast,
+                        &var_bounds_obj)) {
     return NULL;
   }
 
-  // Check dimensions
-  if (PyArray_NDIM(resids_in) != 1 || PyArray_NDIM(var_bounds_in) != 2) {
-    PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
-    return NULL;
-  }
-
-  // Extract parameters
-  std::vector<double> params;
-  PyObject *iter = PyObject_GetIter(params_obj);
-  PyObject *item;
-  while ((item = PyIter_Next(iter))) {
-    params.push_back(PyFloat_AsDouble(item));
-    Py_DECREF(item);
+  PyArrayObject *params_in = NULL, *resids_in = NULL, *var_bounds_in = NULL;
+  PyObject *sigma2_out = NULL;
+
+  // Extract parameters, residuals and bounds, and check their dimensions
+  if ((params_in = as_doubles(params_obj, 1)) && check_params(params_in, 3) &&
+      (resids_in = as_doubles(resids_obj, 1)) && check_series(resids_in) &&
+      (var_bounds_in = as_doubles(var_bounds_obj, 2)) &&
+      check_bounds(var_bounds_in, PyArray_DIM(resids_in, 0))) {
+    double *params_ptr = (double *)PyArray_DATA(params_in);
+    std::vector<double> params(params_ptr, params_ptr + 3);
+
+    // Construct the output array
+    int T = PyArray_DIM(resids_in, 0);
+    npy_intp dims[1] = {T};
+    sigma2_out = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
+    if (sigma2_out != NULL) {
+      // Call the core compute_garch_variance function
+      compute_garch_variance(
+          (double *)PyArray_DATA((PyArrayObject *)sigma2_out),
+          (double *)PyArray_DATA(resids_in),
+          (double *)PyArray_DATA(var_bounds_in), T, params, backcast);
+    }
   }
-  Py_DECREF(iter);
-
-  // Construct the output array
-  int T = PyArray_DIM(resids_in, 0);
-  npy_intp dims[1] = {T};
-  PyObject *sigma2_out = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
-  if (sigma2_out == NULL) {
-    return NULL;
-  }
-
-  // Call the core compute_garch_variance function
-  compute_garch_variance((double *)PyArray_DATA((PyArrayObject *)sigma2_out),
-                         (double *)PyArray_DATA(resids_in),
-                         (double *)PyArray_DATA(var_bounds_in), T, params,
-                         backcast);
 
+  Py_XDECREF(params_in);
+  Py_XDECREF(resids_in);
+  Py_XDECREF(var_bounds_in);
   return sigma2_out;
 }
 
 // The wrapper function to be called from Python
 static PyObject *compute_gjrgarch_variance_wrapper(PyObject *self,
                                                    PyObject *args) {
-  PyObject *params_obj;
-  PyArrayObject *resids_in;
+  PyObject *params_obj, *resids_obj, *var_bounds_obj;
   double backcast;
-  PyArrayObject *var_bounds_in;
 
   // Parse the input tuple
-  if (!PyArg_ParseTuple(args, "OO!dO!", &params_obj, &PyArray_Type, &resids_in,
-                        &backcast, &PyArray_Type, &var_bounds_in)) {
-    return NULL;
-  }
-
-  // Check dimensions
-  if (PyArray_NDIM(resids_in) != 1 || PyArray_NDIM(var_bounds_in) != 2) {
-    PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
+  if (!PyArg_ParseTuple(args, "OOdO", &params_obj, &resids_obj, &backcast,
+                        &var_bounds_obj)) {
     return NULL;
   }
 
-  // Extract parameters
-  std::vector<double> params;
-  PyObject *iter = PyObject_GetIter(params_obj);
-  PyObject *item;
-  while ((item = PyIter_Next(iter))) {
-    params.push_back(PyFloat_AsDouble(item));
-    Py_DECREF(item);
-  }
-  Py_DECREF(iter);
-
-  // Construct the output array
-  int T = PyArray_DIM(resids_in, 0);
-  npy_intp dims[1] = {T};
-  PyObject *sigma2_out = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
-  if (sigma2_out == NULL) {
-    return NULL;
+  PyArrayObject *params_in = NULL, *resids_in = NULL, *var_bounds_in = NULL;
+  PyObject *sigma2_out = NULL;
+
+  // Extract parameters, residuals and bounds, and check their dimensions
+  if ((params_in = as_doubles(params_obj, 1)) && check_params(params_in, 4) &&
+      (resids_in = as_doubles(resids_obj, 1)) && check_series(resids_in) &&
+      (var_bounds_in = as_doubles(var_bounds_obj, 2)) &&
+      check_bounds(var_bounds_in, PyArray_DIM(resids_in, 0))) {
+    double *params_ptr = (double *)PyArray_DATA(params_in);
+    std::vector<double> params(params_ptr, params_ptr + 4);
+
+    // Construct the output array
+    int T = PyArray_DIM(resids_in, 0);
+    npy_intp dims[1] = {T};
+    sigma2_out = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
+    if (sigma2_out != NULL) {
+      // Call the core compute_gjrgarch_variance function
+      compute_gjrgarch_variance(
+          (double *)PyArray_DATA((PyArrayObject *)sigma2_out),
+          (double *)PyArray_DATA(resids_in),
+          (double *)PyArray_DATA(var_bounds_in), T, params, backcast);
+    }
   }
 
-  // Call the core compute_gjrgarch_variance function
-  compute_gjrgarch_variance((double *)PyArray_DATA((PyArrayObject *)sigma2_out),
-                            (double *)PyArray_DATA(resids_in),
-                            (double *)PyArray_DATA(var_bounds_in), T, params,
-                            backcast);
-
+  Py_XDECREF(params_in);
+  Py_XDECREF(resids_in);
+  Py_XDECREF(var_bounds_in);
   return sigma2_out;
 }
 
 static PyObject *dcc_conditional_correlations_wrapper(PyObject *self,
                                                       PyObject *args) {
   double a, b;
-  PyArrayObject *resids1;
-  PyArrayObject *resids2;
-  PyArrayObject *sigma2_1;
-  PyArrayObject *sigma2_2;
-
-  if (!PyArg_ParseTuple(args, "ddO!O!O!O!", &a, &b, &PyArray_Type, &resids1,
-                        &PyArray_Type, &resids2, &PyArray_Type, &sigma2_1,
-                        &PyArray_Type, &sigma2_2)) {
+  PyObject *resids1_obj, *resids2_obj, *sigma2_1_obj, *sigma2_2_obj;
+
+  if (!PyArg_ParseTuple(args, "ddOOOO", &a, &b, &resids1_obj, &resids2_obj,
+                        &sigma2_1_obj, &sigma2_2_obj)) {
     return NULL;
   }
 
-  std::vector<double> rho =
-      DCC::conditional_correlations(a, b, resids1, resids2, sigma2_1, sigma2_2);
-
-  npy_intp dims[1] = {static_cast<npy_intp>(rho.size())};
-  PyArrayObject *py_rho =
-      (PyArrayObject *)PyArray_SimpleNew(1, dims, NPY_DOUBLE);
-  std::copy(rho.begin(), rho.end(), (double *)PyArray_DATA(py_rho));
+  PyArrayObject *resids1 = NULL, *resids2 = NULL;
+  PyArrayObject *sigma2_1 = NULL, *sigma2_2 = NULL;
+  PyObject *py_rho = NULL;
+
+  if ((resids1 = as_doubles(resids1_obj, 1)) && check_series(resids1) &&
+      (resids2 = as_doubles(resids2_obj, 1)) &&
+      (sigma2_1 = as_doubles(sigma2_1_obj, 1)) &&
+      (sigma2_2 = as_doubles(sigma2_2_obj, 1))) {
+    npy_intp dims[1] = {PyArray_DIM(resids1, 0)};
+    if (PyArray_DIM(resids2, 0) != dims[0] ||
+        PyArray_DIM(sigma2_1, 0) != dims[0] ||
+        PyArray_DIM(sigma2_2, 0) != dims[0]) {
+      PyErr_SetString(PyExc_ValueError, "Arrays must have the same length");
+    } else {
+      try {
+        std::vector<double> rho = DCC::conditional_correlations(
+            a, b, resids1, resids2, sigma2_1, sigma2_2);
+
+        py_rho = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
+        if (py_rho != NULL) {
+          std::copy(rho.begin(), rho.end(),
+                    (double *)PyArray_DATA((PyArrayObject *)py_rho));
+        }
+      } catch (const std::bad_alloc &) {
+        PyErr_NoMemory();
+      }
+    }
+  }
 
-  return (PyObject *)py_rho;
+  Py_XDECREF(resids1);
+  Py_XDECREF(resids2);
+  Py_XDECREF(sigma2_1);
+  Py_XDECREF(sigma2_2);
+  return py_rho;
 }
 
 // Method table
-- 
2.43.0


From 198b5409d3103e9e6b2dd55ae29efef12879ab20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:15 +0000
Subject: [PATCH 23/27] fix: convert or reject the arguments of the compiled
 LRMES simulation

---
 src/frds/measures/measures_module.cpp | 51 +++++++++++++++++++++------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/src/frds/measures/measures_module.cpp b/src/frds/measures/measures_module.cpp
index 6356f96..9d9503e 100644
--- a/src/frds/measures/measures_module.cpp
+++ b/src/frds/measures/measures_module.cpp
@@ -11,6 +11,9 @@
 
 #include "numpy/arrayobject.h"
 
+#include <climits>
+#include <new>
+
 // Forward declaration of the LRMES simulation function
 std::tuple<double, bool>
 simulation(PyArrayObject *innovation, double C, double firm_var, double mkt_var,
@@ -20,28 +23,54 @@ simulation(PyArrayObject *innovation, double C, double firm_var, double mkt_var,
            double alpha_m, double gamma_m, double beta_m);
 
 static PyObject *lrmes_simulation_wrapper(PyObject *self, PyObject *args) {
-  PyArrayObject *innovation;
+  PyObject *innovation_obj, *Q_bar_obj;
   double C, firm_var, mkt_var, firm_resid, mkt_resid, a, b, rho;
-  PyArrayObject *Q_bar;
   double mu_i, omega_i, alpha_i, gamma_i, beta_i;
   double mu_m, omega_m, alpha_m, gamma_m, beta_m;
 
-  if (!PyArg_ParseTuple(args, "OddddddddOdddddddddd", &innovation, &C,
+  if (!PyArg_ParseTuple(args, "OddddddddOdddddddddd", &innovation_obj, &C,
                         &firm_var, &mkt_var, &firm_resid, &mkt_resid, &a, &b,
-                        &rho, &Q_bar, &mu_i, &omega_i, &alpha_i, &gamma_i,
+                        &rho, &Q_bar_obj, &mu_i, &omega_i, &alpha_i, &gamma_i,
                         &beta_i, &mu_m, &omega_m, &alpha_m, &gamma_m,
                         &beta_m)) {
     return NULL;
   }
 
-  double firmret;
-  bool systemic_event;
-  std::tie(firmret, systemic_event) =
-      simulation(innovation, C, firm_var, mkt_var, firm_resid, mkt_resid, a, b,
-                 rho, Q_bar, mu_i, omega_i, alpha_i, gamma_i, beta_i, mu_m,
-                 omega_m, alpha_m, gamma_m, beta_m);
+  // Both arguments as two-dimensional arrays of doubles
+  PyArrayObject *innovation = (PyArrayObject *)PyArray_FROMANY(
+      innovation_obj, NPY_DOUBLE, 2, 2, NPY_ARRAY_IN_ARRAY);
+  if (innovation == NULL) {
+    return NULL;
+  }
+  PyArrayObject *Q_bar = (PyArrayObject *)PyArray_FROMANY(
+      Q_bar_obj, NPY_DOUBLE, 2, 2, NPY_ARRAY_IN_ARRAY);
+  if (Q_bar == NULL) {
+    Py_DECREF(innovation);
+    return NULL;
+  }
+
+  PyObject *result = NULL;
+  if (PyArray_DIM(innovation, 0) > INT_MAX || PyArray_DIM(innovation, 1) < 2 ||
+      PyArray_DIM(Q_bar, 0) < 2 || PyArray_DIM(Q_bar, 1) < 2) {
+    PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");
+  } else {
+    try {
+      double firmret;
+      bool systemic_event;
+      std::tie(firmret, systemic_event) =
+          simulation(innovation, C, firm_var, mkt_var, firm_resid, mkt_resid, a,
+                     b, rho, Q_bar, mu_i, omega_i, alpha_i, gamma_i, beta_i,
+                     mu_m, omega_m, alpha_m, gamma_m, beta_m);
+
+      result = Py_BuildValue("db", firmret, systemic_event);
+    } catch (const std::bad_alloc &) {
+      PyErr_NoMemory();
+    }
+  }
 
-  return Py_BuildValue("db", firmret, systemic_event);
+  Py_DECREF(innovation);
+  Py_DECREF(Q_bar);
+  return result;
 }
 
 // Method table
-- 
2.43.0


From 3239dccae3f597d35e5b73549a6e38bf1301f588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:39 +0000
Subject: [PATCH 24/27] fix: check the arguments of the compiled isolation
 forest and let no exception escape its threads

---
 .../isolation_forest/IsolationForest.cpp      | 36 ++++++++-
 .../isolation_forest/IsolationForest.hpp      |  9 +++
 .../isolation_forest/iforest_module.cpp       | 73 ++++++++++++++-----
 3 files changed, 96 insertions(+), 22 deletions(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index cf3ce44..dac309f 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -145,9 +145,37 @@ double IsolationForest::pathLength(size_t const &ob,
   }
 }
 
+// Keep the exception being handled, which is rethrown once all threads ended
+void IsolationForest::keepError() {
+  std::lock_guard<std::mutex> lock(this->errorMutex);
+  if (!this->error) this->error = std::current_exception();
+}
+
+void IsolationForest::rethrowError() {
+  if (this->error) std::rethrow_exception(this->error);
+}
+
+// Run a job in a new thread. No exception leaves the thread, which can neither
+// be left unjoined should another one fail to start
+template <typename Job>
+std::thread IsolationForest::start(Job job) {
+  try {
+    return std::thread([this, job] {
+      try {
+        job();
+      } catch (...) {
+        this->keepError();
+      }
+    });
+  } catch (...) {
+    this->keepError();
+    return std::thread();
+  }
+}
+
 std::thread IsolationForest::grow(const size_t first_tree,
                                   const size_t n_trees) {
-  return std::thread([this, first_tree, n_trees] {
+  return this->start([this, first_tree, n_trees] {
     // Make a vector from 0 to (nObs-1) representing the indices of observations
     std::vector<size_t> obs(this->nObs);
     std::iota(obs.begin(), obs.end(), 0);
@@ -195,11 +223,13 @@ void IsolationForest::grow() {
     if (t.joinable()) t.join();
   }
   Py_END_ALLOW_THREADS
+
+      this->rethrowError();
 }
 
 std::thread IsolationForest::calAnomalyScores(const size_t &start_ob,
                                               const size_t &n) {
-  return std::thread([this, start_ob, n] {
+  return this->start([this, start_ob, n] {
     for (size_t i = start_ob; i < start_ob + n; i++) {
       // no need to lock because the A-score of an observation is calculated in
       // one thread
@@ -231,4 +261,6 @@ void IsolationForest::calculateAnomalyScores() {
     if (t.joinable()) t.join();
   }
   Py_END_ALLOW_THREADS
+
+      this->rethrowError();
 }
\ No newline at end of file
diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.hpp b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
index e22f393..71364c7 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.hpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
@@ -3,7 +3,9 @@
 
 #define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
 #include <algorithm>
+#include <exception>
 #include <memory>
+#include <mutex>
 #include <random>
 #include <thread>
 #include <vector>
@@ -54,8 +56,15 @@ class IsolationForest {
   const unsigned int workers =
       std::max(std::thread::hardware_concurrency(), 1u);
   std::vector<std::unique_ptr<IsolationTree>> trees;
+  // the first exception thrown by a worker thread, if any
+  std::exception_ptr error;
+  std::mutex errorMutex;
 
   /* methods */
+  void keepError();
+  void rethrowError();
+  template <typename Job>
+  std::thread start(Job job);
   inline double averagePathLength(size_t const &nObs);
   double pathLength(size_t const &ob,
                     std::unique_ptr<IsolationTree::Node> &node, int length = 0);
diff --git a/src/frds/algorithms/isolation_forest/iforest_module.cpp b/src/frds/algorithms/isolation_forest/iforest_module.cpp
index a044a4a..1b60b58 100644
--- a/src/frds/algorithms/isolation_forest/iforest_module.cpp
+++ b/src/frds/algorithms/isolation_forest/iforest_module.cpp
@@ -11,6 +11,9 @@
 
 #include "numpy/arrayobject.h"
 
+#include <exception>
+#include <new>
+
 static PyObject *iforest_wrapper(PyObject *self, PyObject *args) {
   PyObject *num_data = NULL, *char_data = NULL, *out = NULL;
   PyArrayObject *num_arr = NULL, *char_arr = NULL, *outArr = NULL;
@@ -19,45 +22,75 @@ static PyObject *iforest_wrapper(PyObject *self, PyObject *args) {
                         &forestSize, &treeSize, &randomSeed))
     return NULL;
 
-  num_arr = (PyArrayObject *)PyArray_FROM_OTF(num_data, NPY_DOUBLE,
-                                              NPY_ARRAY_IN_ARRAY);
+  if (forestSize < 1 || treeSize < 1) {
+    PyErr_SetString(PyExc_ValueError, "Invalid forest or tree size");
+    return NULL;
+  }
+
+  num_arr = (PyArrayObject *)PyArray_FROMANY(num_data, NPY_DOUBLE, 2, 2,
+                                             NPY_ARRAY_IN_ARRAY);
   if (num_arr == NULL) return NULL;
-  char_arr = (PyArrayObject *)PyArray_FROM_OTF(char_data, NPY_STRING,
-                                               NPY_ARRAY_IN_ARRAY);
-  if (char_arr == NULL) return NULL;
+  char_arr = (PyArrayObject *)PyArray_FROMANY(char_data, NPY_STRING, 2, 2,
+                                              NPY_ARRAY_IN_ARRAY);
+  if (char_arr == NULL) {
+    Py_DECREF(num_arr);
+    return NULL;
+  }
 
 #if NPY_API_VERSION >= 0x0000000c
-  outArr = (PyArrayObject *)PyArray_FROM_OTF(out, NPY_DOUBLE,
-                                             NPY_ARRAY_INOUT_ARRAY2);
+  outArr = (PyArrayObject *)PyArray_FROMANY(out, NPY_DOUBLE, 1, 1,
+                                            NPY_ARRAY_INOUT_ARRAY2);
 #else
-  outArr =
-      (PyArrayObject *)PyArray_FROM_OTF(out, NPY_DOUBLE, NPY_ARRAY_INOUT_ARRAY);
+  outArr = (PyArrayObject *)PyArray_FROMANY(out, NPY_DOUBLE, 1, 1,
+                                            NPY_ARRAY_INOUT_ARRAY);
 #endif
   if (outArr == NULL) {
-    Py_XDECREF(num_arr);
-    Py_XDECREF(char_arr);
-    Py_XDECREF(outArr);
+    Py_DECREF(num_arr);
+    Py_DECREF(char_arr);
     return NULL;
   }
 
   // number of obervations
   auto nObs = PyArray_DIM(num_arr, 1);
 
-  auto iforest =
-      IsolationForest(num_arr, char_arr, treeSize, forestSize, randomSeed);
+  bool success = false;
+  if (PyArray_DIM(char_arr, 1) != nObs || PyArray_DIM(outArr, 0) != nObs) {
+    PyErr_SetString(PyExc_ValueError,
+                    "Arrays must have the same number of observations");
+  } else if (PyArray_DIM(num_arr, 0) + PyArray_DIM(char_arr, 0) < 1) {
+    PyErr_SetString(PyExc_ValueError, "At least one attribute is required");
+  } else {
+    try {
+      IsolationForest iforest(num_arr, char_arr, treeSize, forestSize,
+                              randomSeed);
 
-  iforest.grow();
-  iforest.calculateAnomalyScores();
+      iforest.grow();
+      iforest.calculateAnomalyScores();
 
-  // write the ascores to the output array
-  for (npy_intp i = 0; i < nObs; i++) {
-    PyArray_SETITEM(outArr, (char *)PyArray_GETPTR1(outArr, i),
-                    PyFloat_FromDouble(iforest.anomalyScores[i]));
+      // write the ascores to the output array
+      for (npy_intp i = 0; i < nObs; i++) {
+        *(double *)PyArray_GETPTR1(outArr, i) = iforest.anomalyScores[i];
+      }
+      success = true;
+    } catch (const std::bad_alloc &) {
+      PyErr_NoMemory();
+    } catch (const std::exception &e) {
+      PyErr_SetString(PyExc_RuntimeError, e.what());
+    }
   }
 
   Py_DECREF(num_arr);
   Py_DECREF(char_arr);
+#if NPY_API_VERSION >= 0x0000000c
+  // copy the scores to `out` if `outArr` is a temporary copy of it
+  if (!success) {
+    PyArray_DiscardWritebackIfCopy(outArr);
+  } else if (PyArray_ResolveWritebackIfCopy(outArr) < 0) {
+    success = false;
+  }
+#endif
   Py_DECREF(outArr);
+  if (!success) return NULL;
 
   Py_INCREF(Py_None);
   return Py_None;
-- 
2.43.0


From 37d4618df6309cef036f43570c6b4610e10905a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:10 +0000
Subject: [PATCH 25/27] fix: reject series too long for the kernels' int
 indices

---
 src/frds/algorithms/utils/utils_module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/algorithms/utils/utils_module.cpp b/src/frds/algorithms/utils/utils_module.cpp
index 862f105..7f3a308 100644
--- a/src/frds/algorithms/utils/utils_module.cpp
+++ b/src/frds/algorithms/utils/utils_module.cpp
@@ -26,7 +26,7 @@ static PyArrayObject *as_doubles(PyObject *obj, int ndim) {
 
 // Whether a series is neither empty nor too long, otherwise sets an exception
 static bool check_series(PyArrayObject *series) {
-  if (PyArray_DIM(series, 0) < 1 || PyArray_DIM(series, 0) > INT_MAX) {
+  if (PyArray_DIM(series, 0) < 1 || PyArray_DIM(series, 0) > INT_MAX / 2) {
     PyErr_SetString(PyExc_ValueError, "Invalid array length");
     return false;
   }
-- 
2.43.0


From 052ec2e7515caa532f692a1ab444cbc8e1b91291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:26 +0000
Subject: [PATCH 26/27] fix: isolation forests use columns of the pandas string
 dtype

---
 src/frds/algorithms/isolation_forest/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/algorithms/isolation_forest/__init__.py b/src/frds/algorithms/isolation_forest/__init__.py
index 17e3d9b..c471d6d 100644
--- a/src/frds/algorithms/isolation_forest/__init__.py
+++ b/src/frds/algorithms/isolation_forest/__init__.py
@@ -31,7 +31,7 @@ def anomaly_scores(
     data = data.drop(columns=exclude_cols)
     obs = data.index
     # We need to differentiate numeric columns and character ones
-    char_data = data.select_dtypes(include=[object]).to_numpy(dtype=np.string_).T
+    char_data = data.select_dtypes(include=[object, "string"]).to_numpy(dtype=np.string_).T
     # convert input dataset from an indexed `pd.DataFrame` to a `np.ndarray`
     num_data = data.select_dtypes(include=[np.number]).to_numpy(dtype=np.double).T
     _, n_obs = num_data.shape
-- 
2.43.0


From 9f6bf572b643603dd6d7b9ce9cff3f55af433392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:47 +0000
Subject: [PATCH 27/27] fix: give _garch.py its CRLF line endings back

An earlier fix rewrote them; apart from the fixes themselves the file is
again as it was.
---
 src/frds/algorithms/_garch.py | 1086 ++++++++++++++++-----------------
 1 file changed, 543 insertions(+), 543 deletions(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index eac1c62..f526921 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -1,543 +1,543 @@
-import warnings
-import itertools
-from typing import List
-from dataclasses import dataclass
-import numpy as np
-from scipy.optimize import minimize, OptimizeResult
-
-USE_CPP_EXTENSION = True
-try:
-    import frds.algorithms.utils.utils_ext as ext
-except ImportError:
-    USE_CPP_EXTENSION = False
-
-
-class GARCHModel:
-    """:doc:`/algorithms/garch` model with constant mean and Normal noise
-
-    It estimates the model parameters only. No standard errors calculated.
-
-    This code is heavily based on the `arch <https://arch.readthedocs.io/>`_.
-    Modifications are made for easier understaing of the code flow.
-    """
-
-    @dataclass
-    class Parameters:
-        mu: float = np.nan
-        omega: float = np.nan
-        alpha: float = np.nan
-        beta: float = np.nan
-        loglikelihood: float = np.nan
-
-    def __init__(self, returns: np.ndarray, zero_mean=False) -> None:
-        """__init__
-
-        Args:
-            returns (np.ndarray): ``(T,)`` array of ``T`` returns
-            zero_mean (bool): whether to use a zero mean returns model. Default to False.
-
-        .. note:: ``returns`` is best to be percentage returns for optimization
-        """
-        self.returns = np.asarray(returns, dtype=np.float64)
-        self.estimation_success = False
-        self.loglikelihood_final = np.nan
-        self.parameters = type(self).Parameters()
-        self.resids = np.empty_like(self.returns)
-        self.sigma2 = np.empty_like(self.returns)
-        self.backcast_value = np.nan
-        self.var_bounds: np.ndarray = None
-        self.zero_mean = zero_mean
-
-    def fit(self) -> Parameters:
-        """Estimates the GARCH(1,1) parameters via MLE
-
-        Returns:
-            params: :class:`frds.algorithms.GARCHModel.Parameters`
-        """
-        # No repeated estimation?
-        if self.estimation_success:
-            return self.parameters
-
-        starting_vals = self.preparation()
-
-        # Set bounds for parameters
-        bounds = [
-            (-np.inf, np.inf),  # No bounds for mu
-            (1e-6, np.inf),  # Lower bound for omega
-            (0.0, 1.0),  # Bounds for alpha
-            (0.0, 1.0),  # Boudns for beta
-        ]
-        if self.zero_mean:
-            bounds = bounds[1:]
-
-        # Set constraint for stationarity
-        def persistence_smaller_than_one(params: List[float]):
-            alpha, beta = params[-2:]
-            return 1.0 - (alpha + beta)
-
-        # MLE via minimizing the negative log-likelihood
-        # fmt: off
-        with warnings.catch_warnings():
-            warnings.filterwarnings(
-                "ignore",
-                "Values in x were outside bounds during a minimize step",
-                RuntimeWarning,
-            )
-            opt: OptimizeResult = minimize(
-                self.loglikelihood_model,
-                starting_vals,
-                args=(self.backcast_value, self.var_bounds, self.zero_mean),
-                method="SLSQP",
-                bounds=bounds,
-                constraints={"type": "ineq", "fun": persistence_smaller_than_one},
-            )
-            if opt.success:
-                self.estimation_success = True
-                if self.zero_mean:
-                    self.parameters = type(self).Parameters(0.0, *list(opt.x), loglikelihood=-opt.fun)
-                else:
-                    self.parameters = type(self).Parameters(*list(opt.x), loglikelihood=-opt.fun)
-                self.resids = self.returns - self.parameters.mu
-                self.sigma2 = self.compute_variance(
-                    opt.x if self.zero_mean else opt.x[1:],
-                    self.resids,
-                    self.backcast_value,
-                    self.var_bounds,
-                )
-
-        return self.parameters
-
-    def preparation(self) -> List[float]:
-        """Prepare starting values.
-
-        Returns:
-            List[float]: list of starting values
-        """
-        # Compute a starting value for volatility process by backcasting
-        if self.zero_mean:
-            resids = self.returns
-        else:
-            resids = self.returns - np.mean(self.returns)
-        self.backcast_value = self.backcast(resids)
-        # Compute a loose bound for the volatility process
-        # This is to avoid NaN in MLE by avoiding zero/negative variance,
-        # as well as unreasonably large variance.
-        self.var_bounds = self.variance_bounds(resids)
-        # Compute the starting values for MLE
-        # Starting values for the volatility process
-        var_params = self.starting_values(resids)
-        # Starting value for mu is the sample mean return
-        initial_mu = self.returns.mean()
-        # Starting values are [mu, omega, alpha, beta]
-        starting_vals = [initial_mu, *var_params]
-
-        return starting_vals if not self.zero_mean else var_params
-
-    def loglikelihood_model(
-        self,
-        params: np.ndarray,
-        backcast: float,
-        var_bounds: np.ndarray,
-        zero_mean=False,
-    ) -> float:
-        """Calculates the negative log-likelihood based on the current ``params``.
-        This function is used in optimization.
-
-        Args:
-            params (np.ndarray): [mu, omega, alpha, (gamma), beta]
-            backcast (float): backcast value
-            var_bounds (np.ndarray): variance bounds
-
-        Returns:
-            float: negative log-likelihood
-        """
-        if zero_mean:
-            resids = self.returns
-            self.sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
-        else:
-            resids = self.returns - params[0]  # params[0] is mu
-            self.sigma2 = self.compute_variance(
-                params[1:], resids, backcast, var_bounds
-            )
-        return -self.loglikelihood(resids, self.sigma2)
-
-    @staticmethod
-    def loglikelihood(resids: np.ndarray, sigma2: np.ndarray) -> float:
-        """Computes the log-likelihood assuming residuals are
-        normally distributed conditional on the variance.
-
-        Args:
-            resids (np.ndarray): residuals to use in computing log-likelihood.
-            sigma2 (np.ndarray): conditional variance of residuals.
-
-        Returns:
-            float: log-likelihood
-        """
-        l = -0.5 * (np.log(2 * np.pi) + np.log(sigma2) + resids**2.0 / sigma2)
-        return np.sum(l)
-
-    @staticmethod
-    def compute_variance(
-        params: List[float],
-        resids: np.ndarray,
-        backcast: float,
-        var_bounds: np.ndarray,
-    ) -> np.ndarray:
-        """Computes the variances conditional on given parameters
-
-        Args:
-            params (List[float]): [omega, alpha, beta]
-            resids (np.ndarray): residuals from mean equation
-            backcast (float): backcast value
-            var_bounds (np.ndarray): variance bounds
-
-        Returns:
-            np.ndarray: conditional variance
-        """
-        if USE_CPP_EXTENSION:
-            return ext.compute_garch_variance(params, resids, backcast, var_bounds)
-        omega, alpha, beta = params
-        sigma2 = np.zeros_like(resids)
-        sigma2[0] = omega + (alpha + beta) * backcast
-        for t in range(1, len(resids)):
-            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
-            sigma2[t] = GARCHModel.bounds_check(sigma2[t], var_bounds[t])
-        return sigma2
-
-    def starting_values(self, resids: np.ndarray) -> List[float]:
-        """Finds the optimal initial values for the volatility model via a grid
-        search. For varying target persistence and alpha values, return the
-        combination of alpha and beta that gives the highest loglikelihood.
-
-        Args:
-            resids (np.ndarray): residuals from the mean model
-
-        Returns:
-            List[float]: [omega, alpha, beta]
-        """
-        # Candidate target persistence - we don't have a prior knowledge here
-        persistence_grid = [0.5, 0.7, 0.9, 0.98]
-        # Candidate alpha values
-        alpha_grid = [0.01, 0.05, 0.1, 0.2]
-        # Sample variance
-        var = self.returns.var()
-        # Backcast initial value for the volaility process
-        initial_params = []
-        max_likelihood = -np.inf
-        for alpha, p in itertools.product(*[alpha_grid, persistence_grid]):
-            # Note that (alpha+beta) is the "persistence"
-            beta = p - alpha
-            # Note that the unconditional variance is omega/(1-persistence).
-            # As we are guessing the initial value, we use the sample variance
-            # as the unconditional variance to guess the omega value.
-            omega = var * (1 - p)
-            params = [omega, alpha, beta]
-            sigma2 = self.compute_variance(
-                params, resids, self.backcast_value, self.var_bounds
-            )
-            likelihood = self.loglikelihood(resids, sigma2)
-            if likelihood > max_likelihood:
-                max_likelihood = likelihood
-                initial_params = params
-        return initial_params
-
-    @staticmethod
-    def variance_bounds(resids: np.ndarray) -> np.ndarray:
-        """Compute bounds for conditional variances using EWMA.
-
-        This function calculates the lower and upper bounds for conditional variances
-        based on the residuals provided. The bounds are computed to ensure numerical
-        stability during the parameter estimation process of GARCH models. The function
-        uses Exponentially Weighted Moving Average (EWMA) to estimate the initial variance
-        and then adjusts these estimates to lie within global bounds.
-
-        Args:
-            resids (np.ndarray): residuals from the mean model.
-
-        Returns:
-            np.ndarray: an array where each row contains the lower and upper bounds for the conditional variance at each time point.
-        """
-
-        T = len(resids)
-        tau = min(75, T)
-        # Compute initial variance using EWMA
-        decay_factor = 0.94
-        weights = decay_factor ** np.arange(tau)
-        weights /= weights.sum()
-        initial_variance = np.dot(weights, resids[:tau] ** 2)
-        # Compute var_bound using EWMA (assuming ewma_recursion is defined)
-        var_bound = GARCHModel.ewma(resids, initial_variance)
-        # Compute global bounds
-        global_lower_bound = resids.var() / 1e8
-        global_upper_bound = 1e7 * (1 + (resids**2).max())
-        # Adjust var_bound to ensure it lies within global bounds
-        var_bound = np.clip(var_bound, global_lower_bound, global_upper_bound)
-        # Create bounds matrix
-        var_bounds = np.vstack((var_bound / 1e6, var_bound * 1e6)).T
-
-        return np.ascontiguousarray(var_bounds)
-
-    @staticmethod
-    def bounds_check(sigma2: float, var_bounds: np.ndarray) -> float:
-        """Adjust the conditional variance at time t based on its bounds
-
-        Args:
-            sigma2 (float): conditional variance
-            var_bounds (np.ndarray): lower and upper bounds
-
-        Returns:
-            float: adjusted conditional variance
-        """
-        if USE_CPP_EXTENSION:
-            return ext.bounds_check(sigma2, var_bounds)
-        lower, upper = var_bounds[0], var_bounds[1]
-        sigma2 = max(lower, sigma2)
-        if sigma2 > upper:
-            if not np.isinf(sigma2):
-                sigma2 = upper + np.log(sigma2 / upper)
-            else:
-                sigma2 = upper + 1000
-        return sigma2
-
-    @staticmethod
-    def backcast(resids: np.ndarray) -> float:
-        """Computes the starting value for estimating conditional variance.
-
-        Args:
-            resids (np.ndarray): residuals
-
-        Returns:
-            float: initial value from backcasting
-        """
-        # Limit to first tau observations to reduce computation
-        tau = min(75, resids.shape[0])
-        # Weights for Exponential Weighted Moving Average (EWMA)
-        w = 0.94 ** np.arange(tau)
-        w = w / sum(w)  # Ensure weights add up to 1
-        # Let the initial value to be the EWMA of first tau observations
-        return float(np.sum((resids[:tau] ** 2) * w))
-
-    @staticmethod
-    def ewma(resids: np.ndarray, initial_value: float, lam=0.94) -> np.ndarray:
-        """Compute the conditional variance estimates using
-        Exponentially Weighted Moving Average (EWMA).
-
-        Args:
-            resids (np.ndarray): Residuals from the model.
-            initial_value (float): Initial value for the conditional variance.
-            lam (float): Decay factor for the EWMA.
-
-        Returns:
-            np.ndarray: Array containing the conditional variance estimates.
-        """
-        if USE_CPP_EXTENSION:
-            return ext.ewma(resids, initial_value, lam)
-        T = len(resids)
-        variance = np.empty(T)
-        variance[0] = initial_value  # Set the initial value
-        # Compute the squared residuals
-        squared_resids = resids**2
-        # Compute the EWMA using the decay factors and squared residuals
-        for t in range(1, T):
-            variance[t] = lam * variance[t - 1] + (1 - lam) * squared_resids[t - 1]
-        return variance
-
-
-class GJRGARCHModel(GARCHModel):
-    """:doc:`/algorithms/gjr-garch` model with constant mean and Normal noise
-
-    It estimates the model parameters only. No standard errors calculated.
-
-    This code is heavily based on the `arch <https://arch.readthedocs.io/>`_.
-    Modifications are made for easier understaing of the code flow.
-    """
-
-    @dataclass
-    class Parameters:
-        mu: float = np.nan
-        omega: float = np.nan
-        alpha: float = np.nan
-        gamma: float = np.nan
-        beta: float = np.nan
-        loglikelihood: float = np.nan
-
-    def fit(self) -> Parameters:
-        """Estimates the GJR-GARCH(1,1) parameters via MLE
-
-        Returns:
-            List[float]: [mu, omega, alpha, gamma, beta, loglikelihood]
-        """
-        # No repeated estimation?
-        if self.estimation_success:
-            return self.parameters
-
-        starting_vals = self.preparation()
-
-        bounds = [
-            (-np.inf, np.inf),  # No bounds for mu
-            (1e-6, np.inf),  # Lower bound for omega
-            (1e-6, 1.0),  # Bounds for alpha
-            (1e-6, 1.0),  # Bounds for gamma
-            (1e-6, 1.0),  # Boudns for beta
-        ]
-        if self.zero_mean:
-            bounds = bounds[1:]
-
-        # Set constraint for stationarity
-        def persistence_smaller_than_one(params: List[float]):
-            alpha, gamma, beta = params[-3:]
-            return 1.0 - (alpha + beta + gamma / 2)
-
-        # MLE via minimizing the negative log-likelihood
-        with warnings.catch_warnings():
-            warnings.filterwarnings(
-                "ignore",
-                "Values in x were outside bounds during a minimize step",
-                RuntimeWarning,
-            )
-            opt: OptimizeResult = minimize(
-                self.loglikelihood_model,
-                starting_vals,
-                args=(self.backcast_value, self.var_bounds, self.zero_mean),
-                method="SLSQP",
-                bounds=bounds,
-                constraints={"type": "ineq", "fun": persistence_smaller_than_one},
-            )
-            if opt.success:
-                self.estimation_success = True
-                if self.zero_mean:
-                    self.parameters = type(self).Parameters(
-                        0.0, *list(opt.x), loglikelihood=-opt.fun
-                    )
-                else:
-                    self.parameters = type(self).Parameters(
-                        *list(opt.x), loglikelihood=-opt.fun
-                    )
-                self.resids = self.returns - self.parameters.mu
-                self.sigma2 = self.compute_variance(
-                    opt.x if self.zero_mean else opt.x[1:],
-                    self.resids,
-                    self.backcast_value,
-                    self.var_bounds,
-                )
-
-        return self.parameters
-
-    @staticmethod
-    def compute_variance(
-        params: List[float],
-        resids: np.ndarray,
-        backcast: float,
-        var_bounds: np.ndarray,
-    ) -> np.ndarray:
-        """Computes the variances conditional on given parameters
-
-        Args:
-            params (List[float]): [omega, alpha, gamma, beta]
-            resids (np.ndarray): residuals from mean equation
-            backcast (float): backcast value
-            var_bounds (np.ndarray): variance bounds
-
-        Returns:
-            np.ndarray: conditional variance
-        """
-        if USE_CPP_EXTENSION:
-            return ext.compute_gjrgarch_variance(params, resids, backcast, var_bounds)
-        # fmt: off
-        omega, alpha, gamma, beta = params
-        sigma2 = np.zeros_like(resids)
-        sigma2[0] = omega + (alpha + gamma/2 + beta) * backcast
-        for t in range(1, len(resids)):
-            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
-            sigma2[t] += gamma * resids[t - 1] ** 2 if resids[t - 1] < 0 else 0
-            sigma2[t] = GJRGARCHModel.bounds_check(sigma2[t], var_bounds[t])
-        return sigma2
-
-    @staticmethod
-    def forecast_variance(
-        params: Parameters,
-        resids: np.ndarray,
-        initial_variance: float,
-    ) -> np.ndarray:
-        """Forecast the variances conditional on given parameters and residuals.
-
-        Args:
-            params (Parameters): :class:`frds.algorithms.GJRGARCHModel.Parameters`
-            resids (np.ndarray): residuals to use
-            initial_variance (float): starting value of variance forecasts
-
-        Returns:
-            np.ndarray: conditional variance
-        """
-        # fmt: off
-        omega, alpha, gamma, beta = params.omega, params.alpha, params.gamma, params.beta
-        sigma2 = np.zeros_like(resids)
-        sigma2[0] = initial_variance
-        for t in range(1, len(resids)):
-            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
-            sigma2[t] += gamma * resids[t - 1] ** 2 if resids[t - 1] < 0 else 0
-        return sigma2[1:]
-
-    def starting_values(self, resids: np.ndarray) -> List[float]:
-        """Finds the optimal initial values for the volatility model via a grid
-        search. For varying target persistence and alpha values, return the
-        combination of alpha and beta that gives the highest loglikelihood.
-
-        Args:
-            resids (np.ndarray): residuals from the mean model
-
-        Returns:
-            List[float]: [omega, alpha, gamma, beta]
-        """
-        # Candidate target persistence - we don't have a prior knowledge here
-        persistence_grid = [0.5, 0.7, 0.9, 0.98]
-        # Candidate alpha values
-        alpha_grid = [0.01, 0.05, 0.1, 0.2]
-        gamma_grid = alpha_grid
-        # Sample variance
-        var = self.returns.var()
-        # Backcast initial value for the volaility process
-        var_bounds = self.variance_bounds(resids)
-        backcast = self.backcast(resids)
-        initial_params = []
-        max_likelihood = -np.inf
-        # fmt: off
-        for alpha, gamma, p in itertools.product(*[alpha_grid, gamma_grid, persistence_grid]):
-            # Note that (alpha+beta) is the "persistence"
-            beta = p - alpha - gamma/2
-            # Note that the unconditional variance is omega/(1-persistence).
-            # As we are guessing the initial value, we use the sample variance
-            # as the unconditional variance to guess the omega value.
-            omega = var * (1 - p)
-            params = [omega, alpha, gamma, beta]
-            sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
-            likelihood = self.loglikelihood(resids, sigma2)
-            if likelihood > max_likelihood:
-                max_likelihood = likelihood
-                initial_params = params
-        return initial_params
-
-
-if __name__ == "__main__":
-    import pandas as pd
-    from pprint import pprint
-
-    df = pd.read_stata(
-        "https://www.stata-press.com/data/r18/stocks.dta", convert_dates=["date"]
-    )
-    df.set_index("date", inplace=True)
-    # Scale returns to percentage returns for better optimization results
-    returns = df["nissan"].to_numpy() * 100
-
-    g = GARCHModel(returns)
-    res = g.fit()
-    pprint(res)
-
-    gjr = GJRGARCHModel(returns)
-    res = gjr.fit()
-    pprint(res)
-
-    from arch import arch_model
-
-    m = arch_model(returns, p=1, o=1, q=1)
-    print(m.fit(disp=False))
+import warnings
+import itertools
+from typing import List
+from dataclasses import dataclass
+import numpy as np
+from scipy.optimize import minimize, OptimizeResult
+
+USE_CPP_EXTENSION = True
+try:
+    import frds.algorithms.utils.utils_ext as ext
+except ImportError:
+    USE_CPP_EXTENSION = False
+
+
+class GARCHModel:
+    """:doc:`/algorithms/garch` model with constant mean and Normal noise
+
+    It estimates the model parameters only. No standard errors calculated.
+
+    This code is heavily based on the `arch <https://arch.readthedocs.io/>`_.
+    Modifications are made for easier understaing of the code flow.
+    """
+
+    @dataclass
+    class Parameters:
+        mu: float = np.nan
+        omega: float = np.nan
+        alpha: float = np.nan
+        beta: float = np.nan
+        loglikelihood: float = np.nan
+
+    def __init__(self, returns: np.ndarray, zero_mean=False) -> None:
+        """__init__
+
+        Args:
+            returns (np.ndarray): ``(T,)`` array of ``T`` returns
+            zero_mean (bool): whether to use a zero mean returns model. Default to False.
+
+        .. note:: ``returns`` is best to be percentage returns for optimization
+        """
+        self.returns = np.asarray(returns, dtype=np.float64)
+        self.estimation_success = False
+        self.loglikelihood_final = np.nan
+        self.parameters = type(self).Parameters()
+        self.resids = np.empty_like(self.returns)
+        self.sigma2 = np.empty_like(self.returns)
+        self.backcast_value = np.nan
+        self.var_bounds: np.ndarray = None
+        self.zero_mean = zero_mean
+
+    def fit(self) -> Parameters:
+        """Estimates the GARCH(1,1) parameters via MLE
+
+        Returns:
+            params: :class:`frds.algorithms.GARCHModel.Parameters`
+        """
+        # No repeated estimation?
+        if self.estimation_success:
+            return self.parameters
+
+        starting_vals = self.preparation()
+
+        # Set bounds for parameters
+        bounds = [
+            (-np.inf, np.inf),  # No bounds for mu
+            (1e-6, np.inf),  # Lower bound for omega
+            (0.0, 1.0),  # Bounds for alpha
+            (0.0, 1.0),  # Boudns for beta
+        ]
+        if self.zero_mean:
+            bounds = bounds[1:]
+
+        # Set constraint for stationarity
+        def persistence_smaller_than_one(params: List[float]):
+            alpha, beta = params[-2:]
+            return 1.0 - (alpha + beta)
+
+        # MLE via minimizing the negative log-likelihood
+        # fmt: off
+        with warnings.catch_warnings():
+            warnings.filterwarnings(
+                "ignore",
+                "Values in x were outside bounds during a minimize step",
+                RuntimeWarning,
+            )
+            opt: OptimizeResult = minimize(
+                self.loglikelihood_model,
+                starting_vals,
+                args=(self.backcast_value, self.var_bounds, self.zero_mean),
+                method="SLSQP",
+                bounds=bounds,
+                constraints={"type": "ineq", "fun": persistence_smaller_than_one},
+            )
+            if opt.success:
+                self.estimation_success = True
+                if self.zero_mean:
+                    self.parameters = type(self).Parameters(0.0, *list(opt.x), loglikelihood=-opt.fun)
+                else:
+                    self.parameters = type(self).Parameters(*list(opt.x), loglikelihood=-opt.fun)
+                self.resids = self.returns - self.parameters.mu
+                self.sigma2 = self.compute_variance(
+                    opt.x if self.zero_mean else opt.x[1:],
+                    self.resids,
+                    self.backcast_value,
+                    self.var_bounds,
+                )
+
+        return self.parameters
+
+    def preparation(self) -> List[float]:
+        """Prepare starting values.
+
+        Returns:
+            List[float]: list of starting values
+        """
+        # Compute a starting value for volatility process by backcasting
+        if self.zero_mean:
+            resids = self.returns
+        else:
+            resids = self.returns - np.mean(self.returns)
+        self.backcast_value = self.backcast(resids)
+        # Compute a loose bound for the volatility process
+        # This is to avoid NaN in MLE by avoiding zero/negative variance,
+        # as well as unreasonably large variance.
+        self.var_bounds = self.variance_bounds(resids)
+        # Compute the starting values for MLE
+        # Starting values for the volatility process
+        var_params = self.starting_values(resids)
+        # Starting value for mu is the sample mean return
+        initial_mu = self.returns.mean()
+        # Starting values are [mu, omega, alpha, beta]
+        starting_vals = [initial_mu, *var_params]
+
+        return starting_vals if not self.zero_mean else var_params
+
+    def loglikelihood_model(
+        self,
+        params: np.ndarray,
+        backcast: float,
+        var_bounds: np.ndarray,
+        zero_mean=False,
+    ) -> float:
+        """Calculates the negative log-likelihood based on the current ``params``.
+        This function is used in optimization.
+
+        Args:
+            params (np.ndarray): [mu, omega, alpha, (gamma), beta]
+            backcast (float): backcast value
+            var_bounds (np.ndarray): variance bounds
+
+        Returns:
+            float: negative log-likelihood
+        """
+        if zero_mean:
+            resids = self.returns
+            self.sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
+        else:
+            resids = self.returns - params[0]  # params[0] is mu
+            self.sigma2 = self.compute_variance(
+                params[1:], resids, backcast, var_bounds
+            )
+        return -self.loglikelihood(resids, self.sigma2)
+
+    @staticmethod
+    def loglikelihood(resids: np.ndarray, sigma2: np.ndarray) -> float:
+        """Computes the log-likelihood assuming residuals are
+        normally distributed conditional on the variance.
+
+        Args:
+            resids (np.ndarray): residuals to use in computing log-likelihood.
+            sigma2 (np.ndarray): conditional variance of residuals.
+
+        Returns:
+            float: log-likelihood
+        """
+        l = -0.5 * (np.log(2 * np.pi) + np.log(sigma2) + resids**2.0 / sigma2)
+        return np.sum(l)
+
+    @staticmethod
+    def compute_variance(
+        params: List[float],
+        resids: np.ndarray,
+        backcast: float,
+        var_bounds: np.ndarray,
+    ) -> np.ndarray:
+        """Computes the variances conditional on given parameters
+
+        Args:
+            params (List[float]): [omega, alpha, beta]
+            resids (np.ndarray): residuals from mean equation
+            backcast (float): backcast value
+            var_bounds (np.ndarray): variance bounds
+
+        Returns:
+            np.ndarray: conditional variance
+        """
+        if USE_CPP_EXTENSION:
+            return ext.compute_garch_variance(params, resids, backcast, var_bounds)
+        omega, alpha, beta = params
+        sigma2 = np.zeros_like(resids)
+        sigma2[0] = omega + (alpha + beta) * backcast
+        for t in range(1, len(resids)):
+            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
+            sigma2[t] = GARCHModel.bounds_check(sigma2[t], var_bounds[t])
+        return sigma2
+
+    def starting_values(self, resids: np.ndarray) -> List[float]:
+        """Finds the optimal initial values for the volatility model via a grid
+        search. For varying target persistence and alpha values, return the
+        combination of alpha and beta that gives the highest loglikelihood.
+
+        Args:
+            resids (np.ndarray): residuals from the mean model
+
+        Returns:
+            List[float]: [omega, alpha, beta]
+        """
+        # Candidate target persistence - we don't have a prior knowledge here
+        persistence_grid = [0.5, 0.7, 0.9, 0.98]
+        # Candidate alpha values
+        alpha_grid = [0.01, 0.05, 0.1, 0.2]
+        # Sample variance
+        var = self.returns.var()
+        # Backcast initial value for the volaility process
+        initial_params = []
+        max_likelihood = -np.inf
+        for alpha, p in itertools.product(*[alpha_grid, persistence_grid]):
+            # Note that (alpha+beta) is the "persistence"
+            beta = p - alpha
+            # Note that the unconditional variance is omega/(1-persistence).
+            # As we are guessing the initial value, we use the sample variance
+            # as the unconditional variance to guess the omega value.
+            omega = var * (1 - p)
+            params = [omega, alpha, beta]
+            sigma2 = self.compute_variance(
+                params, resids, self.backcast_value, self.var_bounds
+            )
+            likelihood = self.loglikelihood(resids, sigma2)
+            if likelihood > max_likelihood:
+                max_likelihood = likelihood
+                initial_params = params
+        return initial_params
+
+    @staticmethod
+    def variance_bounds(resids: np.ndarray) -> np.ndarray:
+        """Compute bounds for conditional variances using EWMA.
+
+        This function calculates the lower and upper bounds for conditional variances
+        based on the residuals provided. The bounds are computed to ensure numerical
+        stability during the parameter estimation process of GARCH models. The function
+        uses Exponentially Weighted Moving Average (EWMA) to estimate the initial variance
+        and then adjusts these estimates to lie within global bounds.
+
+        Args:
+            resids (np.ndarray): residuals from the mean model.
+
+        Returns:
+            np.ndarray: an array where each row contains the lower and upper bounds for the conditional variance at each time point.
+        """
+
+        T = len(resids)
+        tau = min(75, T)
+        # Compute initial variance using EWMA
+        decay_factor = 0.94
+        weights = decay_factor ** np.arange(tau)
+        weights /= weights.sum()
+        initial_variance = np.dot(weights, resids[:tau] ** 2)
+        # Compute var_bound using EWMA (assuming ewma_recursion is defined)
+        var_bound = GARCHModel.ewma(resids, initial_variance)
+        # Compute global bounds
+        global_lower_bound = resids.var() / 1e8
+        global_upper_bound = 1e7 * (1 + (resids**2).max())
+        # Adjust var_bound to ensure it lies within global bounds
+        var_bound = np.clip(var_bound, global_lower_bound, global_upper_bound)
+        # Create bounds matrix
+        var_bounds = np.vstack((var_bound / 1e6, var_bound * 1e6)).T
+
+        return np.ascontiguousarray(var_bounds)
+
+    @staticmethod
+    def bounds_check(sigma2: float, var_bounds: np.ndarray) -> float:
+        """Adjust the conditional variance at time t based on its bounds
+
+        Args:
+            sigma2 (float): conditional variance
+            var_bounds (np.ndarray): lower and upper bounds
+
+        Returns:
+            float: adjusted conditional variance
+        """
+        if USE_CPP_EXTENSION:
+            return ext.bounds_check(sigma2, var_bounds)
+        lower, upper = var_bounds[0], var_bounds[1]
+        sigma2 = max(lower, sigma2)
+        if sigma2 > upper:
+            if not np.isinf(sigma2):
+                sigma2 = upper + np.log(sigma2 / upper)
+            else:
+                sigma2 = upper + 1000
+        return sigma2
+
+    @staticmethod
+    def backcast(resids: np.ndarray) -> float:
+        """Computes the starting value for estimating conditional variance.
+
+        Args:
+            resids (np.ndarray): residuals
+
+        Returns:
+            float: initial value from backcasting
+        """
+        # Limit to first tau observations to reduce computation
+        tau = min(75, resids.shape[0])
+        # Weights for Exponential Weighted Moving Average (EWMA)
+        w = 0.94 ** np.arange(tau)
+        w = w / sum(w)  # Ensure weights add up to 1
+        # Let the initial value to be the EWMA of first tau observations
+        return float(np.sum((resids[:tau] ** 2) * w))
+
+    @staticmethod
+    def ewma(resids: np.ndarray, initial_value: float, lam=0.94) -> np.ndarray:
+        """Compute the conditional variance estimates using
+        Exponentially Weighted Moving Average (EWMA).
+
+        Args:
+            resids (np.ndarray): Residuals from the model.
+            initial_value (float): Initial value for the conditional variance.
+            lam (float): Decay factor for the EWMA.
+
+        Returns:
+            np.ndarray: Array containing the conditional variance estimates.
+        """
+        if USE_CPP_EXTENSION:
+            return ext.ewma(resids, initial_value, lam)
+        T = len(resids)
+        variance = np.empty(T)
+        variance[0] = initial_value  # Set the initial value
+        # Compute the squared residuals
+        squared_resids = resids**2
+        # Compute the EWMA using the decay factors and squared residuals
+        for t in range(1, T):
+            variance[t] = lam * variance[t - 1] + (1 - lam) * squared_resids[t - 1]
+        return variance
+
+
+class GJRGARCHModel(GARCHModel):
+    """:doc:`/algorithms/gjr-garch` model with constant mean and Normal noise
+
+    It estimates the model parameters only. No standard errors calculated.
+
+    This code is heavily based on the `arch <https://arch.readthedocs.io/>`_.
+    Modifications are made for easier understaing of the code flow.
+    """
+
+    @dataclass
+    class Parameters:
+        mu: float = np.nan
+        omega: float = np.nan
+        alpha: float = np.nan
+        gamma: float = np.nan
+        beta: float = np.nan
+        loglikelihood: float = np.nan
+
+    def fit(self) -> Parameters:
+        """Estimates the GJR-GARCH(1,1) parameters via MLE
+
+        Returns:
+            List[float]: [mu, omega, alpha, gamma, beta, loglikelihood]
+        """
+        # No repeated estimation?
+        if self.estimation_success:
+            return self.parameters
+
+        starting_vals = self.preparation()
+
+        bounds = [
+            (-np.inf, np.inf),  # No bounds for mu
+            (1e-6, np.inf),  # Lower bound for omega
+            (1e-6, 1.0),  # Bounds for alpha
+            (1e-6, 1.0),  # Bounds for gamma
+            (1e-6, 1.0),  # Boudns for beta
+        ]
+        if self.zero_mean:
+            bounds = bounds[1:]
+
+        # Set constraint for stationarity
+        def persistence_smaller_than_one(params: List[float]):
+            alpha, gamma, beta = params[-3:]
+            return 1.0 - (alpha + beta + gamma / 2)
+
+        # MLE via minimizing the negative log-likelihood
+        with warnings.catch_warnings():
+            warnings.filterwarnings(
+                "ignore",
+                "Values in x were outside bounds during a minimize step",
+                RuntimeWarning,
+            )
+            opt: OptimizeResult = minimize(
+                self.loglikelihood_model,
+                starting_vals,
+                args=(self.backcast_value, self.var_bounds, self.zero_mean),
+                method="SLSQP",
+                bounds=bounds,
+                constraints={"type": "ineq", "fun": persistence_smaller_than_one},
+            )
+            if opt.success:
+                self.estimation_success = True
+                if self.zero_mean:
+                    self.parameters = type(self).Parameters(
+                        0.0, *list(opt.x), loglikelihood=-opt.fun
+                    )
+                else:
+                    self.parameters = type(self).Parameters(
+                        *list(opt.x), loglikelihood=-opt.fun
+                    )
+                self.resids = self.returns - self.parameters.mu
+                self.sigma2 = self.compute_variance(
+                    opt.x if self.zero_mean else opt.x[1:],
+                    self.resids,
+                    self.backcast_value,
+                    self.var_bounds,
+                )
+
+        return self.parameters
+
+    @staticmethod
+    def compute_variance(
+        params: List[float],
+        resids: np.ndarray,
+        backcast: float,
+        var_bounds: np.ndarray,
+    ) -> np.ndarray:
+        """Computes the variances conditional on given parameters
+
+        Args:
+            params (List[float]): [omega, alpha, gamma, beta]
+            resids (np.ndarray): residuals from mean equation
+            backcast (float): backcast value
+            var_bounds (np.ndarray): variance bounds
+
+        Returns:
+            np.ndarray: conditional variance
+        """
+        if USE_CPP_EXTENSION:
+            return ext.compute_gjrgarch_variance(params, resids, backcast, var_bounds)
+        # fmt: off
+        omega, alpha, gamma, beta = params
+        sigma2 = np.zeros_like(resids)
+        sigma2[0] = omega + (alpha + gamma/2 + beta) * backcast
+        for t in range(1, len(resids)):
+            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
+            sigma2[t] += gamma * resids[t - 1] ** 2 if resids[t - 1] < 0 else 0
+            sigma2[t] = GJRGARCHModel.bounds_check(sigma2[t], var_bounds[t])
+        return sigma2
+
+    @staticmethod
+    def forecast_variance(
+        params: Parameters,
+        resids: np.ndarray,
+        initial_variance: float,
+    ) -> np.ndarray:
+        """Forecast the variances conditional on given parameters and residuals.
+
+        Args:
+            params (Parameters): :class:`frds.algorithms.GJRGARCHModel.Parameters`
+            resids (np.ndarray): residuals to use
+            initial_variance (float): starting value of variance forecasts
+
+        Returns:
+            np.ndarray: conditional variance
+        """
+        # fmt: off
+        omega, alpha, gamma, beta = params.omega, params.alpha, params.gamma, params.beta
+        sigma2 = np.zeros_like(resids)
+        sigma2[0] = initial_variance
+        for t in range(1, len(resids)):
+            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
+            sigma2[t] += gamma * resids[t - 1] ** 2 if resids[t - 1] < 0 else 0
+        return sigma2[1:]
+
+    def starting_values(self, resids: np.ndarray) -> List[float]:
+        """Finds the optimal initial values for the volatility model via a grid
+        search. For varying target persistence and alpha values, return the
+        combination of alpha and beta that gives the highest loglikelihood.
+
+        Args:
+            resids (np.ndarray): residuals from the mean model
+
+        Returns:
+            List[float]: [omega, alpha, gamma, beta]
+        """
+        # Candidate target persistence - we don't have a prior knowledge here
+        persistence_grid = [0.5, 0.7, 0.9, 0.98]
+        # Candidate alpha values
+        alpha_grid = [0.01, 0.05, 0.1, 0.2]
+        gamma_grid = alpha_grid
+        # Sample variance
+        var = self.returns.var()
+        # Backcast initial value for the volaility process
+        var_bounds = self.variance_bounds(resids)
+        backcast = self.backcast(resids)
+        initial_params = []
+        max_likelihood = -np.inf
+        # fmt: off
+        for alpha, gamma, p in itertools.product(*[alpha_grid, gamma_grid, persistence_grid]):
+            # Note that (alpha+beta) is the "persistence"
+            beta = p - alpha - gamma/2
+            # Note that the unconditional variance is omega/(1-persistence).
+            # As we are guessing the initial value, we use the sample variance
+            # as the unconditional variance to guess the omega value.
+            omega = var * (1 - p)
+            params = [omega, alpha, gamma, beta]
+            sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
+            likelihood = self.loglikelihood(resids, sigma2)
+            if likelihood > max_likelihood:
+                max_likelihood = likelihood
+                initial_params = params
+        return initial_params
+
+
+if __name__ == "__main__":
+    import pandas as pd
+    from pprint import pprint
+
+    df = pd.read_stata(
+        "https://www.stata-press.com/data/r18/stocks.dta", convert_dates=["date"]
+    )
+    df.set_index("date", inplace=True)
+    # Scale returns to percentage returns for better optimization results
+    returns = df["nissan"].to_numpy() * 100
+
+    g = GARCHModel(returns)
+    res = g.fit()
+    pprint(res)
+
+    gjr = GJRGARCHModel(returns)
+    res = gjr.fit()
+    pprint(res)
+
+    from arch import arch_model
+
+    m = arch_model(returns, p=1, o=1, q=1)
+    print(m.fit(disp=False))
-- 
2.43.0

