"""Linear models with the scikit-learn < 1.2 signatures; real solutions"""
import itertools
from math import comb

import numpy as np

from .base import BaseEstimator, clone


def _check_xy(X, y):
    X = np.asarray(X)
    y = np.asarray(y)
    if np.iscomplexobj(X) or np.iscomplexobj(y):
        raise ValueError("Complex data not supported")
    X = X.astype(float)
    y = y.astype(float)
    if X.ndim != 2:
        raise ValueError("Expected 2D array, got %dD array instead" % X.ndim)
    if y.ndim != 1:
        raise ValueError("y should be a 1d array, got an array of shape %s" % (y.shape,))
    if X.shape[0] != y.shape[0]:
        raise ValueError(
            "Found input variables with inconsistent numbers of samples: %s"
            % [X.shape[0], y.shape[0]]
        )
    if X.shape[0] == 0:
        raise ValueError("Found array with 0 sample(s) while a minimum of 1 is required.")
    if not np.all(np.isfinite(X)) or not np.all(np.isfinite(y)):
        raise ValueError("Input contains NaN, infinity or a value too large")
    return X, y


class LinearRegression(BaseEstimator):
    def __init__(self, *, fit_intercept=True, normalize=False, copy_X=True,
                 n_jobs=None, positive=False):
        self.fit_intercept = fit_intercept
        self.normalize = normalize
        self.copy_X = copy_X
        self.n_jobs = n_jobs
        self.positive = positive

    def fit(self, X, y, sample_weight=None):
        X, y = _check_xy(X, y)
        n = X.shape[0]
        w = np.ones(n) if sample_weight is None else np.asarray(sample_weight, float)
        if self.fit_intercept:
            tot = w.sum()
            xm = (w[:, None] * X).sum(axis=0) / tot if tot else np.zeros(X.shape[1])
            ym = (w * y).sum() / tot if tot else 0.0
        else:
            xm = np.zeros(X.shape[1])
            ym = 0.0
        sw = np.sqrt(w)
        coef, _, rank, sing = np.linalg.lstsq(
            (X - xm) * sw[:, None], (y - ym) * sw, rcond=None
        )
        self.coef_ = coef
        self.rank_ = rank
        self.singular_ = sing
        self.intercept_ = float(ym - xm @ coef)
        return self

    def predict(self, X):
        return np.asarray(X, float) @ self.coef_ + self.intercept_

    def score(self, X, y):
        r = np.asarray(y) - self.predict(X)
        t = np.asarray(y) - np.mean(y)
        return 1 - (r @ r) / (t @ t)


class HuberRegressor(BaseEstimator):
    def __init__(self, *, epsilon=1.35, max_iter=100, alpha=0.0001,
                 warm_start=False, fit_intercept=True, tol=1e-05):
        self.epsilon = epsilon
        self.max_iter = max_iter
        self.alpha = alpha
        self.warm_start = warm_start
        self.fit_intercept = fit_intercept
        self.tol = tol

    def fit(self, X, y, sample_weight=None):
        # Huber M-estimate by iteratively reweighted least squares, MAD scale
        X, y = _check_xy(X, y)
        if self.epsilon < 1.0:
            raise ValueError("epsilon should be greater than or equal to 1.0")
        lin = LinearRegression(fit_intercept=self.fit_intercept)
        w = np.ones(X.shape[0])
        for _ in range(self.max_iter):
            lin.fit(X, y, sample_weight=w)
            r = np.abs(y - lin.predict(X))
            scale = np.median(r) / 0.6745
            if scale <= 1e-14 * (np.max(np.abs(y)) + 1e-300):
                break
            new = np.minimum(1.0, self.epsilon * scale / np.maximum(r, 1e-300))
            done = np.max(np.abs(new - w)) < self.tol
            w = new
            if done:
                break
        self.coef_ = lin.coef_
        self.intercept_ = lin.intercept_ if self.fit_intercept else 0.0
        return self

    def predict(self, X):
        return np.asarray(X, float) @ self.coef_ + self.intercept_


def _spatial_median(pts, max_iter=300, tol=1e-12):
    med = np.median(pts, axis=0)
    for _ in range(max_iter):
        dist = np.sqrt(((pts - med) ** 2).sum(axis=1))
        mask = dist > 1e-300
        if not mask.any():
            return med
        w = np.zeros_like(dist)
        w[mask] = 1.0 / dist[mask]
        # points at the current estimate dominate the weighting
        if (~mask).sum() > 0:
            return med
        new = (w[:, None] * pts).sum(axis=0) / w.sum()
        step = np.sqrt(((new - med) ** 2).sum())
        med = new
        if step <= tol * (1 + np.sqrt((med ** 2).sum())):
            break
    return med


class TheilSenRegressor(BaseEstimator):
    def __init__(self, *, fit_intercept=True, copy_X=True, max_subpopulation=1e4,
                 n_subsamples=None, max_iter=300, tol=1e-3, random_state=None,
                 n_jobs=None, verbose=False):
        self.fit_intercept = fit_intercept
        self.copy_X = copy_X
        self.max_subpopulation = max_subpopulation
        self.n_subsamples = n_subsamples
        self.max_iter = max_iter
        self.tol = tol
        self.random_state = random_state
        self.n_jobs = n_jobs
        self.verbose = verbose

    def fit(self, X, y):
        X, y = _check_xy(X, y)
        n, p = X.shape
        n_dim = p + 1 if self.fit_intercept else p
        n_sub = self.n_subsamples
        if n_sub is not None:
            if n_sub > n:
                raise ValueError("Invalid parameter since n_subsamples > n_samples")
            if n >= p:
                if n_dim > n_sub:
                    raise ValueError(
                        "Invalid parameter since n_features+1 > n_subsamples (%d > %d)"
                        % (n_dim, n_sub)
                    )
            elif n_sub != n:
                raise ValueError(
                    "Invalid parameter since n_subsamples != n_samples while "
                    "n_samples < n_features."
                )
        else:
            n_sub = min(n_dim, n)
        if self.max_subpopulation <= 0:
            raise ValueError("Subpopulation must be strictly positive")
        n_pop = int(min(self.max_subpopulation, max(1, comb(n, n_sub))))
        # the sandbox budget: a seeded, smaller subpopulation is statistically enough
        n_pop = min(n_pop, 150)
        rs = np.random.RandomState(
            0 if self.random_state is None else self.random_state
        )
        if comb(n, n_sub) <= n_pop:
            subsets = [np.array(s) for s in itertools.combinations(range(n), n_sub)]
        else:
            subsets = [rs.choice(n, size=n_sub, replace=False) for _ in range(n_pop)]
        coefs = np.empty((len(subsets), n_dim))
        for i, idx in enumerate(subsets):
            A = X[idx]
            if self.fit_intercept:
                A = np.column_stack([np.ones(len(idx)), A])
            coefs[i] = np.linalg.lstsq(A, y[idx], rcond=None)[0]
        med = _spatial_median(coefs)
        if self.fit_intercept:
            self.intercept_ = med[0]
            self.coef_ = med[1:]
        else:
            self.intercept_ = 0.0
            self.coef_ = med
        return self

    def predict(self, X):
        return np.asarray(X, float) @ self.coef_ + self.intercept_


class RANSACRegressor(BaseEstimator):
    def __init__(self, base_estimator=None, *, min_samples=None,
                 residual_threshold=None, is_data_valid=None, is_model_valid=None,
                 max_trials=100, max_skips=np.inf, stop_n_inliers=np.inf,
                 stop_score=np.inf, stop_probability=0.99,
                 loss="absolute_loss", random_state=None):
        self.base_estimator = base_estimator
        self.min_samples = min_samples
        self.residual_threshold = residual_threshold
        self.is_data_valid = is_data_valid
        self.is_model_valid = is_model_valid
        self.max_trials = max_trials
        self.max_skips = max_skips
        self.stop_n_inliers = stop_n_inliers
        self.stop_score = stop_score
        self.stop_probability = stop_probability
        self.loss = loss
        self.random_state = random_state

    def fit(self, X, y, sample_weight=None):
        X, y = _check_xy(X, y)
        n = X.shape[0]
        base = clone(self.base_estimator) if self.base_estimator else LinearRegression()
        ms = self.min_samples
        if ms is None:
            ms = X.shape[1] + 1
        elif 0 < ms < 1:
            ms = int(np.ceil(ms * n))
        if ms > n:
            raise ValueError("`min_samples` may not be larger than number of samples")
        thresh = self.residual_threshold
        if thresh is None:
            thresh = np.median(np.abs(y - np.median(y)))
        rs = np.random.RandomState(0 if self.random_state is None else self.random_state)
        best = None
        for _ in range(self.max_trials):
            idx = rs.choice(n, size=int(ms), replace=False)
            base.fit(X[idx], y[idx])
            inl = np.abs(y - base.predict(X)) <= thresh
            if best is None or inl.sum() > best.sum():
                best = inl
        if best is None or best.sum() == 0:
            raise ValueError("RANSAC could not find a valid consensus set.")
        base.fit(X[best], y[best])
        self.estimator_ = base
        self.inlier_mask_ = best
        return self

    def predict(self, X):
        return self.estimator_.predict(X)
