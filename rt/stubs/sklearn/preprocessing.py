import numpy as np

from .base import BaseEstimator


class RobustScaler(BaseEstimator):
    def __init__(self, *, with_centering=True, with_scaling=True,
                 quantile_range=(25.0, 75.0), copy=True, unit_variance=False):
        self.with_centering = with_centering
        self.with_scaling = with_scaling
        self.quantile_range = quantile_range
        self.copy = copy
        self.unit_variance = unit_variance

    def fit(self, X, y=None):
        X = np.asarray(X, dtype=float)
        self.center_ = np.median(X, axis=0)
        q = np.percentile(X, self.quantile_range, axis=0)
        scale = q[1] - q[0]
        scale = np.where(scale == 0, 1.0, scale)
        self.scale_ = scale
        return self

    def transform(self, X):
        X = np.array(X, dtype=float)
        if self.with_centering:
            X = X - self.center_
        if self.with_scaling:
            X = X / self.scale_
        return X

    def fit_transform(self, X, y=None):
        return self.fit(X).transform(X)
