import inspect


class BaseEstimator:
    """Parameter handling as in scikit-learn"""

    @classmethod
    def _get_param_names(cls):
        sig = inspect.signature(cls.__init__)
        return sorted(p for p in sig.parameters if p != "self")

    def get_params(self, deep=True):
        return {k: getattr(self, k) for k in self._get_param_names()}

    def set_params(self, **params):
        for key, val in params.items():
            setattr(self, key, val)
        return self


def clone(estimator):
    return type(estimator)(**estimator.get_params())
