"""Minimal offline stand-in for scikit-learn (not installable in this sandbox).

Only what resistics.regression imports is provided.  The estimators really solve
their regression problems, with the constructor signatures of scikit-learn < 1.2
(the versions resistics is written for: LinearRegression still has ``normalize``).
"""
__version__ = "0.24.2"
