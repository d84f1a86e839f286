"""Stand-in for the external cvx.linalg: a deterministic principal component analysis with `.exposure` (k x n)."""
from collections import namedtuple

import numpy as np
import pandas as pd

PCA = namedtuple("PCA", ["explained_variance", "factors", "exposure", "cov", "systematic_returns", "idiosyncratic_returns"])
CALLS = []  # what the code under test passed: (first label, last label, rows)


def pca(returns, n_components=10, demean=False):
    CALLS.append((returns.index[0], returns.index[-1], len(returns)))
    X = returns.values
    _, s, Vt = np.linalg.svd(X, full_matrices=False)
    V = Vt[:n_components].copy()
    # deterministic signs
    for i in range(V.shape[0]):
        j = np.argmax(np.abs(V[i]))
        if V[i, j] < 0:
            V[i] = -V[i]
    exposure = pd.DataFrame(V, columns=returns.columns, index=range(V.shape[0]))
    factors = pd.DataFrame(X @ V.T, index=returns.index, columns=exposure.index)
    sys_ = pd.DataFrame(factors.values @ V, index=returns.index, columns=returns.columns)
    return PCA(s[:n_components] ** 2 / (s**2).sum(), factors, exposure, factors.cov(), sys_, returns - sys_)
