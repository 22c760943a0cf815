import numpy as np
def check_array(X, accept_sparse=False, dtype="numeric", order=None):
    X = np.asarray(X, dtype=None if dtype in ("numeric", None) else dtype, order=order)
    if X.ndim != 2:
        raise ValueError("expected a two-dimensional array")
    if X.dtype.kind == "f" and not np.isfinite(X).all():
        raise ValueError("not finite")
    return X
def check_X_y(X, y, accept_sparse=False, dtype="numeric", order=None):
    X = check_array(X, dtype=dtype, order=order)
    y = np.asarray(y)
    if y.ndim != 1 or len(y) != len(X):
        raise ValueError("X and y do not fit")
    if not np.isfinite(X).all() or not np.isfinite(y).all():
        raise ValueError("not finite")
    return X, y
def check_is_fitted(est, attr):
    if not hasattr(est, attr):
        raise ValueError("not fitted")
