"""Shared scenario helpers."""
import numpy as np

# training designs: well separated points, generic outputs
X1 = np.array([[0.0], [0.35], [0.6], [1.0]])
Y1 = np.array([[1.0], [-0.5], [0.7], [2.0]])
X2 = np.array([[0.0, 0.1], [1.0, 0.5], [0.3, 0.9], [0.7, 0.2], [0.5, 0.6]])
Y2 = np.array([[1.0], [2.0], [-0.5], [3.0], [1.5]])
X3 = np.array([[0.0, 0.1, 0.2], [1.0, 0.5, 0.8], [0.3, 0.9, 0.1], [0.7, 0.2, 0.6], [0.5, 0.6, 0.9], [0.15, 0.4, 0.55]])
Y3 = np.array([[1.0], [2.0], [-0.5], [3.0], [1.5], [0.3]])
# enough points for quadratic trends in 2-D
X2Q = np.array([[0.0, 0.1], [1.0, 0.5], [0.3, 0.9], [0.7, 0.2], [0.5, 0.6], [0.1, 0.7], [0.9, 0.95], [0.45, 0.05]])
Y2Q = np.array([[1.0], [2.0], [-0.5], [3.0], [1.5], [0.3], [0.9], [2.2]])
DES = {1: (X1, Y1), 2: (X2, Y2), 3: (X3, Y3)}


def two_outputs(y):
    return np.hstack([y, (y[::-1] * 0.5 + 1.0)])


def trained(S, key, make, xt, yt, derivs=None):
    def go():
        sm = make()
        sm.options["print_global"] = False
        sm.set_training_values(np.array(xt, dtype=float), np.array(yt, dtype=float))
        if derivs is not None:
            for kx, d in enumerate(derivs):
                sm.set_training_derivatives(np.array(xt, dtype=float), np.array(d, dtype=float), kx)
        sm.train()
        return sm
    return S.concretely(key, go)
