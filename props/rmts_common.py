"""RMTB / RMTC scenario helpers."""
import numpy as np

LIMS = np.array([[-1.0, 2.0], [0.25, 0.75], [0.0, 4.0]])


def grid(nx, m=4):
    g = np.meshgrid(*[np.linspace(a, b, m) for a, b in LIMS[:nx]], indexing='ij')
    return np.array([v.ravel() for v in g]).T


def fun(x):
    return (np.sin(2 * x).sum(axis=1) + x[:, 0] * x[:, -1]).reshape(-1, 1)


def make(model, nx, **kw):
    import smt.surrogate_models as M
    kw.setdefault("solver", "lu")
    return getattr(M, model)(print_global=False, xlimits=LIMS[:nx].copy(), **kw)




def trained(S, model, nx, ny=1, m=4, key="m", derivs=False, **kw):
    def go():
        sm = make(model, nx, **kw)
        x = grid(nx, m)
        y = fun(x)
        if ny == 2:
            y = np.hstack([y, y ** 2 - 1])
        sm.set_training_values(x, y)
        sm.train()
        return sm
    return S.concretely(key, go)
