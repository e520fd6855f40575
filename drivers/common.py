import numpy as np


def nnls(A, b, iters=300):
    """min |A x - b|, x >= 0 (Lawson-Hanson)."""
    m, n = A.shape
    x = np.zeros(n)
    P = np.zeros(n, bool)
    w = A.T @ (b - A @ x)
    tol = 1e-12 * (1 + np.abs(A).max(initial=0)) * (1 + np.abs(b).max(initial=0))
    it = 0
    while (~P).any() and (w[~P] > tol).any() and it < iters:
        it += 1
        j = np.argmax(np.where(~P, w, -np.inf))
        P[j] = True
        while True:
            s = np.zeros(n)
            s[P] = np.linalg.lstsq(A[:, P], b, rcond=None)[0]
            if (s[P] > 0).all():
                break
            mask = P & (s <= 0)
            alpha = np.min(x[mask] / (x[mask] - s[mask] + 1e-300))
            x = x + alpha * (s - x)
            P &= x > 1e-14
            x[~P] = 0
        x = s
        w = A.T @ (b - A @ x)
    return x


def kkt_multipliers(g, Aeq, Ain, tol_active, rin):
    """Least-squares multipliers: g = Aeq^T lam + Ain^T mu, mu >= 0 and mu = 0 on rows whose slack rin exceeds tol_active."""
    act = rin <= tol_active
    M = np.hstack([Aeq.T, -Aeq.T, Ain[act].T]) if len(g) else np.zeros((0, 0))
    ne = Aeq.shape[0]
    mu = np.zeros(Ain.shape[0])
    if M.shape[1] == 0:
        return np.zeros(ne), mu
    # scale columns
    sc = np.linalg.norm(M, axis=0)
    M = np.where(sc < 1e-9, 0, M)       # rows that are only rounding
    sc[sc < 1e-9] = 1
    y = nnls(M / sc, g) / sc
    mu[act] = y[2 * ne:]
    return y[:ne] - y[ne:2 * ne], mu


def rand_rot(rng, big=True):
    a = rng.normal(size=3)
    a /= np.linalg.norm(a)
    t = rng.uniform(-np.pi, np.pi) if big else rng.uniform(-0.5, 0.5)
    return rot(a * t)


def rot(w):
    t = np.linalg.norm(w)
    K = np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])
    if t < 1e-12:
        return np.eye(3) + K
    return np.eye(3) + np.sin(t) / t * K + (1 - np.cos(t)) / t ** 2 * K @ K


def rotz(t):
    return rot(np.array([0, 0, t]))


def frame(R, p):
    T = np.eye(4)
    T[:3, :3] = R
    T[:3, 3] = p
    return T


def rand_frame(rng, scale=1.0, big=True):
    return frame(rand_rot(rng, big), rng.uniform(-scale, scale, 3))


def mat(a, cols=None):
    """eigenpy returns one-row matrices as 1-D arrays."""
    a = np.array(a, float)
    if a.ndim == 1:
        a = a.reshape(1, -1) if cols is None or a.size == cols else a.reshape(-1, 1)
    return a


def raises(f, *a, **k):
    try:
        return False, f(*a, **k)
    except Exception as ex:  # noqa
        return True, str(ex)
