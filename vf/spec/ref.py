"""Reference definitions the analysed code is compared with (evaluated by the abstract interpreter)."""
import numpy as np
from scipy.integrate import quad


def cnd_poly(x):
    # Abramowitz & Stegun 26.2.17 as documented in the package
    k = 1 / (1 + 0.2316419 * abs(x))
    p = 0.31938153 * k - 0.356563782 * k ** 2 + 1.781477937 * k ** 3 - 1.821255978 * k ** 4 + 1.330274429 * k ** 5
    tail = np.exp(-x * x / 2) / np.sqrt(2 * np.pi) * p
    if x == 0:
        return 0.5
    if x > 0:
        return 1 - tail
    return tail


def ndf(x):
    return np.exp(-x ** 2 / 2) / np.sqrt(2 * np.pi)


def garch_series(omega, alpha, beta, gamma, lamb, rf, Z):
    """Heston-Nandi recursion driven by the innovations Z; returns (h, x)."""
    h = [(omega + alpha) / (1 - alpha * gamma ** 2 - beta)]
    for k in range(1, len(Z)):
        h.append(omega + alpha * (Z[k - 1] - gamma * np.sqrt(h[k - 1])) ** 2 + beta * h[k - 1])
    x = [rf + lamb * h[k] + np.sqrt(h[k]) * Z[k] for k in range(len(Z))]
    return h, x


def garch_nll(h, Z):
    """minus the Gaussian log likelihood of the filtered innovations."""
    out = 0
    for k in range(len(Z)):
        out = out + Z[k] ** 2 / 2 + np.log(2 * np.pi) / 2 + np.log(h[k]) / 2
    return out


def logit(w):
    return -np.log((1 - w) / w)


# ---------------------------------------------------------------- European closed forms

def gbs(z, S, K, t, r, b, sigma):
    """generalised Black-Scholes (Haug): z = 1 call, -1 put."""
    d1 = (np.log(S / K) + (b + sigma ** 2 / 2) * t) / (sigma * np.sqrt(t))
    d2 = d1 - sigma * np.sqrt(t)
    return z * (S * np.exp((b - r) * t) * CND(z * d1) - K * np.exp(-r * t) * CND(z * d2))


def ms_vz(t, T, sS, sE, sF, rSE, rSF, rEF, kE, kF):
    def g(k):
        return np.exp(-k * T) * (np.exp(k * t) - 1) / k
    return (sS ** 2 * t
            + 2 * sS * (sF * rSF / kF * (t - g(kF)) - sE * rSE / kE * (t - g(kE)))
            + sE ** 2 / kE ** 2 * (t + np.exp(-2 * kE * T) * (np.exp(2 * kE * t) - 1) / (2 * kE) - 2 * g(kE))
            + sF ** 2 / kF ** 2 * (t + np.exp(-2 * kF * T) * (np.exp(2 * kF * t) - 1) / (2 * kF) - 2 * g(kF))
            - 2 * sE * sF * rEF / (kE * kF) * (t - g(kE) - g(kF) + np.exp(-(kE + kF) * T) * (np.exp((kE + kF) * t) - 1) / (kE + kF)))


def ms_vxz(t, T, sS, sE, sF, rSE, rSF, rEF, kE, kF):
    def g(k):
        return np.exp(-k * T) * (np.exp(k * t) - 1) / k
    m = (1 - np.exp(-kF * t)) / kF
    return sF / kF * (sS * rSF * (t - m)
                      + sF / kF * (t - g(kF) - m + np.exp(-kF * T) * (np.exp(kF * t) - np.exp(-kF * t)) / (2 * kF))
                      - sE * rEF / kE * (t - g(kE) - m + np.exp(-kE * T) * (np.exp(kE * t) - np.exp(-kF * t)) / (kE + kF)))


def ms(z, Pt, FT, K, t, T, sigmaS, sigmaE, sigmaF, rhoSE, rhoSF, rhoEF, KappaE, KappaF):
    """Miltersen-Schwartz commodity futures option (Haug)."""
    a = (t, T, sigmaS, sigmaE, sigmaF, rhoSE, rhoSF, rhoEF, KappaE, KappaF)
    v = np.sqrt(ms_vz(*a))
    x = ms_vxz(*a)
    d1 = (np.log(FT / K) - x + v ** 2 / 2) / v
    d2 = (np.log(FT / K) - x - v ** 2 / 2) / v
    return z * Pt * (FT * np.exp(-x) * CND(z * d1) - K * CND(z * d2))


def kirk(z, S1, S2, K, t, r, b1, b2, sigma1, sigma2, rho, Q1, Q2):
    """Kirk's spread approximation."""
    F1 = Q1 * S1 * np.exp((b1 - r) * t)
    F2 = Q2 * S2 * np.exp((b2 - r) * t)
    B = F2 + K * np.exp(-r * t)
    w = F2 / B
    v = np.sqrt(sigma1 ** 2 + (sigma2 * w) ** 2 - 2 * rho * sigma1 * sigma2 * w)
    d1 = (np.log(F1 / B) + v ** 2 / 2 * t) / (v * np.sqrt(t))
    d2 = d1 - v * np.sqrt(t)
    return z * (F1 * CND(z * d1) - B * CND(z * d2))


# ---------------------------------------------------------------- American approximations

def baw_q(z, t, r, b, sigma):
    n = 2 * b / sigma ** 2
    k = 2 / (sigma ** 2 * t) if r == 0 else 2 * r / (sigma ** 2 * (1 - np.exp(-r * t)))
    return (-(n - 1) + z * np.sqrt((n - 1) ** 2 + 4 * k)) / 2


def baw_gap(z, K, t, r, b, sigma, X):
    """z * X*(1 - exp((b-r)t) N(z*d1(X))) / q : the premium at the critical price X."""
    d1 = (np.log(X / K) + (b + sigma ** 2 / 2) * t) / (sigma * np.sqrt(t))
    return z * X / baw_q(z, t, r, b, sigma) * (1 - np.exp((b - r) * t) * CND(z * d1))


def baw_call(S, K, t, r, b, sigma, X):
    if b >= r:
        return gbs(1, S, K, t, r, b, sigma)
    if S < X:
        return gbs(1, S, K, t, r, b, sigma) + baw_gap(1, K, t, r, b, sigma, X) * (S / X) ** baw_q(1, t, r, b, sigma)
    return S - K


def baw_put(S, K, t, r, b, sigma, X):
    if S > X:
        return gbs(-1, S, K, t, r, b, sigma) + baw_gap(-1, K, t, r, b, sigma, X) * (S / X) ** baw_q(-1, t, r, b, sigma)
    return K - S


def baw_done(z, K, t, r, b, sigma, X):
    """smooth-fit residual at X is within the model's tolerance."""
    lhs = z * (X - K)
    rhs = gbs(z, X, K, t, r, b, sigma) + baw_gap(z, K, t, r, b, sigma, X)
    return abs(lhs - rhs) / K <= 1e-6


def baw_seed(z, K, t, r, b, sigma):
    """quadratic approximation's starting value of the critical price."""
    n = 2 * b / sigma ** 2
    m = 2 * r / sigma ** 2
    q = (-(n - 1) + z * np.sqrt((n - 1) ** 2 + 4 * m)) / 2
    inf = K / (1 - 1 / q)
    h = -(b * t + z * 2 * sigma * np.sqrt(t)) * K / (inf - K)
    if z == 1:
        return K + (inf - K) * (1 - np.exp(h))
    return inf + (K - inf) * np.exp(h)


def baw_next(z, K, t, r, b, sigma, X, density):
    """Newton step on the smooth-fit residual; the slope with the density (exact) or, as Haug prints it, with CND."""
    v = sigma * np.sqrt(t)
    d1 = (np.log(X / K) + (b + sigma ** 2 / 2) * t) / v
    q = baw_q(z, t, r, b, sigma)
    c = np.exp((b - r) * t)
    f = ndf(d1) if density else CND(z * d1)
    rhs = gbs(z, X, K, t, r, b, sigma) + baw_gap(z, K, t, r, b, sigma, X)
    slope = z * c * CND(z * d1) * (1 - 1 / q) + z * (1 - z * c * f / v) / q
    return (K + z * (rhs - slope * X)) / (1 - z * slope)


def bs_phi(S, T, gamma, H, I, r, b, sigma):
    lam = (-r + gamma * b + gamma * (gamma - 1) * sigma ** 2 / 2) * T
    d = -(np.log(S / H) + (b + (gamma - 1 / 2) * sigma ** 2) * T) / (sigma * np.sqrt(T))
    kappa = 2 * b / sigma ** 2 + 2 * gamma - 1
    return np.exp(lam) * S ** gamma * (CND(d) - (I / S) ** kappa * CND(d - 2 * np.log(I / S) / (sigma * np.sqrt(T))))


def bs_american_call(S, X, T, r, b, sigma):
    """Bjerksund-Stensland 1993: (price, trigger)."""
    if b >= r:
        return gbs(1, S, X, T, r, b, sigma), np.nan
    beta = 1 / 2 - b / sigma ** 2 + np.sqrt((b / sigma ** 2 - 1 / 2) ** 2 + 2 * r / sigma ** 2)
    binf = beta / (beta - 1) * X
    b0 = max(X, r / (r - b) * X)
    h = -(b * T + 2 * sigma * np.sqrt(T)) * b0 / (binf - b0)
    I = b0 + (binf - b0) * (1 - np.exp(h))
    if S >= I:
        return S - X, I
    alpha = (I - X) * I ** (-beta)
    p = (alpha * S ** beta - alpha * bs_phi(S, T, beta, I, I, r, b, sigma)
         + bs_phi(S, T, 1, I, I, r, b, sigma) - bs_phi(S, T, 1, X, I, r, b, sigma)
         - X * bs_phi(S, T, 0, I, I, r, b, sigma) + X * bs_phi(S, T, 0, X, I, r, b, sigma))
    return p, I


def rgw_never(K, t, td, r, D):
    return D <= K * (1 - np.exp(-r * (t - td)))


def rgw_excess(K, t, td, r, D, sigma, X):
    """European value just after the dividend less exercise at X."""
    return gbs(1, X, K, t - td, r, r, sigma) - X - D + K


def rgw_call(S, K, t, td, r, D, sigma, I):
    Sx = S - D * np.exp(-r * td)
    if rgw_never(K, t, td, r, D):
        return gbs(1, Sx, K, t, r, r, sigma)
    a1 = (np.log(Sx / K) + (r + sigma ** 2 / 2) * t) / (sigma * np.sqrt(t))
    a2 = a1 - sigma * np.sqrt(t)
    b1 = (np.log(Sx / I) + (r + sigma ** 2 / 2) * td) / (sigma * np.sqrt(td))
    b2 = b1 - sigma * np.sqrt(td)
    q = -np.sqrt(td / t)
    return (Sx * CND(b1) + Sx * CBND(a1, -b1, q) - K * np.exp(-r * t) * CBND(a2, -b2, q)
            - (K - D) * np.exp(-r * td) * CND(b2))


def rgw_bracketed(K, t, td, r, D, sigma, H):
    return rgw_excess(K, t, td, r, D, sigma, H) <= 0 or H >= 100000000


def rgw_done(K, t, td, r, D, sigma, H, L):
    I = (H + L) / 2
    return abs(rgw_excess(K, t, td, r, D, sigma, I)) <= 1e-5 or H - L <= 1e-5


def rgw_next(K, t, td, r, D, sigma, H, L):
    I = (H + L) / 2
    if rgw_excess(K, t, td, r, D, sigma, I) < 0:
        return I, L
    return H, I


# ---------------------------------------------------------------- Heston-Nandi

def hn_core(phi, const, lamb, omega, alpha, beta, gamma, S, K, t, r):
    """complex integrand (before taking the real part) of the inversion formula, risk-neutral parameters."""
    g = gamma + lamb + 1 / 2
    l = -1 / 2
    s2 = (omega + alpha) / (1 - beta - alpha * g ** 2)
    c0 = phi * 1j
    c = c0 + const
    A = c * r
    B = l * c + c ** 2 / 2
    for i in range(1, t):
        A, B = (A + c * r + B * omega - np.log(1 - 2 * alpha * B) / 2,
                c * (l + g) - g ** 2 / 2 + beta * B + (c - g) ** 2 / 2 / (1 - 2 * alpha * B))
    return np.exp(-c0 * np.log(K) + c * np.log(S) + A + B * s2) / c0 / np.pi


def hn_integral(order, const, p):
    def f(phi):
        c = phi * 1j + const
        v = hn_core(phi, const, *p)
        S = p[5]
        if order == 1:
            v = v * c / S
        if order == 2:
            v = v * c * (c - 1) / S ** 2
        return np.real(v)
    return quad(f, 0, np.inf)[0]


def hn_call(lamb, omega, alpha, beta, gamma, S, K, t, r):
    p = (lamb, omega, alpha, beta, gamma, S, K, t, r)
    return S / 2 + np.exp(-r * t) * hn_integral(0, 1, p) - K * np.exp(-r * t) * (1 / 2 + hn_integral(0, 0, p))


def hn_delta(z, lamb, omega, alpha, beta, gamma, S, K, t, r):
    p = (lamb, omega, alpha, beta, gamma, S, K, t, r)
    d = 1 / 2 + np.exp(-r * t) * hn_integral(1, 1, p) - K * np.exp(-r * t) * hn_integral(1, 0, p)
    if z < 0:
        return d - 1
    return d


def hn_gamma(lamb, omega, alpha, beta, gamma, S, K, t, r):
    p = (lamb, omega, alpha, beta, gamma, S, K, t, r)
    return np.exp(-r * t) * hn_integral(2, 1, p) - K * np.exp(-r * t) * hn_integral(2, 0, p)


# ---------------------------------------------------------------- bivariate normal

def cbnd_base(a, b, rho):
    """Drezner's quadrature for a, b, rho <= 0."""
    X = [0.24840615, 0.39233107, 0.21141819, 0.03324666, 0.00082485334]
    y = [0.10024215, 0.48281397, 1.0609498, 1.7797294, 2.6697604]
    s = np.sqrt(2 * (1 - rho ** 2))
    a1 = a / s
    b1 = b / s
    tot = 0
    for i in range(5):
        for j in range(5):
            tot = tot + X[i] * X[j] * np.exp(a1 * (2 * y[i] - a1) + b1 * (2 * y[j] - b1) + 2 * rho * (y[i] - a1) * (y[j] - b1))
    return np.sqrt(1 - rho ** 2) / np.pi * tot


# ---------------------------------------------------------------- lattices

def tree_model(kind, t, b, sigma, n):
    """per-step factors and branch weights, each a list from the lowest to the highest branch."""
    dt = t / n
    if kind == "CRR":
        u = np.exp(sigma * np.sqrt(dt))
        d = 1 / u
        p = (np.exp(b * dt) - d) / (u - d)
        return u, d, [1 - p, p]
    if kind == "JR":
        m = (b - sigma ** 2 / 2) * dt
        return np.exp(m + sigma * np.sqrt(dt)), np.exp(m - sigma * np.sqrt(dt)), [0.5, 0.5]
    if kind == "TIAN":
        m = np.exp(b * dt)
        v = np.exp(sigma ** 2 * dt)
        w = np.sqrt(v ** 2 + 2 * v - 3)
        u = m * v / 2 * (v + 1 + w)
        d = m * v / 2 * (v + 1 - w)
        p = (m - d) / (u - d)
        return u, d, [1 - p, p]
    hu = np.exp(sigma * np.sqrt(dt / 2))
    hd = np.exp(-sigma * np.sqrt(dt / 2))
    g = np.exp(b * dt / 2)
    pu = ((g - hd) / (hu - hd)) ** 2
    pd = ((hu - g) / (hu - hd)) ** 2
    return np.exp(sigma * np.sqrt(2 * dt)), np.exp(-sigma * np.sqrt(2 * dt)), [pd, 1 - pu - pd, pu]


def tree_values(kind, z, S, K, t, r, b, sigma, n, american, floored):
    """option values by step: column j lists the nodes from the lowest stock price to the highest."""
    u, d, w = tree_model(kind, t, b, sigma, n)
    df = np.exp(-r * t / n)

    def stock(j, i):
        if len(w) == 2:
            return S * u ** i * d ** (j - i)
        return S * u ** (i - j) if i >= j else S * d ** (j - i)
    cols = [[np.maximum(z * (stock(n, i) - K), 0) for i in range((len(w) - 1) * n + 1)]]
    for j in range(n - 1, -1, -1):
        nxt = cols[0]
        col = []
        for i in range((len(w) - 1) * j + 1):
            v = 0
            for k in range(len(w)):
                v = v + w[k] * nxt[i + k]
            v = v * df
            if american:
                e = z * (stock(j, i) - K)
                if floored:
                    e = np.maximum(e, 0)
                v = np.maximum(e, v)
            col.append(v)
        cols = [col] + cols
    return cols


def payoff2(option, z, A, B, K, K2):
    """documented payoffs on the two assets; A = Q1*S1, B = Q2*S2."""
    if option == 1:
        return np.maximum(z * (A - B - K), 0)
    if option == 2:
        return np.maximum(z * (np.maximum(A, B) - K), 0)
    if option == 3:
        return np.maximum(z * (np.minimum(A, B) - K), 0)
    if option == 4:
        return np.maximum(np.maximum(z * (A - K), z * (B - K2)), 0)
    if option == 5:
        return np.maximum(np.maximum(z * (A - K), z * (K2 - B)), 0)
    if option == 6:
        return np.maximum(z * (A + B - K), 0)
    if option == 7:
        return np.maximum(z * (B - A), 0)
    if option == 8:
        return np.maximum(z * (A / B - K), 0)
    return np.maximum(z * (A * B - K), 0)


def tree2_price(option, z, S1, S2, K, K2, t, r, b1, b2, sigma1, sigma2, rho, Q1, Q2, n, american):
    """Rubinstein's two-asset binomial lattice."""
    dt = t / n
    mu1 = b1 - sigma1 ** 2 / 2
    mu2 = b2 - sigma2 ** 2 / 2
    u = np.exp(mu1 * dt + sigma1 * np.sqrt(dt))
    d = np.exp(mu1 * dt - sigma1 * np.sqrt(dt))

    def pay(m, j, i):
        s1 = S1 * u ** j * d ** (m - j)
        s2 = S2 * np.exp(mu2 * m * dt + sigma2 * (rho * (2 * j - m) + np.sqrt(1 - rho ** 2) * (2 * i - m)) * np.sqrt(dt))
        return payoff2(option, z, Q1 * s1, Q2 * s2, K, K2)
    v = [[pay(n, j, i) for i in range(n + 1)] for j in range(n + 1)]
    for m in range(n - 1, -1, -1):
        w = []
        for j in range(m + 1):
            row = []
            for i in range(m + 1):
                x = 0.25 * (v[j][i] + v[j + 1][i] + v[j][i + 1] + v[j + 1][i + 1]) * np.exp(-r * dt)
                if american:
                    x = np.maximum(x, pay(m, j, i))
                row.append(x)
            w.append(row)
        v = w
    return v[0][0]


# ---------------------------------------------------------------- stand-ins for the Monte Carlo building blocks

class SpecInnovation:
    """every sample is a matrix of fresh symbols."""

    def __init__(self, mc_paths, path_length, eps=None, *args, **kw):
        self.mc_paths = mc_paths
        self.path_length = path_length
        self.eps = eps

    def sample_innovation(self, *args, **kw):
        return DRAW(self.mc_paths, self.path_length)


class SpecPath:
    def __init__(self, epsilon, sigma, dt, b, *args, **kw):
        self.epsilon = epsilon
        self.sigma = sigma
        self.dt = dt
        self.b = b

    def generate_path(self, *args, **kw):
        return self.epsilon


class SpecPayoff:
    """an opaque value per path, depending on everything it was built from."""

    def __init__(self, path, S, K, t, r, b, sigma, *args, **kw):
        self.path = path
        self.rest = (S, K, t, r, b, sigma)

    def call(self, *args, **kw):
        return PAY(1, self.path.epsilon, (self.path.sigma, self.path.dt, self.path.b), self.rest)

    def put(self, *args, **kw):
        return PAY(-1, self.path.epsilon, (self.path.sigma, self.path.dt, self.path.b), self.rest)


def mc_value(z, eps, antithetic, standardization, sigma, dt, b, S, K, t, r):
    """mean payoff of one loop."""
    rows = [list(e) for e in eps]
    if antithetic:
        rows = rows + [[-x for x in e] for e in rows]
    if standardization:
        cnt = len(rows) * len(rows[0])
        m = sum([sum(e) for e in rows]) / cnt
        v = sum([sum([(x - m) ** 2 for x in e]) for e in rows]) / cnt
        rows = [[(x - m) / np.sqrt(v) for x in e] for e in rows]
    pay = PAY(z, np.array(rows), (sigma, dt, b), (S, K, t, r, b, sigma))
    return sum(list(pay)) / len(rows)


def wiener(eps, sigma, dt, b):
    return [[(b - sigma ** 2 / 2) * dt + sigma * np.sqrt(dt) * x for x in e] for e in eps]


def mc_payoff(asian, z, inc, S, K, t, r):
    """discounted payoff of each path of log increments."""
    out = []
    for e in inc:
        prices = []
        s = 0
        for x in e:
            s = s + x
            prices.append(S * np.exp(s))
        p = sum(prices) / len(prices) if asian else prices[len(prices) - 1]
        out.append(np.exp(-r * t) * np.maximum(z * (p - K), 0))
    return out
