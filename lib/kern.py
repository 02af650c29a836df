"""Independent definitions of the kernels."""
import math
import numpy as np


def _in(x, r):
    return np.abs(x) < r


def _tophat(n, x):
    """ n-fold convolution of the unit box with itself: the central B-spline of order n """
    x = np.abs(np.asarray(x, dtype=float))
    s = np.zeros_like(x)
    h = (n + 1) / 2
    for k in range(n + 2):
        t = np.maximum(h - k - x, 0.0)
        s = s + (-1) ** k * math.comb(n + 1, k) * (t ** n if n > 0 else (h - k - x > 0))
    return s / math.factorial(n)


DEF = {
    "Biweight": (lambda x: np.where(_in(x, 1), (1 - x * x) ** 2, 0.0), 16 / 15, 1.0),
    "CosSquare": (lambda x: np.where(_in(x, 1), np.cos(0.5 * np.pi * x) ** 2, 0.0), 1.0, 1.0),
    "Cosine": (lambda x: np.where(_in(x, 1), np.cos(0.5 * np.pi * x), 0.0), 4 / np.pi, 1.0),
    "Gauss": (lambda x: np.exp(-0.5 * x * x), math.sqrt(2 * math.pi), math.inf),
    "Lorentz": (lambda x: 1 / (1 + x * x), math.pi, math.inf),
    "Parabola": (lambda x: np.where(_in(x, 1), 1 - x * x, 0.0), 4 / 3, 1.0),
    "Triangle": (lambda x: np.where(_in(x, 1), 1 - np.abs(x), 0.0), 1.0, 1.0),
    "Tricube": (lambda x: np.where(_in(x, 1), (1 - np.abs(x) ** 3) ** 3, 0.0), 81 / 70, 1.0),
    "Triweight": (lambda x: np.where(_in(x, 1), (1 - x * x) ** 3, 0.0), 32 / 35, 1.0),
    "Uniform": (lambda x: np.where(_in(x, 1), 1.0, 0.0), 2.0, 1.0),
    "Huber": (lambda x: np.where(_in(x, 1), 1.0, 1 / np.maximum(np.abs(x), 1e-300)), math.inf, math.inf),
    "Sinc": (lambda x: np.sinc(x), 1.0, math.inf),
}
for _n in range(7):
    DEF["Tophat%d" % _n] = (lambda x, n=_n: _tophat(n, x) / _tophat(n, np.zeros(1))[0], None, (_n + 1) / 2)
