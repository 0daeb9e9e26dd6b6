"""Reference definitions, written from the standard and the documentation.

Integers are exact (Python integers or 64 bit sums that cannot overflow),
everything else is computed in extended precision with two-pass formulas.
"""
import numpy as np

LD = np.longdouble


# ------------------------------------------------------------------ image reduction
def reduce_exact(imgs):
    """sum and pseudo-variance per pixel as Python integers (object arrays), mean difference."""
    obj = [np.asarray(np.ma.getdata(i)).astype(object) for i in imgs]
    L = len(imgs)
    s = obj[0] * 0
    q = obj[0] * 0
    for o in obj:
        s = s + o
        q = q + o * o
    return {'L': L, 'sum': s, 'pvar': L * (L * q - s * s), 'dmean': mean(imgs[-1]) - mean(imgs[0])}


def reduce_int64(imgs):
    """The same with 64 bit integers, for value ranges that cannot overflow."""
    st = np.stack([np.asarray(np.ma.getdata(i)).astype(np.int64) for i in imgs])
    L = len(imgs)
    m = int(np.abs(st).max()) if st.size else 0
    assert L ** 3 * m * m < 2 ** 62, 'reference would overflow'
    s = st.sum(axis=0)
    return {'L': L, 'sum': s, 'pvar': L * (L * (st * st).sum(axis=0) - s * s), 'dmean': mean(imgs[-1]) - mean(imgs[0])}


def mean(img):
    """Mean of an integer image (unmasked pixels)."""
    if isinstance(img, np.ma.MaskedArray):
        img = img.compressed()
    a = np.asarray(img).astype(np.int64)
    return float(LD(int(a.sum())) / LD(a.size))


def totals(red):
    return {'sum': int(np.sum(red['sum'])), 'pvar': int(np.sum(red['pvar'])), 'dmean': red['dmean']}


# ------------------------------------------------------------------ temporal
def pair_stats(a, b):
    """Mean and temporal variance of an image pair."""
    a, b = np.asarray(a).astype(np.int64), np.asarray(b).astype(np.int64)
    n = a.size
    m = (LD(int(a.sum())) + LD(int(b.sum()))) / (2 * n)
    d = a - b
    msq = LD(int((d * d).sum())) / n
    md = LD(int(d.sum())) / n
    return float(m), float(msq / 2 - md * md / 2)


# ------------------------------------------------------------------ spatial
def stack_stats(imgs):
    """mean, variance of the mean image, mean temporal variance, column/row average variances."""
    st = np.stack([np.asarray(i).astype(np.int64) for i in imgs])
    L, M, N = st.shape
    s = st.sum(axis=0)
    avg = s.astype(LD) / L
    mu = LD(int(s.sum())) / (LD(L) * M * N)
    var = np.mean(((st.astype(LD) - avg) ** 2).sum(axis=0) / (L - 1))
    tot = ((avg - mu) ** 2).sum() / (LD(M) * N - 1)
    cols = s.sum(axis=0).astype(LD) / (LD(L) * M)        # mean of every column
    rows = s.sum(axis=1).astype(LD) / (LD(L) * N)        # mean of every row
    cav = ((cols - mu) ** 2).sum() / N - var / (LD(L) * M)
    rav = ((rows - mu) ** 2).sum() / M - var / (LD(L) * N)
    return {'L': L, 'M': M, 'N': N, 'sum': s, 'avg_mean': float(mu), 'avg_var': float(tot), 'var_mean': float(var),
            'avg_var_cav': float(cav), 'avg_var_rav': float(rav)}


def split(st):
    """Total, row, column and pixel variance of a stack (EMVA 1288 release 4)."""
    L, M, N = st['L'], st['M'], st['N']
    s = LD(st['avg_var']) - LD(st['var_mean']) / L
    cav, rav = LD(st['avg_var_cav']), LD(st['avg_var_rav'])
    D = LD(M * N - M - N)
    col = (M * N - M) / D * cav - N / D * (s - rav)
    row = (M * N - N) / D * rav - M / D * (s - cav)
    pix = M * N / D * (s - cav - rav)
    return {'total': float(s), 'col': float(col), 'row': float(row), 'pixel': float(pix)}


# ------------------------------------------------------------------ fits
def slope0(x, y):
    x, y = np.asarray(x, LD), np.asarray(y, LD)
    return float((x * y).sum() / (x * x).sum())


def line(x, y, w=None):
    """Slope and offset of the (weighted: w multiplies the residual) least-squares line."""
    x, y = np.asarray(x, LD), np.asarray(y, LD)
    w2 = np.ones_like(x) if w is None else np.asarray(w, LD) ** 2
    xm, ym = (w2 * x).sum() / w2.sum(), (w2 * y).sum() / w2.sum()
    a = (w2 * (x - xm) * (y - ym)).sum() / (w2 * (x - xm) ** 2).sum()
    return float(a), float(ym - a * xm)


# ------------------------------------------------------------------ saturation and ranges
def last_le(y, v):
    i = [k for k in range(len(y)) if y[k] <= v]
    return i[-1]


def first_ge(y, v):
    i = [k for k in range(len(y)) if y[k] >= v]
    return i[0]
