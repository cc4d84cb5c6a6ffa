"""Conservative goodness-of-fit tests (false-alarm probability < 1e-12)."""
import math


def chi2_threshold(df, z=7.5):
    """Wilson-Hilferty upper quantile; z=7.5 is a one-sided 3e-14 tail."""
    a = 2.0 / (9.0 * df)
    return df * (1 - a + z * math.sqrt(a)) ** 3


def chi2_fit(counts, probs, total):
    """Returns (stat, threshold) of observed counts against probabilities.

    Cells with small expectation are pooled.
    """
    pool_o = pool_e = 0.0
    stat, cells = 0.0, 0
    for c, p in zip(counts, probs):
        e = total * p
        if e < 8:
            pool_o += c
            pool_e += e
            continue
        stat += (c - e) ** 2 / e
        cells += 1
    if pool_e >= 8:
        stat += (pool_o - pool_e) ** 2 / pool_e
        cells += 1
    if cells < 2:
        return 0.0, 1.0
    return stat, chi2_threshold(cells - 1)


def binom_ok(k, n, p, z=7.5):
    """|k - np| within a Bernstein-type bound with negligible false alarm."""
    var = n * p * (1 - p)
    dev = abs(k - n * p)
    return dev <= z * math.sqrt(var) + z * z / 3 + 1e-9
