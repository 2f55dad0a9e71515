"""Exact numbers in traces: signed magnitudes in little-endian limbs of 15 bits (see spec/BigInt.tla)."""
from fractions import Fraction
LIMB = 15
MASK = (1 << LIMB) - 1

def enc(n):
    n = int(n)
    s = (n > 0) - (n < 0)
    n = abs(n)
    m = []
    while n:
        m.append(n & MASK)
        n >>= LIMB
    return {"s": s, "m": m}

def dec(d):
    n = 0
    for limb in reversed(d["m"]):
        n = (n << LIMB) | limb
    return d["s"] * n

def dyadic(x):
    """Finite float (or int) -> (mantissa, F) with x == mantissa * 2**-F, F minimal >= 0 or mantissa odd."""
    n, d = (x, 1) if isinstance(x, int) else float(x).as_integer_ratio()
    F = d.bit_length() - 1
    if F == 0 and n:
        tz = (n & -n).bit_length() - 1
        return n >> tz, -tz
    return n, F

def common(vals, Fmin):
    """[(m, F)] -> (mantissas, F) on the coarsest common grid that is at least as fine as 2**-Fmin."""
    F = max([Fmin] + [f for m, f in vals if m != 0])
    return [m << (F - f) if m else 0 for m, f in vals], F
