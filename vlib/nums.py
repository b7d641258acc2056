"""Comparisons of figures rounded to cents with exact references."""
from fractions import Fraction


def F(x):
    return Fraction(x)


def is_cents(x):
    """x is a number rounded to two decimals."""
    return round(x, 2) == x


def near(actual, exact, tol=0.005):
    """`actual` is `exact` (a Fraction) rounded to two decimals, or within tol."""
    slack = 1e-7 + 1e-11 * abs(float(exact))
    return abs(float(Fraction(actual) - exact)) <= tol + slack and is_cents(actual)


def close(actual, exact):
    """Equal up to float arithmetic."""
    return abs(float(Fraction(actual) - Fraction(exact))) <= 1e-7 + 1e-11 * abs(float(exact))
