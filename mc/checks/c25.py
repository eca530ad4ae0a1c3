"""C25: averages and volatility estimators equal their definitions at every bar."""
from mc.core import phase
from mc import feat

BOUNDS = ("every sequence of up to 4-8 bars over 3-6 values (missing values, flat windows) for 17 estimators, windows 1-4, all their options, all bar timings "
          "over 3 gaps for time-decayed estimators; core functions and both transform backends; compiled code on every sequence of up to 4 bars")
ASSUMPTIONS = ["a flat window has no z-score and no band position (NaN)", "variance ratios whose 4-bar variance is rounding noise are undefined"]


@phase("definitions")
def definitions(ctx):
    feat.explore(ctx, feat.VOLATILITY)


@phase("magnitudes")
def magnitudes(ctx):
    feat.magnitudes(ctx, feat.VOLATILITY)


@phase("long")
def long(ctx):
    """wide windows on long series"""
    feat.long(ctx, feat.VOLATILITY)


@phase("jit", jit=True, shards=4, threads=4)
def jit(ctx):
    feat.explore(ctx, feat.VOLATILITY, transforms=False, upto=(4, 5))
