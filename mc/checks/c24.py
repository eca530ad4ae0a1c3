"""C24: return and momentum features equal their definitions at every bar."""
from mc.core import phase
from mc import feat

BOUNDS = ("every sequence of up to 4-8 bars over 3-6 price patterns (zeros, missing, flat, negative where meaningful) for every feature and window 1-3, "
          "all bar timings over 6 gaps up to 5 bars for time-lagged returns; runs of up to 700 bars; core functions and both transform backends; "
          "compiled code on every sequence of up to 4 bars")
ASSUMPTIONS = ["RSI, ADX and direction runs are explored without missing values (their treatment is not documented)"]


@phase("definitions")
def definitions(ctx):
    feat.explore(ctx, feat.MOMENTUM)


@phase("magnitudes")
def magnitudes(ctx):
    feat.magnitudes(ctx, feat.MOMENTUM)


@phase("long")
def long(ctx):
    """wide windows on long series"""
    feat.long(ctx, feat.MOMENTUM)


@phase("jit", jit=True, shards=2, threads=4)
def jit(ctx):
    feat.explore(ctx, feat.MOMENTUM, transforms=False, upto=(4, 5))
