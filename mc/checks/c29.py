"""C29: calendar, bar-timing and candle features follow their definitions."""
from mc.core import phase
from mc import feat

BOUNDS = ("session, hour, minute, day and week boundaries +-1 ns and +-1 s over two weeks, leap day, year end, epoch and 2100; every bar timing over 4-5 gaps up to 5 bars; "
          "every subset of 9 bars around midnights over 5 days; opening ranges for every 3-bar continuation of 3 ranges at 5 phases of the day; compiled session code")
ASSUMPTIONS = ["bars are 15 minutes for the opening range, as documented"]


@phase("definitions")
def definitions(ctx):
    feat.explore(ctx, feat.TIME)


@phase("magnitudes")
def magnitudes(ctx):
    feat.magnitudes(ctx, feat.TIME)


@phase("jit", jit=True, shards=1, threads=4)
def jit(ctx):
    feat.explore(ctx, feat.TIME, transforms=False, upto=(4, 5))
