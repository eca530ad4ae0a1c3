"""C28: order flow, volume and correlation features equal their definitions at every bar."""
from mc.core import phase
from mc import feat

BOUNDS = ("every sequence of up to 5-7 bars over 5-6 (price, volume) rows including zero volume and missing values, windows 1-4 and all options; "
          "core functions and both transform backends; sequences of 4 bars also with micro and giant prices and volumes; compiled code on every sequence of up to 4 bars")
ASSUMPTIONS = ["volumes are not negative"]


@phase("definitions")
def definitions(ctx):
    feat.explore(ctx, feat.FLOW)


@phase("scales")
def scales(ctx):
    """the definitions in every unit of price and volume: nothing small is mistaken for nothing"""
    feat.explore(ctx, feat.FLOW, upto=(4, 4),
                 units=[dict(price=p, volume=v, x=v) for p, v in ((2.0 ** -20, 2.0 ** -18), (2.0 ** 17, 2.0 ** 30))])


@phase("magnitudes")
def magnitudes(ctx):
    feat.magnitudes(ctx, feat.FLOW)


@phase("long")
def long(ctx):
    """wide windows on long series"""
    feat.long(ctx, feat.FLOW)


@phase("jit", jit=True, shards=2, threads=4)
def jit(ctx):
    feat.explore(ctx, feat.FLOW, transforms=False, upto=(4, 5))
