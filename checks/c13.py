# -*- coding: utf-8 -*-
"""C13: table cells are laid out in rows by the declared row counts"""
from lib import convert


def run(ctx):
    ctx.exhaustive = True
    for c in (dict(Kinds='{"P", "T", "B", "L"}', Texts='<-OneTexts', MaxRecs=ctx.pick(7, 8), MaxLevel=2, RowVecs='<-FewRows'),
              dict(Kinds='{"P", "T", "B", "L"}', Texts='<-OnlyTable', MaxRecs=ctx.pick(7, 8), MaxLevel=2, RowVecs='<-ManyRows'),
              dict(Kinds='{"P", "T", "B", "L"}', Texts='<-OneTexts', MaxRecs=ctx.pick(8, 10), MaxLevel=4, RowVecs='<-TwoRows')):
        convert.replay(ctx, c, ctx.rng, ctx.pick(2000, 40000))
    convert.validate(ctx, ctx.pick(120, 2000), kinds='TTTCN')
