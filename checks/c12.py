# -*- coding: utf-8 -*-
"""C12: converted documents are always balanced, also with fields"""
from lib import convert


def run(ctx):
    ctx.exhaustive = True
    for c in (dict(Kinds='{"P", "F"}', Alphabet='{"c", "x", "e"}', MaxText=3, MaxRecs=ctx.pick(3, 4), MaxLevel=1),
              dict(Kinds='{"P", "F"}', Texts='<-LineTexts', MaxRecs=ctx.pick(6, 7), MaxLevel=1),
              dict(Kinds='{"P", "F", "N", "L", "D"}', Texts='<-FieldTexts', MaxRecs=ctx.pick(6, 7)),
              dict(Kinds='{"P", "F", "T", "B", "L"}', Texts='<-FieldTexts', MaxRecs=ctx.pick(6, 7), RowVecs='<-OneRow'),
              dict(Kinds='{"P", "F", "G", "SC", "L"}', Texts='<-FieldTexts', MaxRecs=ctx.pick(7, 8))):
        convert.replay(ctx, c, ctx.rng, ctx.pick(1300, 40000))
    convert.validate(ctx, ctx.pick(150, 2000), kinds='FFCNTGD')
    convert.wellformed(ctx)
