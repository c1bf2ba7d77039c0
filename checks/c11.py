# -*- coding: utf-8 -*-
"""C11: each control object appears once, at its control character"""
from lib import convert


def run(ctx):
    ctx.exhaustive = True
    for c in (dict(Kinds='{"P", "C", "N", "L"}', Texts='<-NestTexts', MaxRecs=ctx.pick(6, 8)),
              dict(Kinds='{"P", "C"}', Alphabet='{"c", "i", "x"}', MaxText=ctx.pick(4, 5), MaxRecs=3, MaxLevel=1),
              dict(Kinds='{"P", "C", "D", "F"}', Alphabet='{"c", "x", "|"}', MaxText=ctx.pick(2, 3), MaxRecs=4, MaxLevel=2),
              dict(Kinds='{"P", "N", "L", "T", "B"}', Texts='<-TwoTexts', MaxRecs=ctx.pick(7, 8), MaxLevel=4, RowVecs='<-OneRow')):
        convert.replay(ctx, c, ctx.rng, ctx.pick(2500, 40000))
    convert.validate(ctx, ctx.pick(120, 2000))
