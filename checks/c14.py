# -*- coding: utf-8 -*-
"""C14: list headers own their paragraphs; sections and columns enclose theirs"""
from lib import convert


def run(ctx):
    ctx.exhaustive = True
    for c in (dict(Kinds='{"P", "N", "L", "SD", "CD"}', Texts='<-TwoTexts', MaxRecs=ctx.pick(6, 7), Cols='{FALSE, TRUE}'),
              dict(Kinds='{"P", "G", "SC", "L", "SD", "D"}', Texts='<-OneTexts', MaxRecs=ctx.pick(8, 9)),
              dict(Kinds='{"P", "T", "B", "L"}', Texts='<-OneTexts', MaxRecs=ctx.pick(6, 7), RowVecs='<-OneRow', Cols='{FALSE, TRUE}'),
              dict(Kinds='{"P", "N", "L"}', Texts='<-OneTexts', MaxRecs=ctx.pick(9, 10), MaxLevel=4)):
        convert.replay(ctx, c, ctx.rng, ctx.pick(2500, 40000))
    convert.validate(ctx, ctx.pick(120, 2000))
