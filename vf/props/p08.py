"""Sapling signature digests (ZIP243)."""
from vf.core import sub
from vf.props import p07


@sub('P08', 'digest', p07.cases('sapling'), 3000,
     rule='joinsplits or shielded parts, or two inputs and two outputs')
def check(c, info):
    p07.run(c, info)


@sub('P08', 'wide', p07.WIDE, 160, rule='two inputs and two outputs')
def check_wide(c, info):
    p07.run_wide(c, info, 'sapling')
