"""What each property's check analyses.

configs: feature sets the library is compiled with (quick / thorough)
all:     every specification, judged by the obligations in only
engine:  whether specifications are analysed (otherwise rules only)
floor:   least number of specification functions confirmed to exist (default
         configuration); fewer means that an anchor has gone missing
"""
import os

BASE = ()
ALT = [
    ('check_complete_parse', 'check_padding', 'invalid_range_checking'),
    ('relaxed_padding_invariant', 'enc_len_estimable_override', 'implicit_hexstring', 'index_binary_formatting', 'unfreeze_spanbuffer'),
    ('arrayvec_fixseq', 'arrayvec_limseq', 'smallvec_framestack', 'serde_impls'),
    ('@release',),      # wrapping arithmetic, no debug assertions
]
THOROUGH = [('check_complete_parse',), ('check_padding',), ('invalid_range_checking',),
            ('relaxed_padding_invariant',), ('enc_len_estimable_override',), ('implicit_hexstring',),
            ('index_binary_formatting',), ('expose_internal',),
            ('unfreeze_spanbuffer',), ('smallvec_framestack',), ('serde_impls',), ('arrayvec_fixseq',), ('arrayvec_limseq',)]

# each feature once more, in other company
MIXED = [('arrayvec_fixseq', 'check_padding'), ('arrayvec_limseq', 'implicit_hexstring', 'unfreeze_spanbuffer'),
         ('smallvec_framestack', 'check_complete_parse', 'enc_len_estimable_override', 'index_binary_formatting'),
         ('serde_impls', 'expose_internal', 'invalid_range_checking', 'relaxed_padding_invariant')]

PLAN = {
    'P01': dict(floor=34),
    'P02': dict(floor=34),
    'P03': dict(floor=34),
    'P04': dict(floor=36),
    'P05': dict(floor=134),
    'P06': dict(floor=30),
    'P07': dict(floor=67),
    'P08': dict(floor=34),
    'P09': dict(floor=147),
    'P10': dict(floor=12),
    'P11': dict(floor=21),
    'P12': dict(floor=72),
    'P16': dict(floor=23),
    'P17': dict(floor=149),
    'P18': dict(floor=7),
    'P19': dict(floor=28),
    'P20': dict(floor=20),
    'P21': dict(floor=18, alt=ALT + [('expose_internal',)]),
    'P22': dict(floor=12),
    'P23': dict(floor=39, alt=[ALT[3]]),
    'P24': dict(floor=23),
    'P25': dict(floor=25),
    'P28': dict(floor=69),
    'P29': dict(floor=11),
    'P30': dict(floor=15),
    'P31': dict(floor=22),
    'P14': dict(floor=51),
    'P33': dict(floor=58),
    'P34': dict(floor=29),
    'P27': dict(floor=22),
    'P13': dict(floor=1200, all=True, only=('no-ub', 'no-unreachable')),
    'P26': dict(floor=1200, all=True, beyond_base=True, alt=ALT[:3] + MIXED),
    'P32': dict(engine=False, alt=ALT[:3], rules=['forbidden']),
}


# beyond_base: only what the default configuration does not show as well
def configs(pid, tier):
    p = PLAN[pid]
    if os.environ.get('VP_BASE_ONLY'):   # screening of edits by tools/batch.py only
        return [BASE]
    c = [BASE] + p.get('alt', ALT)
    if tier == 'thorough':
        c = c + [x for x in THOROUGH if x not in c] if 'alt' not in p or p.get('beyond_base') else c
    return c
