#!/usr/bin/env python3
"""check.py <PROPERTY> [--thorough]   decide one property on /repo's current tree"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import checker

if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    sys.exit(checker.main(a, tier))
