"""Command line: python -m mc.run C05 [--tier quick|thorough] [--replay FILE]"""
import argparse
import sys

from . import engine

if __name__ == '__main__':
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('--tier', choices=('quick', 'thorough'))
    p.add_argument('--replay')
    p.add_argument('--workers', type=int)
    a = p.parse_args()
    code = engine.main(a.property.upper(), a.tier, a.replay, a.workers)
    sys.stdout.flush()
    sys.exit(code)
