#!/usr/bin/env python3
"""Decides one property for /repo's current tree. See DESIGN.md.

usage: check.py P01..P20        (VERIF_SEED, VERIF_TIER=quick|thorough)
"""
import json
import os
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))
import engine  # noqa: E402
import tools   # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        with tools.scratch('check') as work:
            return engine.Check(prop, tier, seed, work).main()
    except tools.ToolError as e:
        print(f'TOOL ERROR: {e}')
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
