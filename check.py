#!/usr/bin/env python3
"""usage: check.py <property id> [--thorough]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import runner, props
if __name__ == '__main__':
    pid = sys.argv[1]
    if pid == '--setup':
        runner.produce(); print('facts ready'); sys.exit(0)
    fn, meta = props.PROPS[pid]
    sys.exit(runner.main(pid, fn, meta))
