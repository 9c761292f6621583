#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE] [--facet NAME] [--scale F]"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))
import runner  # noqa

if __name__ == '__main__':
    sys.exit(runner.main(sys.argv[1:]))
