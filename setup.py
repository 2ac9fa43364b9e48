#!/usr/bin/env python3
"""Build what the checks use, so that they need not."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import core
core.build_harness()
core.build_harness(watched=True)
core.build_cli()
print('ready')
