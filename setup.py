#!/usr/bin/env python3-vt
"""Builds the SSA dumper and warms the Go build cache; offline."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import check
check.ssadump()
subprocess.run(['go', 'test', '-count=1', '-run', '^$', './...'], cwd=check.REPO, env=check.GOENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
