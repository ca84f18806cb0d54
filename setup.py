#!/usr/bin/env python3
"""Builds the extractor (the checks build it on demand as well)."""
import sys
sys.path.insert(0, '.')
from va import prog
prog.build_tool()
