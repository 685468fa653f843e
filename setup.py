#!/usr/bin/env python3
"""Build the engine, the replay runner and the harness crates (checks rebuild them anyway)."""
import sys
sys.argv = ["check.py", "--build"]
import check
