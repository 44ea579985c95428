#!/usr/bin/env python3
"""Checks that the tools the checks need are present (everything is built from source by each check)."""
import shutil,sys
missing=[t for t in ("g++","clang++") if not shutil.which(t)]
if missing: print("missing:",missing)
sys.exit(1 if missing else 0)
