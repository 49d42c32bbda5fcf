#!/usr/bin/env python3
"""Setup: makes sure the extractor runs (uses the committed binary when it matches its source, else compiles it)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fv import facts
print(facts.extractor())
