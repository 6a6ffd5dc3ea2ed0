#!/usr/bin/env python3
"""Build the facts driver and the dependencies of the witness crate (offline)."""
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "analysis"))
import core  # noqa: E402

p = core.extract()
print("facts: %d bytes" % os.path.getsize(p))
os.unlink(p)
