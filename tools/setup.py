#!/usr/bin/env python3
"""Builds the fact extractor (a rustc driver) from the committed sources."""
import os, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa'))
import facts
t = time.time()
facts.driver()
print('driver ready in %.1f s' % (time.time() - t))
