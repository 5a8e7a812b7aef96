#!/usr/bin/env python3
"""Nothing is built: the checks read /repo's sources on every run. Makes the output folders."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ('evidence', 'replays'): os.makedirs(os.path.join(V, d), exist_ok=True)
