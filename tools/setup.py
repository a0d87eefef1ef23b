#!/usr/bin/env python3
# builds the one native component (the MiniSat based equivalence back end)
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/vc')
import sweep
sweep.lib(); os.makedirs(V + '/evidence', exist_ok=True); print('ok')
