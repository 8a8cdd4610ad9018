#!/usr/bin/env python3
"""runs the front end's reader on a file"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'frontend'))
try:
    import network
    print(*network.read_undirected_network(sys.argv[1]))
except Exception as e:
    print('%s: %s' % (type(e).__name__, e), file=sys.stderr); sys.exit(1)
