import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
import e2e
e2e.simple('R02', ('once',),
           'The collision log is replayed against a map from ids to particles: what comes in must exist, what goes out must '
           'be new or keep its identity, the final list must be what is left. Distinct: reactions (process type, '
           'species in, species out).',
           harness=[('decays', ('once',), None),
                    ('action', ('once',), ('perform', 'stale'))],
           assumptions=['strings are fragmented by a stand-in for Pythia (standin/), which is not in the sandbox'])
