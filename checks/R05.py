import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
import e2e
e2e.simple('R05', ('shell', 'qn'),
           'Every particle of the initial, final and interaction blocks must be on its mass shell, of a known species, '
           'with the pole mass if stable and above its decay threshold if not. Distinct: reactions.',
           harness=[('decays', ('shell',), None),
                    ('action', ('shell',), ('phasespace', 'boxmodus'))],
           assumptions=['strings are fragmented by a stand-in for Pythia (standin/), which is not in the sandbox'])
