import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
import e2e
e2e.simple('R01', ('conserve',),
           'Every interaction of the collision log of randomised runs of all modi, and every event as a whole, must keep '
           'four-momentum, charge, baryon number, strangeness, charm and bottomness; every decay of every species of the '
           'particle list likewise. Distinct: reactions (process type, species in, species out).',
           harness=[('decays', ('conserve',), None),
                    ('action', ('conserve',), ('perform', 'phasespace', 'boxmodus'))],
           assumptions=['strings are fragmented by a stand-in for Pythia (standin/), which is not in the sandbox'])
