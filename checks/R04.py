import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
import e2e
e2e.simple('R04', ('free', 'time'),
           'Between two entries of the collision log every particle must have moved on a straight line, the entries must be in '
           'order of time and not later than the end time, at which every particle ends. Distinct: reactions.',
           harness=[('action', ('free', 'time'), ('propagation', 'point'))],
           assumptions=['strings are fragmented by a stand-in for Pythia (standin/), which is not in the sandbox'])
