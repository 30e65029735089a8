import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
import e2e
e2e.simple('R07', ('box',),
           'Particles of box runs stay within the box, wall crossings shift one or more coordinates by the box length and '
           'change nothing else. Distinct: reactions.',
           families=['box', 'box_thermal', 'box_elastic', 'stochastic', 'multi', 'deuterons'], copies=(8, 80),
           harness=[('action', ('box',), ('walls', 'boxmodus'))],
           assumptions=['strings are fragmented by a stand-in for Pythia (standin/), which is not in the sandbox'])
