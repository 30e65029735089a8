import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
import e2e
e2e.simple('R06', ('history', 'form'),
           'Every outgoing particle of the collision log must carry the history of its interaction (mothers, process, number '
           'and time of the last collision) and the formation time that follows from the incoming ones. Distinct: reactions.',
           harness=[('decays', ('history', 'form'), None),
                    ('action', ('history', 'form'), ('perform', 'formation', 'inherit', 'propagation', 'point', 'boxmodus'))],
           assumptions=['strings are fragmented by a stand-in for Pythia (standin/), which is not in the sandbox'])
