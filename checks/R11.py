import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
from check import Check
import outs, work
c = Check('R11')
c.harness(c.exe('output', ['output.cc'], cfg='asan', core='auto'), timeout=300)
outs.outputs(c, c.exe('smash', smash=True), [f for f in work.families() if f != 'thermalizer'], 4 if c.thorough else 1)
c.finish('Random particles, events and interactions written by every output of particles, collisions, lattices and thermodynamic quantities, read back by readers of the documented formats of its own and compared with what was handed over; complete runs of random configurations of every family with all outputs at once, which must agree with each other; distinct: by content.')
