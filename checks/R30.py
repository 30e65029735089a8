import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
from check import Check
c = Check('R30')
c.harness(c.exe('lattice', ['lattice.cc'], cfg='asan', core='auto'), only=('uniform', 'changes', 'custom'))
c.finish('Random clocks, steps, jumps, changes of the step, resets and lists of output times compared with exact integer times; distinct: by start and step.')
