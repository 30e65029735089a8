import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
from check import Check
c = Check('R20')
c.harness(c.exe('vec', ['vec.cc'], cfg='asan', core='auto'))
c.finish('Random vectors, velocities, rotations, angles, masses and energies against long double formulas, with inverses and invariants; distinct: by argument.')
