import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
from check import Check
c = Check('R26')
c.harness(c.exe('nuclei', ['nuclei.cc'], cfg='asan', core='auto'), timeout=400)
c.finish('Nuclei of every mass number, random shapes, orientations and files, and collisions with the energy given in each '
         'way in each frame, against the documented formulas, kinematics and distributions; distinct: by case.')
