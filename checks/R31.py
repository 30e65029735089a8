import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
from check import Check
c = Check('R31')
c.harness(c.exe('isospin', ['isospin.cc'], cfg='asan', core='auto'))
c.finish('All Clebsch-Gordan coefficients with spins up to 4 and random states of the full particle list, compared with Racah\'s formula and sum rules; distinct: by arguments or multiplets.')
