import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
from check import Check
c = Check('R17')
c.harness(c.exe('xs', ['xs.cc'], cfg='asan', core='auto'), timeout=600)
c.finish('Energies over the whole range of every parametrization, the ends of the pieces preferred, against the published formulas and the smoothed data; photon totals against the numerical integral of the differential cross section for random rho masses and energies; distinct: by function and energy.')
