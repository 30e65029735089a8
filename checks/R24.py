import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
from check import Check
c = Check('R24')
c.harness(c.exe('pauli', ['pauli.cc'], cfg='asan', core='auto'), timeout=300)
c.finish('Random kernels, distances, particle lists, ensembles and excluded particles against the exact share of the '
         'truncated Gaussian in the sphere; frequency of blocking of random actions; distinct: by case.')
