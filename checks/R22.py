import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
from check import Check
c = Check('R22')
c.harness(c.exe('dens', ['dens.cc'], cfg='asan', core='auto'), timeout=300)
c.finish('All species of the table; random kernels, particle lists, lattices of all smearing and derivative modes against sums over particles and images; random energy-momentum tensors; distinct: by case.')
