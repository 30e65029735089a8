import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
from check import Check
c = Check('R21')
c.harness(c.exe('lattice', ['lattice.cc'], cfg='asan', core='auto'), only=('layout', 'regions', 'gradients'))
c.finish('Random lattices (sizes, cells, origins, periodic or not) and points inside and outside: indices, values, regions, neighbours, gradients and rebuilding against direct definitions; distinct: by size and cell.')
