import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
from check import Check
c = Check('R08')
c.harness(c.exe('grid', ['grid.cc'], cfg='asan', core='auto'))
c.finish('Random sets of particles in open and periodic search grids (clusters, walls, cell boundaries, holes, unformed particles): the pairs that share a cell or neighbouring cells are compared with all pairs within reach; distinct: configurations by size, cells and options.')
