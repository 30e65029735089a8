import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
from check import Check
c = Check('R12')
c.harness(c.exe('list', ['list.cc'], cfg='asan', core='auto'), timeout=300)
c.finish('Random particle lists in all layouts, read through the list modi and compared with what was written; faulty lists, SMASH output read back, walls of the list box; distinct: by particle or fault.')
