import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
from check import Check
c = Check('R18')
c.harness(c.exe('dist', ['dist.cc'], cfg='plain', core='auto'), timeout=300)
c.finish('Every random distribution with random parameters, tens of thousands of samples of each, against its definition; distinct: by distribution and parameters.')
