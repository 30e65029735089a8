import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
from check import Check
c = Check('R13')
c.harness(c.exe('config', ['config.cc'], cfg='asan', core='auto'), timeout=300)
c.finish('Every key of the program with values of its type, wrong values and no value; random configurations under random sequences of operations against a tree of its own; configurations with one wrong key; damaged files; distinct: by configuration.')
