import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
from check import Check
c = Check('R19')
c.harness(c.exe('num', ['num.cc'], cfg='asan', core='auto'))
c.finish('Random data, functions and arguments against definitions written in the harness (long double interpolation and splines, exact integrals and roots, local regression by definition, exact casts); distinct: by size, kind and argument.')
