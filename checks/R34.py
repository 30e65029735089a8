import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/lib')
from check import Check
c = Check('R34')
c.harness(c.exe('text', ['text.cc'], cfg='asan', core='auto'))
c.finish('Random byte strings and UTF-8 texts against an independent SHA-256 and the definitions of the text functions; distinct: by text or length.')
