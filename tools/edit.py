"""edit.py FILE: replace stdin's text before the line '=====' by the text after it, in /tmp/seedwt/postgresql/FILE"""
import sys
a, b = sys.stdin.read().split('=====\n')
p = '/tmp/seedwt/postgresql/' + sys.argv[1]
s = open(p).read()
assert s.count(a) == 1, s.count(a)
open(p, 'w').write(s.replace(a, b))
