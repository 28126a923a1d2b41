#!/usr/bin/env python3
"""Rewrites the 'fixed:' lines of known_findings.txt from /repo's fix commits (never run by a check)."""
import subprocess, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = os.path.join(V, 'known_findings.txt')
rules = [('small_vector','C12'),('fixed_','C13'),('optional_unique_ptr','C14'),('UTF scanning','C10'),('string container','C11'),
 ('unterminated strings','C01'),('numbers too large','C01'),('skipped branch','C01'),('final alternatives','C03'),('after a field name','C01'),
 ('upper case letters','C02'),('escaped output','C07'),('character with a width','C06'),('not code points','C04'),('floating','C05'),
 ('precision of zero','C05'),('enumeration','C04'),('joining','C16'),('formatted_range','C08'),('background','C18'),('weekdays','C20')]
import sys
rules += [tuple(l.rstrip('\n').split('\t')) for l in open(os.path.join(V,'tools','known_rules.tsv'))] if os.path.exists(os.path.join(V,'tools','known_rules.tsv')) else []
keep = [l for l in open(P) if not l.startswith('fixed:')]
out = []
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','--grep=^fix:'], text=True).splitlines():
    h, s = l.split(' ',1); s = s[5:]
    pid = next((p for k,p in rules if k in s), None)
    if not pid: sys.exit('no property for: ' + l)
    out.append('fixed: property=%s %s %s\n' % (pid, h, s))
open(P,'w').writelines(keep + out)
