#!/usr/bin/env python3
"""writes known-findings.json: the repairs committed in /repo (a fixed entry suppresses nothing)"""
import subprocess, json, os
M = """143dca1 C04;f500af1 C01;b0d096c C10;56724ad C10;19bc60f C05;902b5ed C07;2d42b7a C08 C03;fe95d5d C03 C09;d44c3d7 C08 C01 C03;e20272d C18;ef2f406 C18;88478f7 C17;e7f8c8e C17;dacf999 C21;c9565ce C15;8630e24 C14;774ab5b C14;f90e614 C19;8b5230c C19;27637e9 C19;a3ed97d C19;ecebe92 C03;8408fa8 C03;6afb1c3 C03 C09;7189111 C12 C06;2e6e649 C10;4f29f84 C04;3e10a86 C14 C06 C12;1b8163b C05;5edd524 C06 C12;ad6ef6e C06 C01;a8a4cb8 C12;860c5e5 C14 C15;caf9489 C15;a27a0d7 C14 C15;230e902 C15;32c3be2 C19;7ea4ff2 C18;2e39e6c C16;6c47663 C18;2b57395 C05 C06;3a6d2fe C08;b15cf29 C08;f292f60 C08 C01;7f32e88 C09 C03;1563a59 C11 C06;13885c6 C14;03661a8 C19;004107f C10;d3a6240 C09"""
FIND = []
out = []
for e in M.split(';'):
    h, *ps = e.split()
    s = subprocess.run(['git', '-C', '/repo', 'log', '-1', '--format=%h %s', h], capture_output=True, text=True).stdout.strip()
    sha, msg = s.split(' ', 1)
    for p in ps: out.append('fixed: property=%s %s %s' % (p, sha, msg.replace('fix: ', '', 1)))
json.dump({'findings': FIND, 'fixed': out}, open(os.path.dirname(os.path.abspath(__file__)) + '/../known-findings.json', 'w'), indent=1)
