#!/usr/bin/env python3
"""Rewrites known-findings.jsonl from the fix: commits of /repo (one record per repaired defect)."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = os.environ.get('PML_REPO', '/repo')
P = {'C01': '60c2fe1 0320396 df29e8b bd9a93f 7a6a454 bd2e643', 'C02': '00142ac f5c381e 26c18bf', 'C03': '6372bd7 4c5976a 55360a3', 'C12': '0402e60 b976769', 'C04': 'dc77db6',
     'C05': '4a6a558 28867e7 96be21b 7d23864 b36ecd3', 'C13': 'be09005 c89d639 bd7b717 1f7e9f9 104fd55', 'C07': '524bf8b f8e8a17', 'C21': 'f350729', 'C08': 'bf00fee 4ec9bd9',
     'C09': '0cb4804 a6359e2', 'C10': '1d7ca7a 383e1bd 1d2062b 876a008', 'C11': '267f735', 'C20': '11ef501 085a4f1', 'C15': '144d8a9 7335e23 b7a9bd6 8bba779',
     'C16': '10ae862 b891b7e 266c9d8 c2332ff d3d7f5d 74b398d 6729081', 'C17': '8f9ccc3 6ff1ef2 1a27a35 0faa3e4', 'C18': '3192571 6616466 3a3f6a2 30a2eaf 94f0dcb',
     'C19': 'e9b08ac fcb6c06 2d97146 d83060b c87a6ed ac9bb66 e52e377', 'C23': '4c9d252 053584d 481fa59', 'C24': 'f593e8b c715dcb'}
log = [l.split(' ', 1) for l in subprocess.check_output(['git', '-C', R, 'log', '--reverse', '--format=%h %s', 'cc060f2..HEAD'], text=True).splitlines()]
prop = {h: p for p, hs in P.items() for h in hs.split()}
out = []; n = {}
for h, s in log:
    if not s.startswith('fix: '): continue
    p = prop[h[:7]]; n[p] = n.get(p, 0) + 1
    out.append(json.dumps({'property': p, 'id': '%s-F%d' % (p, n[p]), 'status': 'fixed', 'note': 'fixed: property=%s %s %s' % (p, h[:7], s[5:])}))
open(V + '/known-findings.jsonl', 'w').write('\n'.join(out) + '\n'); print(len(out))
