#!/usr/bin/env python3
"""Generates harness/src/gen_conv.rs (run by hand; the output is committed, so the numbers do not follow later changes of /repo)."""
import re, xml.etree.ElementTree as ET
R = '/repo'
src = open(R + '/src/enums.rs').read()
en = {}
for m in re.finditer(r'enum_from_primitive!\s*\{\s*(?:#\[[^\n]*\]\s*)*pub enum (\w+)\s*\{(.*?)\}\s*\}', src, re.S):
    body = re.sub(r'//[^\n]*', '', m.group(2))
    vs = []
    nxt = 0
    for v in re.findall(r'(\w+)\s*(?:=\s*(-?\w+))?\s*,?', re.sub(r'#\[[^\]]*\]', '', body)):
        if not v[0]: continue
        n = int(v[1], 0) if v[1] else nxt
        nxt = n + 1
        vs.append((v[0], n))
    en[m.group(1)] = vs
o = ['// Generated by tools/gen_conv.py; do not edit.', 'use dxf::enums::*;', 'use enum_primitive::FromPrimitive;', 'pub type Conv = (&\'static str, fn(i64) -> Option<i64>, &\'static [(&\'static str, i64)]);', 'pub static ENUMS: &[Conv] = &[']
for n, vs in sorted(en.items()):
    o.append('    ("%s", |v| %s::from_i64(v).map(|x| x as i64), &[%s]),' % (n, n, ', '.join('("%s", %s::%s as i64 - (%d))' % (a, n, a, b) if 0 else '("%s", %d)' % (a, b) for a, b in vs)))
o.append('];')
o.append('/// the number of every variant')
o.append('pub static NUMS: &[(&str, i64, i64)] = &[')
for n, vs in sorted(en.items()):
    for a, b in vs: o.append('    ("%s::%s", %s::%s as i64, %d),' % (n, a, n, a, b))
o.append('];')
H = []
for v in ET.parse(R + '/spec/HeaderVariablesSpec.xml').getroot():
    if v.tag.split('}')[1] != 'Variable': continue
    m = re.search(r'enum_from_number!\((\w+),\s*(\w+),\s*(\w+),', v.get('ReadConverter') or '')
    if m and m.group(1) in en:
        d = dict(en[m.group(1)])
        lo = v.get('MinVersion') or ''; hi = v.get('MaxVersion') or ''
        H.append((v.get('Name'), v.get('Code'), m.group(3), [b for _, b in en[m.group(1)]], d[m.group(2)], lo, hi))
o.append('/// header variable, code, numbers of its variants, number it takes for an unknown one')
o.append('pub static HDR: &[(&str, u32, &[i64], i64)] = &[')
for n, c, f, vs, d, lo, hi in H:
    if hi: print('skipped', n, hi); continue
    o.append('    ("$%s", %s, &%s, %d),' % (n, c, vs, d))
o.append('];')
open('/verif/harness/src/gen_conv.rs', 'w').write('\n'.join(o) + '\n')
print(len(en), len(H))
