#!/usr/bin/env python3
"""Generates harness/src/gen_flags.rs (run by hand; the output is committed, so masks do not follow later changes of /repo/spec)."""
import re, sys, xml.etree.ElementTree as ET
R = '/repo'
def tag(e): return e.tag.split('}')[1]
items = []   # (type expr, label, [(raw field, rust int type, flag, mask)])
for spec, el in (('EntitiesSpec', 'Entity'), ('ObjectsSpec', 'Object')):
    for e in ET.parse(R + '/spec/%s.xml' % spec).getroot():
        if tag(e) != el: continue
        fl = [(f.get('Name'), f.get('Type'), g.get('Name'), g.get('Mask')) for f in e if tag(f) == 'Field' for g in f if tag(g) == 'Flag']
        if fl: items.append((e.get('Name'), fl))
fl = [(v.get('Field'), v.get('Type'), g.get('Name'), g.get('Mask')) for v in ET.parse(R + '/spec/HeaderVariablesSpec.xml').getroot() if tag(v) == 'Variable' for g in v if tag(g) == 'Flag']
items.append(('Header', fl))
for t, f, raw in (('Block', 'block', 'flags'), ('Class', 'class', 'proxy_capability_flags')):
    s = open(R + '/src/%s.rs' % f).read()
    items.append((t, [(raw, 'i32', n, m) for n, m in re.findall(r'pub fn (\w+)\(&self\) -> bool \{\s*self\.flag\((\d+)\)', s)]))
o = ['// Generated by tools/gen_flags.py; do not edit.', '#![allow(non_snake_case, clippy::all)]', 'use crate::sx;', 'use dxf::entities::*;\nuse dxf::objects::*;\nuse dxf::*;\n']
for t, fl in items:
    raws = []
    for r, ty, n, m in fl:
        if (r, ty) not in raws: raws.append((r, ty))
    o.append('fn f_%s() {' % t)
    pub = {}
    for r, ty, n, m in fl:
        o.append('    { let mut x = %s::default();' % t)
        for r2, ty2 in raws: o.append('      let r_%s = sx::%s(); x.%s = r_%s;' % (r2, ty2, r2, r2))
        o.append('      let b = sx::bool_();')
        o.append('      sx::check(x.%s() == (r_%s & %s != 0), "%s.%s: getter does not reflect the stored bit");' % (n, r, m, t, n))
        o.append('      x.set_%s(b);' % n)
        o.append('      sx::check(x.%s() == b, "%s.%s: getter does not return what was set");' % (n, t, n))
        for r2, ty2 in raws:
            if r2 == r: o.append('      sx::check(x.%s == if b { r_%s | %s } else { r_%s & !%s }, "%s.%s: setter changes other bits");' % (r, r, m, r, m, t, n))
            else: o.append('      sx::check(x.%s == r_%s, "%s.%s: setter changes other bits");' % (r2, r2, t, n))
        for r2, ty2, n2, m2 in fl:
            if n2 != n and (r2 != r or int(m2) & int(m) == 0): o.append('      sx::check(x.%s() == (r_%s & %s != 0), "%s.%s: setter changes %s");' % (n2, r2, m2, t, n, n2))
        o.append('    }')
    o.append('}')
o.append('pub static TAB: &[fn()] = &[%s];' % ', '.join('f_' + t for t, _ in items))
open('/verif/harness/src/gen_flags.rs', 'w').write('\n'.join(o) + '\n')
print(len(items), sum(len(f) for _, f in items), [(t, {(r, ty) for r, ty, n, m in f}) for t, f in items])
