#!/usr/bin/env python3
"""Generates harness/src/gen_types.rs: default instances of every entity and object type with the versions that hold them (run by hand; the output is committed)."""
import re, xml.etree.ElementTree as ET
R = '/repo'
VERS = 'Version_1_0 Version_1_2 Version_1_40 Version_2_05 Version_2_10 Version_2_21 Version_2_22 Version_2_5 Version_2_6 R9 R10 R11 R12 R13 R14 R2000 R2004 R2007 R2010 R2013 R2018'.split()
def tag(e): return e.tag.split('}')[1]
def vr(e, lo): return (VERS.index(e.get('MinVersion')) if e.get('MinVersion') else lo), (VERS.index(e.get('MaxVersion')) if e.get('MaxVersion') else 20)
o = ['// Generated by tools/gen_types.py; do not edit.', '#![allow(clippy::all)]', 'use dxf::entities::*;', 'use dxf::objects::*;', '/// name, type strings in a file, first and last version, default instance']
for spec, el, lo in (('EntitiesSpec', 'Entity', 0), ('ObjectsSpec', 'Object', 13)):
    o.append('pub static %s: &[(&str, &[&str], u32, u32, fn() -> %sType)] = &[' % (el[:3].upper(), el))
    for e in ET.parse(R + '/spec/%s.xml' % spec).getroot():
        if tag(e) != el or e.get('Name') in (el, 'DimensionBase'): continue
        a, b = vr(e, lo)
        ts = [t.split(':')[0] for t in (e.get('TypeString') or '').split(',') if t]
        o.append('    ("%s", &[%s], %d, %d, || %sType::%s(Default::default())),' % (e.get('Name'), ', '.join('"%s"' % t for t in ts), a, b, el, e.get('Name')))
    o.append('];')
open('/verif/harness/src/gen_types.rs', 'w').write('\n'.join(o) + '\n')
