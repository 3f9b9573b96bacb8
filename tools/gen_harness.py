#!/usr/bin/env python3
"""Generates harness/src/gen_*.rs: the per-type, per-field round-trip harnesses.

Run once by hand when the harnesses are (re)designed: the output is committed and is *not* regenerated by a
check, so what a field is expected to do does not follow a later change of /repo/spec.
"""
import re, sys, xml.etree.ElementTree as ET
R = sys.argv[1] if len(sys.argv) > 1 else '/repo'
OUT = '/verif/harness/src/'
VERS = 'Version_1_0 Version_1_2 Version_1_40 Version_2_05 Version_2_10 Version_2_21 Version_2_22 Version_2_5 Version_2_6 R9 R10 R11 R12 R13 R14 R2000 R2004 R2007 R2010 R2013 R2018'.split()
VI = {v: i for i, v in enumerate(VERS)}
enums = {}
src = open(R + '/src/enums.rs').read()
for m in re.finditer(r'pub enum (\w+)\s*\{(.*?)\n\}', src, re.S):
    body = re.sub(r'//.*', '', m.group(2))
    enums[m.group(1)] = re.findall(r'^\s*(\w+)\s*(?:=|,|$)', body, re.M)
def vr(e, lo=0, hi=20):
    return VI[e.get('MinVersion')] if e.get('MinVersion') else lo, VI[e.get('MaxVersion')] if e.get('MaxVersion') else hi
def tag(e): return e.tag.split('}')[1]
def short(t): return t
class F:
    pass
def dom(f):
    wc = f.get('WriteConverter') or ''
    t = f.get('Type')
    d = []
    if t in ('i32',) and ('as i16' in wc): d.append('I16')
    if t in ('i32',) and 'f64::from' in wc: d.append('I32')
    co = f.get('CodeOverrides')
    if t in ('Point', 'Vector') and co and len(co.split(',')) == 2: d.append('XY')
    if f.get('Code') == '-2': d.append('XY')
    return '|'.join(d) or 'ANY'
LIST2D = 'XY'
DOM = {('Image', 'clipping_vertices'): 'XY', ('Wipeout', 'clipping_vertices'): 'XY', ('DgnUnderlay', 'points'): 'XY', ('DwfUnderlay', 'points'): 'XY', ('PdfUnderlay', 'points'): 'XY',
       ('GeoData', 'face_indices'): 'INT', ('Layer', 'color'): 'IDX', ('Layer', 'is_layer_on'): 'ANY', ('SpatialFilter', 'transformation_matrix'): 'XY', ('SpatialFilter', 'inverse_transformation_matrix'): 'XY',
       ('Header', 'halo_gap_percent'): 'INT16'}
# what a field reads back as, where that is not the value written
EXPECT = {('Image', 'clipping_vertex_count'): '&(e0.clipping_vertices.len() as i32)', ('Wipeout', 'clipping_vertex_count'): '&(e0.clipping_vertices.len() as i32)', ('Leader', 'vertex_count'): '&(e0.vertices.len() as i32)',
          ('LwPolyline', 'vertices'): '&lw_ids(&e0.vertices, v)'}
MINV = {('Dictionary', 'is_hard_owner'): 15, ('Dictionary', 'duplicate_record_handling'): 15, ('DictionaryWithDefault', 'duplicate_record_handling'): 15}
MINV[('Material', 'normal_map_transformation_matrix')] = 17
# stored only when another field says so
COND = {}
for _f in 'ucs_origin ucs_x_axis ucs_y_axis orthographic_view_type ucs_elevation ucs base_ucs'.split():
    COND['View', _f] = 'e0.is_associated_ucs_present'; COND['ViewPort', _f] = 'e0.has_own_ucs'
INIT = {'View': 'e.is_associated_ucs_present = true;', 'ViewPort': 'e.has_own_ucs = true;'}
SKIP = {  # fields outside the entity/object round trip: (type, field) -> why
    ('Insert', '__attributes_and_handles'): 'C22', ('Polyline', '__vertices_and_handles'): 'C22',
    ('Attribute', 'm_text'): 'C22', ('AttributeDefinition', 'm_text'): 'C22',
    ('RotatedDimension', 'dimension_base'): '', ('DimensionBase', 'actual_measurement'): '',
    ('Entity', 'handle'): 'C12', ('Entity', 'owner'): 'C12', ('Entity', 'extension_data_groups'): 'C21', ('Entity', 'x_data'): 'C21',
}
def fields(el, tname):
    wo = [c for c in el if tag(c) == 'WriteOrder']
    written = None
    if wo:
        txt = ET.tostring(wo[0], encoding='unicode')
        written = txt
    out = []
    for f in el:
        if tag(f) not in ('Field', 'Pointer'): continue
        n = f.get('Name')
        if (tname, n) in SKIP or 'DateTime' in (f.get('Type') or ''): continue
        x = F()
        x.multi = f.get('AllowMultiples') == 'true'
        if tag(f) == 'Pointer':
            x.rust = '__%s_handle' % n; x.dom = 'ANY'; x.label = n
        else:
            if n.startswith('__') or n.startswith('_'): continue
            x.rust = n; x.dom = DOM.get((tname, n)) or dom(f); x.label = n
        x.ty = f.get('Type')
        x.lo, x.hi = vr(f)
        x.lo = max(x.lo, MINV.get((tname, n), 0))
        if written is not None and not re.search(r'\b%s\b' % re.escape(n), written):
            x.unwritten = True
        else: x.unwritten = False
        out.append(x)
    return out

o = []
w = o.append
w('// Generated by tools/gen_harness.py; do not edit.')
w('#![allow(non_snake_case, clippy::all)]')
w('use crate::sym::*;\nuse crate::rt::*;\nuse dxf::entities::*;\nuse dxf::enums::*;\nuse dxf::*;\n')
ents = ET.parse(R + '/spec/EntitiesSpec.xml').getroot()
table = []
base = None
def emit(kind, tname, lo, hi, fl, path, mk, get, dflt, extra_init='', nf0=0):
    """path(f) -> field path in struct"""
    fn = 'rt_%s_%s' % (kind, tname)
    w('fn %s(c: &Cx) {' % fn)
    w('    let d = %s;\n    let mut e = d.clone();' % dflt)
    if extra_init: w('    ' + extra_init)
    w('    let v = c.ver(%d, %d); let f = c.field(%d);' % (lo, hi, len(fl)))
    for i, f in enumerate(fl):
        w('    if c.on(f, %d) { e.%s = Sy::sy(&d.%s, f == 0, %s); }' % (i + 1, path(f), path(f), f.dom))
    w('    let e0 = e.clone();')
    w('    let r = %s;' % mk)
    w('    if let Some(r) = r {')
    for i, f in enumerate(fl):
        cond = []
        if f.lo > lo: cond.append('v >= %d' % f.lo)
        if f.hi < hi: cond.append('v <= %d' % f.hi)
        if (tname, f.label) in COND: cond.append(COND[tname, f.label])
        exp = '&e0.%s' % path(f)
        if cond: exp = 'if %s { &e0.%s } else { &d.%s }' % (' && '.join(cond), path(f), path(f))
        exp = EXPECT.get((tname, f.label), exp)
        w('        c.chk(r.%s.same(%s), "%s.%s", v);' % (path(f), exp, tname, f.label))
    w('    }')
    w('}')
    table.append((kind, tname, fn, lo, hi, len(fl)))
for el in ents:
    if tag(el) != 'Entity': continue
    t = el.get('Name')
    lo, hi = vr(el)
    if t == 'DimensionBase':
        dimb = fields(el, t); continue
    if t in ('Seqend', 'Vertex'): continue
    if t == 'Entity':
        base = fields(el, t); continue
    fl = fields(el, t)
    if el.get('BaseClass') == 'DimensionBase':
        for f in dimb:
            g = F(); g.__dict__.update(f.__dict__); g.rust = 'dimension_base.' + f.rust; fl.append(g)
    emit('e', t, lo, hi, fl, lambda f: f.rust, 'rt_ent(c, "%s", EntityType::%s(e), v).and_then(|s| if let EntityType::%s(x) = s.specific { Some(x) } else { c.chk(false, "%s: loaded as another type", v); None })' % (t, t, t, t), None, '%s::default()' % t)
# common part, carried by a Line
fl = base
emit('e', 'EntityCommon', 0, 20, fl, lambda f: f.rust, 'rt_common(c, e, v)', None, 'EntityCommon::default()')
E1 = list(table); table = []
objs = ET.parse(R + '/spec/ObjectsSpec.xml').getroot()
plot = None
allobjs = [e for e in objs if tag(e) == 'Object']
plot = fields([e for e in allobjs if e.get('Name') == 'PlotSettings'][0], 'PlotSettings')
o_e = o
o = []; w = o.append
w('// Generated by tools/gen_harness.py; do not edit.')
w('#![allow(non_snake_case, clippy::all)]')
w('use crate::sym::*;\nuse crate::rt::*;\nuse dxf::objects::*;\nuse dxf::enums::*;\nuse dxf::*;\n')
SPECIAL = {'DataTable', 'SunStudy'}
for el in allobjs:
    t = el.get('Name')
    if t == 'Object' or t in SPECIAL: continue
    lo, hi = vr(el, 13)
    fl = fields(el, t)
    if t == 'VbaProject': pass
    emit('o', t, lo, hi, fl, lambda f: f.rust, 'rt_obj(c, "%s", ObjectType::%s(e), v).and_then(|s| if let ObjectType::%s(x) = s.specific { Some(x) } else { c.chk(false, "%s: loaded as another type", v); None })' % (t, t, t, t), None, '%s::default()' % t)
O1 = list(table); table = []
o_o = o
o = []; w = o.append
w('// Generated by tools/gen_harness.py; do not edit.')
w('#![allow(non_snake_case, clippy::all)]')
w('use crate::sym::*;\nuse crate::rt::*;\nuse dxf::tables::*;\nuse dxf::enums::*;\nuse dxf::*;\n')
tabs = ET.parse(R + '/spec/TableSpec.xml').getroot()
for tb in tabs:
    if tag(tb) != 'Table': continue
    tlo, thi = vr(tb)
    for el in tb:
        if tag(el) != 'TableItem': continue
        t = el.get('Name')
        fl = fields(el, t)
        # one field may be listed twice with different codes and versions
        merged = {}
        for f in fl:
            if f.rust in merged:
                g = merged[f.rust]; g.lo = min(g.lo, f.lo); g.hi = max(g.hi, f.hi)
            else: merged[f.rust] = f
        fl = list(merged.values())
        n = F(); n.rust = 'name'; n.label = 'name'; n.dom = 'TNAME'; n.lo = 0; n.hi = 20; n.ty = 'String'
        fl = [n] + [f for f in fl if f.rust != 'name']
        coll = tb.get('Collection')
        emit('t', t, tlo, thi, fl, lambda f: f.rust, 'rt_tab_%s(c, e, v)' % t, None, '%s::default()' % t, extra_init='e.name = "QQ".into(); ' + INIT.get(t, ''))
T1 = list(table)
o_t = o
def fin(name, lines, ent, tab):
    for kind, tname, fn, lo, hi, n in tab: pass
    lines.append('pub static TAB: &[(&str, fn(&Cx), u32)] = &[')
    for kind, tname, fn, lo, hi, n in tab: lines.append('    ("%s", %s, %d),' % (tname, fn, n))
    lines.append('];')
    open(OUT + name, 'w').write('\n'.join(lines) + '\n')
fin('gen_entities.rs', o_e, 'e', E1)
fin('gen_objects.rs', o_o, 'o', O1)
fin('gen_tables.rs', o_t, 't', T1)
# header
hdr = ET.parse(R + '/spec/HeaderVariablesSpec.xml').getroot()
vs = {}
order = []
for x in hdr:
    if tag(x) != 'Variable': continue
    f = x.get('Field')
    lo, hi = vr(x)
    rec = dict(lo=lo, hi=hi, var=x.get('Name'), ty=x.get('Type'), code=x.get('Code'), sup=x.get('SuppressWriting') == 'true', wc=x.get('WriteConverter') or '', dom=dom(x), dwd=x.get('DontWriteDefault'))
    if f not in vs: vs[f] = []; order.append(f)
    vs[f].append(rec)
# header variables whose value is compared only under a condition, or as another value
HIF = {'fingerprint_guid': 'v >= 15', 'version_guid': 'v >= 15', 'next_available_handle': 'v >= 13 || hen'}
h = ['// Generated by tools/gen_harness.py; do not edit.', '#![allow(non_snake_case, clippy::all)]', 'use crate::sym::*;\nuse crate::rt::*;\nuse dxf::enums::*;\nuse dxf::*;\n']
hn = []
HS = {'version'}
for f in order:
    if f in HS: continue
    recs = vs[f]
    ty = recs[0]['ty']
    if 'DateTime' in ty or ty in ('Duration',): continue  # C23
    if ty == 'Uuid': pass
    fn = 'h_' + f
    rng = [(r['lo'], r['hi']) for r in recs if not r['sup']]
    ok = ' || '.join('(%d..=%d).contains(&v)' % r for r in rng) or 'false'
    d = DOM.get(('Header', f)) or recs[0]['dom']
    if any('I16' in r['dom'] for r in recs): d = 'I16'
    h.append('fn %s(c: &Cx) {' % fn)
    h.append('    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);')
    h.append('    e.%s = Sy::sy(&d.%s, false, %s); let x = e.%s.clone(); #[allow(unused)] let hen = e.handles_enabled;' % (f, f, d, f))
    exp = 'if %s { &x } else { &d.%s }' % (ok, f)
    if f == 'is_x_ref_clipping_boundary_visible': exp = 'if v < 16 { &d.%s } else { xclip(v, &x) }' % f
    h.append('    if let Some(r) = rt_hdr(c, e, v) { if %s { c.chk(r.%s.same(%s), "Header.%s", v); } }' % (HIF.get(f, 'true'), f, exp, f))
    h.append('}')
    hn.append((f, fn))
h.append('pub static TAB: &[(&str, fn(&Cx))] = &[')
for f, fn in hn: h.append('    ("%s", %s),' % (f, fn))
h.append('];')
# all variables at once
h.append('pub fn h_all(c: &Cx) {\n    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);')
for f, fn in hn:
    recs = vs[f]; dd = 'I16' if any('I16' in r['dom'] for r in recs) else DOM.get(('Header', f)) or recs[0]['dom']
    h.append('    e.%s = Sy::sy(&d.%s, true, %s);' % (f, f, dd))
h.append('    let e0 = e.clone(); let hen = e.handles_enabled;\n    if let Some(r) = rt_hdr(c, e, v) {')
for f, fn in hn:
    recs = vs[f]
    rng = [(r['lo'], r['hi']) for r in recs if not r['sup']]
    ok = ' || '.join('(%d..=%d).contains(&v)' % r for r in rng) or 'false'
    exp = 'if %s { &e0.%s } else { &d.%s }' % (ok, f, f)
    if f == 'is_x_ref_clipping_boundary_visible': exp = 'if v < 16 { &d.%s } else { xclip(v, &e0.%s) }' % (f, f)
    h.append('        if %s { c.chk(r.%s.same(%s), "Header.%s", v); }' % (HIF.get(f, 'true'), f, exp, f))
h.append('    }\n}')
open(OUT + 'gen_header.rs', 'w').write('\n'.join(h) + '\n')
# enums
e = ['// Generated by tools/gen_harness.py; do not edit.', 'use crate::sym::*;\nuse dxf::enums::*;']
for n, vsn in enums.items():
    if n in ('AcadVersion',): continue
    e.append('sy_enum!(%s: %s);' % (n, ', '.join(vsn)))
open(OUT + 'gen_enums.rs', 'w').write('\n'.join(e) + '\n')
print(len(E1), len(O1), len(T1), len(hn), len(enums))
