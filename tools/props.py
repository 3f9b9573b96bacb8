"""What each check runs: jobs (entry of the harness, case number), bounds and assumptions."""
COMMON = [
    'The harness and the library are compiled by rustc 1.99 (release profile, LTO, opt-level 1, overflow checks on, panic=abort) to LLVM IR; the engine (/verif/symex) interprets that IR, so the compiler and the engine are trusted. Sampled paths are replayed against the native build of the same sources on every run.',
    'Hash values of std HashMap/HashSet keys are a constant (all keys collide), random bytes and the wall clock are fixed values, allocation never fails below 256 MB in one request.',
    'Only the 64-bit little-endian x86-64 build without the optional serde feature is analysed.',
]
T = 1 << 24
def rng(entry, n, extra=0): return [(entry, i | extra) for i in range(n)]
P = {}
A = 1 << 20
def both(entry, n, t): a = 0 if t == 'quick' else A; return rng(entry, n, a) + rng(entry, n, a | T)
RT = ('versions %s (quick tier: R12 to R2018); every persisted field of every %s alone and all fields at once. Binary DXF: doubles: every bit pattern but NaN; integers: every value the file type stores; strings: empty or two symbolic '
      'characters (one from the underscore to the tilde, one from the blank to the bracket); lists: 0 to 3 elements; enumerations: every variant; handles: three concrete values. Text DXF (versions R10, R12, R14, R2007, R2018): one field alone: integers -128 to 127, booleans, enumerations and strings symbolic, '
      'doubles concrete; all fields at once: concrete values that differ from the defaults and from each other')
P['C04'] = dict(jobs=lambda t: both('vh_entity', 44, t), bounds=RT % ('1.0 to R2018', 'entity type'),
    assume=['Child entities, extension data and handles are covered by C22, C21 and C12; date fields are not decided (C24).'])
P['C05'] = dict(jobs=lambda t: both('vh_object', 39, t), bounds=RT % ('R13 to R2018', 'object type'), assume=['Date fields are not decided (C24).'])
P['C06'] = dict(jobs=lambda t: both('vh_table', 9, t), bounds=RT % ('1.0 to R2018', 'table entry type'))
P['C07'] = dict(jobs=lambda t: [('vh_header', 0xfff | (0 if t == 'quick' else A)), ('vh_header', 0xfff | (0 if t == 'quick' else A) | T)] + both('vh_header', 270, t), bounds=RT % ('1.0 to R2018', 'header variable'))
P['C03'] = dict(jobs=lambda t: rng('vh_dxb_any', 22) + [('vh_dxb_any', 30 + n) for n in range(9 if t == 'quick' else 13)] + [('vh_dxb_any', 60 + n) for n in range(10)] + ([] if t == 'quick' else [('vh_dxb_any', 70 + n) for n in range(10)]),
    bounds='after the 19-byte sentinel: (a) every string of up to 8 bytes (thorough: 12); (b) every item type with every payload byte symbolic, in both number modes, cut off at every position; (c) sequences of 3 items (thorough: 4) drawn from all item types, payload bytes symbolic')
P['C17'] = dict(jobs=lambda t: [('vh_dxb_rt', k | w << 4 | (n << 8)) for k in range(8) for w in range(4) for n in ((1, 2) if k == 7 and t == 'quick' else (0, 1, 2, 3) if k == 7 else (0,))],
    bounds='each of the eight entity kinds DXB can hold, between two other entities; every coordinate, radius and angle any single-precision value but NaN; every colour; layers of two symbolic letters, of one symbolic character of the basic plane beyond ASCII, or an escape-like text; with and without a block; polylines of 0 to 3 vertices (quick: 1, 2)')
P['C18'] = dict(jobs=lambda t: rng('vh_flags', 24), bounds='every flag accessor of every entity, object, table entry, header, block and class; every raw bit pattern of every raw flag word of the item; both values',
    assume=['The masks of the accessors were taken once from the specification files and are part of the committed harness.'])
P['C19'] = dict(jobs=lambda t: rng('vh_conv', 49) + [('vh_conv', 100 + i) for i in range(100)],
    bounds='every i16 colour index on an entity, every layer colour, every i16 line weight, every variant of every enumeration, and every 16-bit stored number of the header enumerations and of the public number conversions; unknown numbers: the loaded value is the default of the item')
def c22(t):
    x = 0 if t == 'quick' else 1 << 9
    j = [('vh_child', k | n << 4 | b << 8 | x) for k in (1, 2) for n in range(4) for b in (0, 1)] + [('vh_child', k | b << 8 | x) for k in (3, 4) for b in (0, 1)]
    j += [('vh_child', k | n << 4 | T | x) for k in (1, 2) for n in ((1, 2) if t == 'quick' else range(4))]
    if t != 'quick': j += [('vh_child', k | n << 4 | b << 8 | x) for k in (1, 2) for n in (4, 6) for b in (0, 1)]
    return j
P['C22'] = dict(jobs=c22, bounds='a parent (polyline, insert, top-level attribute, attribute definition) with 0 to 3 children (thorough: up to 6) between two neighbours, each any of line, polyline, insert, attribute, attribute definition, multi-line text, text; in the entities section or in a block and again outside; binary: positions and identifiers of the children symbolic, between two lines also the flags of a polyline and the flags and indices of its first vertex; text: concrete values; versions R12, R14, R2018 (thorough: R10 to R2018)',
    assume=['Fields of a child that are written only when they differ from a default are concrete here; every value of them is covered by C04 on a lone VERTEX or ATTRIB.'])
P['C21'] = dict(jobs=lambda t: rng('vh_xd', 97) + [('vh_xd', o | T) for o in (range(97) if t != 'quick' else range(0, 97, 3))] + [('vh_xd', o | 1 << 8 | k << 12 | x) for k in range(17) for o in ((20,) if t == 'quick' else (20, 50, 89, 95, 96)) for x in (0, T)] + [('vh_xd', o | 2 << 8 | x) for o in ((20,) if t == 'quick' else (20, 50, 89, 95, 96)) for x in (0, T)],
    bounds='owners: every entity type, object type and table entry type, a block, and an entity in a block, in every version from R14 that has the type (extended data: from R2000); two applications with nested control groups, two extension groups with a nested group. On an entity (thorough: also an object, a table entry, a block and an entity in a block), R2018: extended data with any two item kinds, values symbolic in binary drawings; extension groups with pairs of any code of any value class, values symbolic',
    assume=['An extension group without items is not written by design.', 'Binary data items: one symbolic byte between two fixed ones.'])
def c08(t):
    a = 0 if t == 'quick' else A
    j = [('vh_blk', nb << 4 | ne << 8 | sy << 12 | a | x) for nb, ne, sy, x in [(1, 1, 1, 0), (2, 2, 3, 0), (3, 0, 3, 0), (1, 2, 2, 0), (2, 3, 3, T), (1, 0, 3, T)] + ([(2, 1, 1, 0), (2, 2, 2, 0), (3, 3, 3, T)] if t != 'quick' else [])]
    j += [('vh_blk', 1 | n << 4 | a | x) for n in ((1, 2) if t == 'quick' else (1, 2, 3)) for x in (0, T)]
    j += [('vh_blk', 2 | k << 4 | w << 8 | h << 12 | x) for k in range(3) for w, h in ([(0, 0), (2, 1), (9, 9)] if t == 'quick' else [(w, h) for w in range(0, 16, 3) for h in range(0, 16, 5)]) for x in (0, T)]
    return j + [('vh_blk', 3 | a), ('vh_blk', 3 | a | T)]
P['C08'] = dict(jobs=c08, bounds='up to 3 blocks with up to 3 entities each: base point, flags (16 bits), name, layer, external reference path, description, paper space flag symbolic in binary drawings, concrete in text drawings; up to 2 classes (thorough: 3), every field of the first symbolic; thumbnails of 1x1, 3x2 and 10x10 pixels (thorough: up to 16x16) in RGB, RGBA and grey, up to four symbolic bytes; versions R12 to R2018 (thorough: 1.0 to R2018; classes from R13, thumbnails from R2000)',
    assume=['Thumbnails are compared as RGB or RGBA pixels.', 'The instance count of a class is below 2^31.'])
def c02(t):
    j = [('vh_any', n | o << 8) for o in (0, 1, 2, 3) for n in range(97) if n != 96 or o == 0] + [('vh_any', 83 | 6 << 8)] + [('vh_any', n | 1 << 20) for n in range(44)] + [('vh_any', 96 | 5 << 8 | b << 12) for b in range(36)]
    j += [('vh_bin_raw', n << 1 | b) for n in list(range(0, 6 if t == 'quick' else 7)) + [14] + list(range(15, 31)) for b in (0, 1)]
    if t != 'quick': j += [('vh_any', n | o << 8 | 1 << 21) for n in (58, 76) for o in (0, 1)] + [('vh_any', 96 | 5 << 8 | b << 12 | 1 << 21) for b in range(36)]
    if t != 'quick': j += [('vh_any', n | 4 << 8) for n in range(96)] + [('vh_any', 96 | o << 8) for o in (1, 2, 3)] + [('vh_any', n | o << 8 | 1 << 20) for o in (1, 2, 3) for n in range(44)] + [('vh_bin_raw', 24), ('vh_bin_raw', 25), ('vh_bin_raw', 26)]
    return j
P['C02'] = dict(jobs=c02, bounds='a drawing with one fully populated item (every entity, object and table entry type, a class, a block with children, extended data and extension groups, the header), R2018 and R12: (a) a pair of any code of any value class and any value inserted after the type, after each subclass marker and at the end; (b) the value of any pair replaced by any value; (c) any pair dropped, doubled, or the item cut off after it; (d) the file cut off at any byte of the item; (e) every header variable with a pair of any code and any value. (f) any string of up to 5 bytes (thorough: 6) after the sentinel, any byte of the sentinel changed; (g) any four structural pairs after SECTION. Values: numbers any bit pattern (quick: date-valued doubles of LAYER_INDEX, SPATIAL_INDEX and the header are 16 chosen ones); strings empty, one symbolic byte, or the start of a group; binary chunks of up to 2 symbolic bytes. Thorough: two inserted pairs of any code and value after the type')
def c01(t):
    f = 0 if t == 'quick' else 1 << 22
    j = [('vh_txt', n | o << 8 | f) for o in (0, 1, 2, 3) for n in range(97) if (n != 96 or o == 0) and (o != 3 or n % 3 == 0 or t != 'quick')] + [('vh_txt', 83 | 6 << 8)] + [('vh_txt', n | o << 8 | 1 << 20 | f) for o in ((1,) if t == 'quick' else (0, 1, 2, 3)) for n in range(44)] + [('vh_txt', 96 | 5 << 8 | b << 12 | f) for b in range(36)]
    j += [('vh_txt', n | 7 << 8 | f) for n in ((8,) if t == 'quick' else (8, 20, 50, 90, 95))]
    j += [('vh_txt_raw', n << 4) for n in range(5 if t == 'quick' else 6)] + [('vh_txt_raw', 1 | n << 4) for n in ([2, 3, 11] if t == 'quick' else [2, 3, 4, 10, 11, 12])]
    j += [('vh_txt_raw', 2 | (k | w << 4 | (8 if t != 'quick' else 0)) << 4) for k in range(8) for w in (0, 1)] + [('vh_txt_raw', 3 | (n | (16 if n < 2 and t == 'quick' else 0)) << 4) for n in range(12)] + [('vh_txt_raw', 4 | n << 4) for n in range(16)] + [('vh_txt_raw', 5), ('vh_txt_raw', 5 | 1 << 4), ('vh_txt_raw', 6), ('vh_txt_raw', 6 | 1 << 4), ('vh_txt_raw', 7)]
    if t != 'quick': j += [('vh_txt', n | 4 << 8) for n in range(96)] + [('vh_txt', 96 | o << 8) for o in (1, 2, 3)]
    return j
P['C01'] = dict(jobs=c01, bounds='a text drawing with one fully populated item (every entity, object and table entry type, a class, a block with children, extended data and extension groups, the header), R2018 and R12: (a) a pair of any code and a value of its class inserted after the type, after each subclass marker and at the end; (b) the value of any pair replaced; (c) any pair dropped, doubled, or the item cut off after it; (d) the file cut off at any byte of the item; (e) every header variable with a pair of any code. Values: strings empty, one symbolic byte, a group start, a lone surrogate escape, a lone control mark, a handle of 64 bits; numbers from chosen ones at the limits of the types (quick: 2 to 4 of 4 to 9); hexadecimal data of 0, 1 and 4 digits. (f) any string of up to 4 bytes (thorough: 5) as the whole file, 2 or 3 bytes (thorough: 4) at the start of a section; (g) any two bytes (thorough: three) as the value of a pair of each class; any code line of three bytes; any four bytes after \\U+, two after ^; (h) any byte in place of or next to any line end; (i) any four structural pairs; (j) thumbnail data with symbolic digits')
def c16(t):
    return [('vh_bad', n | f << 8 | v << 20) for n in range(97) for f in (0, 1, 2) for v in (0, 1) if n < 96 and (n != 94 or v == 0) or v == 0 and f < (1 if t == 'quick' else 3)] + [('vh_bad', n | f << 8 | 1 << 21) for n in range(97) for f in (0, 1, 2)]
P['C16'] = dict(jobs=c16, bounds='a drawing with one fully populated item (every entity, object and table entry type, a class, a block, the header), R2018 and R12; the value of any one pair whose class is a number, a boolean, binary data or a handle replaced by a symbolic printable character that does not form a value, by a digit followed by such a character, or by a value beyond the range of the class; text drawings, and handles in binary drawings',
    assume=['A short written as a double with a fraction is accepted by design.', 'Raw pairs of XRECORDs and of extension groups carry no handle type.'])
P['C14'] = dict(jobs=lambda t: [('vh_wf', n | (A if t != 'quick' else 0) | x) for n in range(97) for x in (0, T)] + [('vh_wf', n | 1 << 8 | (A if t != 'quick' else 0)) for n in list(range(83)) + list(range(85, 94))],
    bounds='a drawing with one fully populated item (every entity, object and table entry type, a class, a block with children, extended data and extension groups, the header; every fourth with a preview image). (a) Concrete values that differ from the defaults, saved as text and as binary in every version from R10 (thorough: from 1.0), whether the version has the type or not; (b) binary, in every version that has the type: numbers any bit pattern but NaN, strings empty or two symbolic characters, lists of 0 to 3 elements. The saved pairs: a value of the class of each code, sections once each and only those of the version, tables, blocks and sequences closed and entries in their own table, only entity and object types of the version, end of file last; loading and saving again gives the same pairs, except the value of the next available handle',
    assume=['The types and sections of each version are a table in the harness that was taken once from the specification files.'])
TB = (3, 8, 14, 15, 20, 26, 28, 33, 36, 37, 42, 45, 46, 47, 53, 54, 56, 57, 60, 64, 66, 72, 74, 76, 78, 79, 81, 85)
P['C11'] = dict(jobs=lambda t: [('vh_tb', n | (A if t != 'quick' else 0)) for n in range(97)] + [('vh_tb', n | 1 << 8 | (A if t != 'quick' else 0)) for n in (TB if t == 'quick' else list(range(83)) + list(range(85, 94)))],
    bounds='a drawing with one fully populated item (every entity, object and table entry type, a class, a block with children, extended data and extension groups, the header), saved as text and as binary and loaded from both; the loaded drawings are compared by saving both. (a) Concrete values that differ from the defaults, every version from R10 (thorough: from 1.0); (b) for 28 types (thorough: all) one field alone or all, in versions R10, R12, R14, R2007 and R2018: integers -128 to 127, booleans, enumerations and strings of two characters symbolic, doubles concrete')
def c20(t):
    if t != 'quick': return [('vh_unk', n | o << 8 | x | v << 20 | 1 << 21) for x in (0, T) for v in (0, 1) for o in range(6) for n in range(97) if not (o == 2 and n >= 85) and not (o == 5 and not 85 <= n < 94)]
    j = [('vh_unk', n | o << 8) for o in (0, 1, 2) for n in range(96) if o == 1 or n % 3 == o or n > 93 and o == 0] + [('vh_unk', n | o << 8 | T) for o in (0, 1) for n in range(0, 96, 4)] + [('vh_unk', n | 2 << 8 | T) for n in range(0, 85, 5)]
    j += [('vh_unk', n | o << 8 | 1 << 20) for o in (0, 1) for n in range(0, 44, 3)]
    return j + [('vh_unk', n | o << 8 | x) for o in (3, 4) for n in (0, 50, 88, 94, 95, 96) for x in (0, T) if (n, o) != (96, 4)] + [('vh_unk', n | 5 << 8 | x) for n in range(85, 94) for x in (0, T)]
P['C20'] = dict(jobs=c20, bounds='a drawing with one fully populated item (every entity, object and table entry type, a class, a block with children, extended data and extension groups, the header), binary R2018 (quick: some items also text and R12): (a) a comment with a symbolic character before any pair of the file (binary: after the first); (b) a pair of a code that no item uses at any position of the item outside groups and extended data, 4 codes of 4 classes (thorough: all of 8 ranges); (c) an unknown item with no, plain or group-like content before or after an entity or object; (d) an unknown header variable with 0, 1 or 3 values; (e) an unknown section at any section boundary; (f) an unknown table before or after the table. The loaded drawing is compared with the one without the insertion by saving both',
    assume=['All pairs inside extension groups, extended data and XRECORDs are content, not unknown codes.'])
def ops(t, p):
    q = t == 'quick'
    N, Y = 1 << 9, 1 << 10
    r = [('vh_ops', o | 2 << 5 | (1 << 8 if q else 0) | v << 12 | p << 25 | x) for o in range(18) for v, x in ([(20, N), (20, Y), (12, Y), (14, T | Y)] if q and p == 0 else [(20, 0), (12, 0), (14, T)] if q else [(v, x) for v in (10, 12, 14, 15, 17, 20) for x in (0, T)])]
    return r + [('vh_ops', o | 3 << 5 | 1 << 8 | (N | Y if q else 0) | v << 12 | p << 25) for o in range(18) for v in ((20,) if q else (12, 20))]
OPS = 'histories of 3 operations (quick: 2 with all choices in R2018, 2 with fewer choices in R12 and R14, 3 with fewer choices in R2018; thorough: 2 in R10 to R2018 and 3 in R12 and R2018) from a new drawing: adding entities (line, polyline with vertices, insert with attribute, texts, dimensions, leader, tolerance, multi-line), blocks with such entities, objects, entries of every table, copies of what is there already, a block made of the entities; removing; normalizing; clearing; changing the current layer or a coordinate system name of the header; saving and loading (binary, in R14 text). Names are 0, AA or A followed by a symbolic character; handles that the added item already carries are 1 or 2'
P['C12'] = dict(jobs=lambda t: ops(t, 0), bounds=OPS + '. At the end: handles of all items and of the entities in blocks, both lookups for every item, and after 2-step histories (quick: with fewer choices) the handles in the saved drawing', assume=['The handles of tables and of the end of a block are not items of the drawing.'])
P['C13'] = dict(jobs=lambda t: ops(t, 1), bounds=OPS + '. At the end, before and after normalizing: references from entities, blocks, layers, layer filters and indexes, plot settings, the header; entries are there once unless added twice; mandatory entries, order, and a second normalizing', assume=['Attributes of inserts and vertices of polylines are not checked for references.', 'A referenced object that is removed again is the business of the caller.'])
def c15(t):
    q = t == 'quick'
    R = 1 << 16
    def c(what, f, how, v, part=0, rich=1): return ('vh_io', what | f << 2 | how << 4 | v << 8 | rich << 16 | part << 20)
    vs = (12, 20) if q else (2, 10, 12, 13, 14, 15, 17, 20)
    j = [c(0, f, h, v, p) for f in (0, 1) for h in (0, 1) for v in vs for p in range(10)]
    j += [c(0, f, h, v, p) for f in (0, 1) for h in (2, 3) for v in ((20,) if q else vs) for p in range(10) if not q or (p + f + h) % 2]
    j += [c(0, 2, h, 20) for h in range(4)] + [c(w, 2, 0, 20) for w in (1, 3)] + [c(2, 2, h, 20) for h in (0, 2, 3)]
    j += [('vh_file', w | f << 2 | h << 4 | v << 8 | x) for w in (0, 1) for f in (0, 1, 2) for h in (0, 1, 2, 3) for v in ((12, 20) if q else vs) for x in (R, 1 << 17, 1 << 18 | R) if not (w and h == 1)]
    j += [c(w, f, 0, v, 0, r) for w in (1, 3) for f in (0, 1) for v in (2, 10, 12, 13, 14, 15, 17, 20) for r in (0, 1)]
    return j + [c(2, f, h, v, p) for f in (0, 1) for v in vs for h in (0, 2, 3) for p in ((0, 4) if q and h else range(10)) if not q or not h or v == 20]
P['C15'] = dict(jobs=c15, bounds='a drawing with an item in every section and thumbnail, and a bare one (R12 and R2018; thorough: R2 to R2018), text and binary, and a DXB drawing with each of its entity kinds. One fault in the write call that would pass byte n, for '
    'every n up to 10 KB (the whole output; n is symbolic): an error of three kinds, a write of nothing, an interruption, or a short write; writers and readers that never pass more than 1 to 4 bytes; one fault in the read call that would pass byte n, with reads of '
    'at most 7, 64 or 1048576 bytes: an error of three kinds, an interruption, or a short read. Saving to and loading from a file: the open, write, read and close calls of the C library are replaced by a file in memory with the same faults at every byte, and an open that is denied',
    assume=['Errors of closing a file are not reported by the standard library. ', 'One fault in a history; after it the writer or reader works again.'])
def c09(t):
    q = t == 'quick'
    lo = {2: 13, 3: 15, 4: 15, 5: 13, 7: 14, 8: 14, 9: 14}
    def c(car, k, v, x, w=0): return ('vh_str', car | k << 4 | v << 9 | w << 14 | x)
    ks = [k for k in range(22) if k != 3]
    j = [c(0, k, v, x) for k in ks for v in ((12, 16, 17, 20) if q else (1, 2, 6, 10, 12, 13, 14, 15, 16, 17, 18, 19, 20)) for x in (0, T)]
    j += [c(car, k, v, x) for car in range(1, 13) for k in ((0, 6, 7) if q else ks) for v in ((12, 16, 20) if q else (10, 12, 14, 15, 16, 17, 20)) for x in (0, T) if v >= lo.get(car, 0) and not (q and (car + v // 4 + (x != 0)) % 2)]
    j += [c(0, 3, v, x, w) for w in range(8) for v, x in ([(16, T), (20, 0)] if q else [(v, x) for v in (12, 16, 17, 20) for x in (0, T)])]
    j += [c(car, 31, v, x, n) for car in ((2,) if q else (0, 2, 3, 7, 8)) for v in (16, 20) for x in (0, T) for n in ([244, 247, 248, 249, 250, 251, 498, 499, 500, 501] if q else list(range(240, 256)) + list(range(494, 504)) + [749, 750, 751])]
    return j
P['C09'] = dict(jobs=c09, bounds='texts of up to 8 characters of which one to four are symbolic: any ASCII character first, last or between letters or blanks; any two ASCII characters; any character of the basic plane, first, between or last, also before any ASCII character; any character beyond '
    'the basic plane; a backslash, U and plus sign followed by any four printable characters; a caret, percent signs, or another control sequence followed by any ASCII character; two characters beyond ASCII; the empty text. Multi-line texts of 244 to 501 letters (thorough: 240 to 751) '
    'with one symbolic character around the places where they are split. 13 places: values of texts, layer and block names, multi-line texts, extended data, extension groups, XRECORDs, dictionary keys, header variables, classes, descriptions, attribute tags. Versions R12, R2004, R2007, '
    'R2018 (thorough: 1.0 to R2018), text and binary drawings',
    assume=['Loading without naming an encoding, which is the encoding the library saves.'])
def c10(t):
    q = t == 'quick'
    def c(k, w=0, v=20, x=0): return ('vh_num', k | w << 4 | v << 16 | x)
    j = [c(0, w) for w in range(16)] + [c(1, w | n) for w in list(range(10)) + [31] for n in (0, 32)] + [c(2, w | n) for w in list(range(19)) + [31] for n in (0, 32)] + [c(11, d | s | b) for d in range(5) for s in (0, 32) for b in (0, 64)]
    j += [c(3, 0, v) for v in (14, 15, 20)] + [c(4, w, v) for w in range(32) for v in ((20,) if q else (14, 20))] + [c(5, n) for n in (0, 1)] + [c(6, n | k << 4 | p << 6) for n in range(16) for k in range(3) for p in sorted({0, n // 2, n} if q else set(range(n + 1)))]
    j += [c(9, w) for w in (4, 5, 19, 20, 24, 29)] + [c(10, w) for w in (6, 25, 26, 27, 28)] + [c(12, w, v, x) for w in range(7) for v in (14, 20) for x in (0, T)]
    if not q: j += [c(0, w, 14) for w in range(16)] + [c(11, d | s | b) for d in range(5, 7) for s in (0, 32) for b in (0, 64)] + [c(5, 2)] + [c(9, w) for w in (6, 25, 26, 27, 28)]
    return j
P['C10'] = dict(jobs=c10, opts=dict(quick={'query-timeout': 60000}, thorough={'query-timeout': 120000}), bounds='pairs of an XRECORD in text drawings, R2018 (some R14): every short; integers and longs: every value of up to 5 digits (thorough: 7 where the solver answers), 32 values around every power of ten of both signs, 16 at each limit of the type; both booleans; binary data of one symbolic byte '
    '(thorough: two); handles in dictionaries, extended data and layouts: 1 to 16 hexadecimal digits, one of them symbolic (first, middle, last; thorough: each); doubles: 256 neighbouring values around each of 0.1, 1/3, 0.999999999999, 0.9999999999996, 3.14159265358979 and 0.012345678901, 16 around each of '
    '123456.789, -2.718281828459045, 42.4242424242, -7777.77777777 and 99999.9999999, and 32 single values from 5e-324 to the largest. Text and binary: a pair with every group code of each value class between two others',
    assume=['Doubles beyond the stated windows are not decided: formatting them needs arithmetic on symbolic big numbers that the solver cannot do.', 'Comments (999) are skipped when loading, by design.'])
P['C23'] = dict(jobs=lambda t: [('vh_dates', 3 << 8), ('vh_dates', 3 << 8 | 1)] + [('vh_dates', 7 << 8 | w) for w in (0, 1)] + [('vh_dates', 7 << 8 | v | k << 3) for v in range(2, 6) for k in (1, 2, 3)] + [('vh_dates', 7 << 8 | v | 4 << 3) for v in ((2, 3) if t == 'quick' else (2, 3, 4, 5))],
    opts=dict(quick={'query-timeout': 120000}, thorough={'query-timeout': 120000}),
    bounds='durations: every number of seconds below 2^32 and 2^52 in binary drawings, seven values in text drawings; stored durations: every double; stored dates: every double up to 2415020 (the first date), above 10^13, not a number, and 256 whole days from 2000 on, for each of the four dates of the header',
    assume=['Stored dates between the bounds are not decided: products of doubles with that many symbolic bits are out of reach of the solver.'])
NA = {'C24': 'a date goes through divisions and products of doubles (seconds / 24 / 60 / 60 + offset and back, rounded); the solver gives no answer even for windows of 16 dates (more than 100 s per query), so nothing is decided'}
for i in range(1, 25): NA.setdefault('C%02d' % i, 'check under construction')
