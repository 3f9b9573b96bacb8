#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Loading arbitrary text drawings never panics",
  "Whatever bytes a caller hands to the loader as an ASCII drawing, in any section and next to any other content, loading returns either a drawing or an error value; it never panics, overflows, indexes out of range or loops forever.",
  ["inputs"], "every byte string in the text format; checked for arbitrary group codes and values in every section, table, entity and object context",
  "The suite loads a few dozen hand-written well-formed drawings; hostile values (extreme integers, empty or truncated fields, stray codes) are unbounded.",
  ["src/code_pair_iter.rs", "src/drawing.rs", "src/code_pair_value.rs", "src/entity.rs", "src/object.rs", "src/header.rs", "src/table.rs", "src/thumbnail.rs", "src/helper_functions.rs"],
  [("text code pair reader", "src/code_pair_iter.rs"), ("typed value accessors", "src/code_pair.rs"), ("section readers", "src/drawing.rs")],
  ["Drawing::load"])
p("C02", "Loading arbitrary binary drawings never panics",
  "Whatever bytes follow the binary drawing sentinel, loading returns either a drawing or an error value and never panics, regardless of truncation point, group code width, string contents or chunk lengths.",
  ["inputs"], "every byte string that begins with the binary sentinel, including every truncation",
  "Tests load two fixed binary files; the byte-level space is never explored.",
  ["src/code_pair_iter.rs", "src/helper_functions.rs", "src/drawing.rs"],
  [("binary code pair reader", "src/code_pair_iter.rs"), ("bounded little-endian reads", "src/helper_functions.rs")],
  ["Drawing::load"])
p("C03", "Loading arbitrary DXB data never panics",
  "Whatever bytes follow the DXB sentinel, loading returns either a drawing or an error value and never panics, for every item type, number mode and truncation point.",
  ["inputs"], "every byte string that begins with the DXB sentinel",
  "Tests load one fixed DXB file.",
  ["src/dxb_reader.rs", "src/dxb_item_type.rs"],
  [("item dispatch", "src/dxb_reader.rs")], ["Drawing::load"])
p("C04", "Every entity keeps its field values through save and load",
  "For every entity kind and every version that supports it, saving a drawing that contains the entity and loading the result yields an entity of the same kind whose common and specific fields hold the values that were stored, for all values those fields can represent in that version.",
  ["inputs", "configurations"], "every entity kind x drawing version x text/binary x value of each persisted field",
  "Tests round-trip default-constructed entities and a handful of hand-picked values; swapped codes, lost signs, truncated widths and value-dependent omissions need other values.",
  ["spec/EntitiesSpec.xml", "build/entity_generator.rs", "src/entity.rs", "src/entity_iter.rs"],
  [("generated entity reader/writer", "build/entity_generator.rs"), ("hand-written entity readers/writers", "src/entity.rs")],
  ["Drawing::save", "Drawing::save_binary", "Drawing::load", "Drawing::entities"])
p("C05", "Every object keeps its field values through save and load",
  "For every non-graphical object kind and every version that supports it, saving a drawing that contains the object and loading the result yields an object of the same kind whose fields hold the values that were stored.",
  ["inputs", "configurations"], "every object kind x drawing version x text/binary x value of each persisted field",
  "Tests round-trip default objects and a handful of values.",
  ["spec/ObjectsSpec.xml", "build/object_generator.rs", "src/object.rs", "src/object_iter.rs"],
  [("generated object reader/writer", "build/object_generator.rs"), ("hand-written object readers/writers", "src/object.rs")],
  ["Drawing::save", "Drawing::load", "Drawing::objects"])
p("C06", "Every table entry keeps its field values through save and load",
  "For every table (app ids, block records, dimension styles, layers, line types, text styles, UCSs, views, viewports) and every version, saving and loading a drawing yields the same entries in the same order with the field values that were stored.",
  ["inputs", "configurations"], "every table x drawing version x field value",
  "Tests check a few fixed layers, styles and views.",
  ["spec/TableSpec.xml", "build/table_generator.rs", "src/table.rs"],
  [("generated table reader/writer", "build/table_generator.rs")],
  ["Drawing::save", "Drawing::load", "table iterators"])
p("C07", "Every header variable keeps its value through save and load",
  "For every header variable and every version in which it is defined, the value a caller sets is the value read back after saving and loading; setting one variable never changes another.",
  ["inputs", "configurations"], "every header variable x drawing version x value",
  "Tests check about a dozen variables at one value each.",
  ["spec/HeaderVariablesSpec.xml", "build/header_generator.rs", "src/header.rs"],
  [("generated header reader/writer", "build/header_generator.rs"), ("header section driver", "src/header.rs")],
  ["Drawing::save", "Drawing::load", "Header"])
p("C08", "Blocks, classes and thumbnails survive save and load",
  "Blocks (names, base point, flags, description, external reference path, contained entities), application classes and the preview image come back from save and load with the values that were stored, in every version that can hold them.",
  ["inputs", "configurations"], "every version x field value x number of contained entities",
  "Tests check fixed values in one or two versions.",
  ["src/block.rs", "src/class.rs", "src/thumbnail.rs", "src/drawing.rs"],
  [("block reader/writer", "src/block.rs"), ("class reader/writer", "src/class.rs"), ("thumbnail reader/writer", "src/thumbnail.rs")],
  ["Drawing::save", "Drawing::load", "Drawing::blocks", "Drawing::classes"])
p("C09", "Any text survives save and load in every version and format",
  "A text (any Unicode characters, control characters included) stored in a drawing is read back unchanged after saving and loading, in text and binary formats and in every version, wherever it is stored: escape sequences, carets, backslashes, percent signs, leading and trailing blanks, characters outside ASCII and texts long enough to be split are all kept.",
  ["inputs", "configurations"], "every Unicode string x version x format",
  "Tests use a few fixed strings with one non-ASCII character or one control character.",
  ["src/code_pair_value.rs", "src/code_pair_writer.rs", "src/code_pair_iter.rs"],
  [("unicode escaping", "src/code_pair_value.rs"), ("control character escaping", "src/code_pair_value.rs")],
  ["Drawing::save", "Drawing::save_binary", "Drawing::load"])
p("C10", "Numbers written to text drawings read back as the same value",
  "Every short, integer, long, boolean, binary and handle value written to a text drawing reads back exactly, and every finite double reads back within the twelve decimals that are written, for every group code of its value type and in every version; a pair keeps its group code and its neighbours, in text and in binary drawings.",
  ["inputs"], "every i16/i32/i64/u64-handle value and every finite double",
  "Tests format a handful of numbers.",
  ["src/code_pair_value.rs", "src/code_pair_writer.rs", "src/helper_functions.rs", "src/handle.rs", "src/expected_type.rs"],
  [("number formatting", "src/code_pair_value.rs"), ("number parsing", "src/helper_functions.rs")],
  ["CodePair", "Drawing::save", "Drawing::load"])
p("C11", "Text and binary encodings of a drawing load identically",
  "Saving one drawing as text and as binary and loading both yields drawings with equal content, in both the one-byte (before R13) and two-byte group code dialects.",
  ["inputs", "configurations"], "every drawing content x version",
  "Tests compare a single default drawing.",
  ["src/code_pair_writer.rs", "src/code_pair_iter.rs", "src/expected_type.rs"],
  [("binary writer", "src/code_pair_writer.rs"), ("binary reader", "src/code_pair_iter.rs"), ("group code to type table", "src/expected_type.rs")],
  ["Drawing::save", "Drawing::save_binary", "Drawing::load"])
p("C12", "Handles in a drawing are non-zero, unique and looked up correctly",
  "Starting from a new drawing, after any sequence of adding items (with or without handles of their own, which are replaced), normalizing, clearing, saving and loading what was saved, every item that carries a handle has a non-zero handle that no other item has, entities inside blocks and child entities included, the next available handle is above all of them, and looking an item up by its handle returns that very item.",
  ["histories", "inputs"], "every sequence of add operations, with and without preset handles, followed by save/load",
  "Tests add one or two items.",
  ["src/drawing.rs", "src/drawing_item.rs", "src/handle.rs"],
  [("handle assignment", "src/drawing.rs"), ("lookup by handle", "src/drawing.rs")],
  ["Drawing::add_*", "Drawing::item_by_handle", "Drawing::header"])
p("C13", "Names an item refers to always exist, and normalizing is idempotent",
  "After adding entities, blocks, table entries or objects, every layer, line type, text style, dimension style, view and UCS name that the added item refers to (an entity, or an entity in a block, to its layer, line type, text or dimension style; a block to its layer; a layer to its line type; a layer filter or layer index to its layers; plot settings to their plot view) is in its table; an entry that the library adds by itself is never a second one of that name. After normalizing, the tables also hold the mandatory default entries and the current layer and UCS names of the header, are sorted by name, and normalizing again changes nothing.",
  ["histories", "inputs"], "every sequence of added items with arbitrary names",
  "Tests check one name per kind.",
  ["src/drawing.rs"],
  [("name presence", "src/drawing.rs"), ("normalize", "src/drawing.rs")],
  ["Drawing::add_*", "Drawing::normalize", "table iterators"])
p("C14", "Saved drawings are well formed and hold only what the version allows",
  "For every drawing and version, the saved code pair stream has balanced sections, tables and blocks, ends with the end-of-file marker, parses as (code, value) pairs of the right type, writes only entities, objects, classes and sections that exist in that version, and loading then saving it again reproduces the same pairs (the next available handle may grow).",
  ["inputs", "configurations"], "every version x item kind x content",
  "Tests look for a few substrings in the output.",
  ["src/drawing.rs", "src/code_pair_writer.rs", "src/entity.rs", "src/object.rs", "src/class.rs"],
  [("section writers", "src/drawing.rs"), ("version gates", "build/entity_generator.rs")],
  ["Drawing::save", "Drawing::save_binary"])
p("C15", "I/O faults during save or load surface as errors",
  "If the underlying writer, reader or file fails at any point, saving or loading (text, binary or DXB, to a writer or to a file) returns an I/O error instead of reporting success or panicking; partial or interrupted reads and writes of any size never change what is saved or loaded.",
  ["fault_sequences"], "every fault position and every short read/write schedule",
  "Tests never inject an I/O fault.",
  ["src/code_pair_writer.rs", "src/code_pair_iter.rs", "src/dxb_reader.rs", "src/dxb_writer.rs", "src/drawing.rs", "src/thumbnail.rs"],
  [("error propagation", "src/dxf_error.rs"), ("file save", "src/drawing.rs")],
  ["Drawing::save", "Drawing::save_binary", "Drawing::save_file_dxb", "Drawing::load"])
p("C16", "Malformed values are reported as errors, not silently accepted",
  "A numeric, boolean, binary or handle value that does not parse as the type its group code demands makes loading fail with an error that identifies the offending position; it is never replaced by a default, truncated, or dropped together with neighbouring content.",
  ["inputs"], "every malformed value in every context",
  "Tests check a few malformed files.",
  ["src/code_pair_iter.rs", "src/helper_functions.rs", "src/dxf_error.rs", "src/entity_iter.rs", "src/object_iter.rs"],
  [("typed value parsing", "src/code_pair_iter.rs"), ("error values", "src/dxf_error.rs")],
  ["Drawing::load", "DxfError"])
p("C17", "DXB files round-trip the entities the format supports",
  "Saving a drawing of DXB-representable entities to DXB and loading it yields the same entities with the same layers, colours and coordinates (at the format's precision), in order, with or without a block.",
  ["inputs"], "every entity kind the format supports x coordinate, colour and layer values",
  "Tests check one fixed file of one line.",
  ["src/dxb_writer.rs", "src/dxb_reader.rs"],
  [("item writer", "src/dxb_writer.rs"), ("item reader", "src/dxb_reader.rs")],
  ["Drawing::save_dxb", "Drawing::load"])
p("C18", "Flag accessors are independent views of the stored bits",
  "For every boolean flag accessor, setting it makes the getter return that value, leaves every other documented flag of the same item unchanged, and works from any prior raw bit pattern.",
  ["inputs"], "every raw flag value x accessor x value",
  "Tests toggle two or three flags from zero.",
  ["build/entity_generator.rs", "build/object_generator.rs", "build/table_generator.rs", "build/header_generator.rs", "src/block.rs", "src/class.rs"],
  [("generated flag accessors", "build/entity_generator.rs")],
  ["flag getters and setters"])
p("C19", "Colour, line weight and enumeration conversions are lossless",
  "Every colour, line weight and enumerated value converts to its stored number and back to an equal value, predicates on colours are mutually consistent, and an unknown stored number is handled without panicking: it becomes the default of the item, never another value.",
  ["inputs"], "every raw 16/32-bit value",
  "Tests check three or four colours.",
  ["src/color.rs", "src/line_weight.rs", "src/enums.rs"],
  [("raw conversions", "src/color.rs")],
  ["Color", "LineWeight", "enum conversions through save/load"])
p("C20", "Comments and unknown content do not change what is loaded",
  "Inserting a comment pair between any two pairs, a group code that an item does not use between the pairs of the item (outside extension groups, extended data and XRECORD data, where every pair is content), an unknown entity or object kind between items, an unknown header variable, an unknown table or an unknown section leaves all other loaded content the same as without it.",
  ["inputs"], "every insertion point x content",
  "Tests insert one comment at one fixed place.",
  ["src/code_pair_iter.rs", "src/code_pair_put_back.rs", "src/drawing.rs", "src/entity_iter.rs"],
  [("comment skipping", "src/code_pair_put_back.rs"), ("unknown skipping", "src/helper_functions.rs")],
  ["Drawing::load"])
p("C21", "Extended data and extension groups survive save and load",
  "Extension groups and application extended data attached to an entity, object or table entry come back from save and load with the same structure and values, in every version that supports them.",
  ["inputs", "configurations"], "every structure up to nesting depth x value",
  "Tests check one or two fixed trees.",
  ["src/extension_data.rs", "src/x_data.rs"],
  [("extension group reader/writer", "src/extension_data.rs"), ("xdata reader/writer", "src/x_data.rs")],
  ["Drawing::save", "Drawing::load"])
p("C22", "Child entities stay with their parent, in order",
  "Polyline vertices, insert attributes and multi-line texts of attributes come back from save and load under the same parent in the same order with the same values, for any number of children and any neighbouring entities, at top level and inside blocks.",
  ["inputs", "histories"], "every number and arrangement of children within the bound",
  "Tests use one fixed polyline and insert.",
  ["src/entity_iter.rs", "src/entity.rs"],
  [("child gathering", "src/entity_iter.rs"), ("trailing sequence writer", "src/entity.rs")],
  ["Drawing::save", "Drawing::load"])
p("C23", "Durations survive save and load, and stored times never crash",
  "Every duration the header stores comes back from save and load unchanged to the second, and whatever number a file holds as a date or duration of the header, loading never panics.",
  ["inputs"], "every duration and every stored double",
  "Tests check a few fixed values.",
  ["src/helper_functions.rs", "src/header.rs"],
  [("duration conversion", "src/helper_functions.rs"), ("date conversion", "src/helper_functions.rs")],
  ["Header time fields"])
p("C24", "Dates survive save and load to the second",
  "Every date within the supported calendar that a header or object stores comes back from save and load unchanged to the second.",
  ["inputs"], "every date",
  "Tests check a few fixed dates.",
  ["src/helper_functions.rs", "src/header.rs"],
  [("julian date conversion", "src/helper_functions.rs")],
  ["Header date fields"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
