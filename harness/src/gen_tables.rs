// Generated by tools/gen_harness.py; do not edit.
#![allow(non_snake_case, clippy::all)]
use crate::sym::*;
use crate::rt::*;
use dxf::tables::*;
use dxf::enums::*;
use dxf::*;

fn rt_t_AppId(c: &Cx) {
    let d = AppId::default();
    let mut e = d.clone();
    e.name = "QQ".into(); 
    let v = c.ver(0, 20); let f = c.field(1);
    if c.on(f, 1) { e.name = Sy::sy(&d.name, f == 0, TNAME); }
    let e0 = e.clone();
    let r = rt_tab_AppId(c, e, v);
    if let Some(r) = r {
        c.chk(r.name.same(&e0.name), "AppId.name", v);
    }
}
fn rt_t_BlockRecord(c: &Cx) {
    let d = BlockRecord::default();
    let mut e = d.clone();
    e.name = "QQ".into(); 
    let v = c.ver(13, 20); let f = c.field(5);
    if c.on(f, 1) { e.name = Sy::sy(&d.name, f == 0, TNAME); }
    if c.on(f, 2) { e.__layout_handle = Sy::sy(&d.__layout_handle, f == 0, ANY); }
    if c.on(f, 3) { e.insertion_units = Sy::sy(&d.insertion_units, f == 0, ANY); }
    if c.on(f, 4) { e.explodability = Sy::sy(&d.explodability, f == 0, ANY); }
    if c.on(f, 5) { e.scalability = Sy::sy(&d.scalability, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_tab_BlockRecord(c, e, v);
    if let Some(r) = r {
        c.chk(r.name.same(&e0.name), "BlockRecord.name", v);
        c.chk(r.__layout_handle.same(if v >= 15 { &e0.__layout_handle } else { &d.__layout_handle }), "BlockRecord.layout", v);
        c.chk(r.insertion_units.same(if v >= 17 { &e0.insertion_units } else { &d.insertion_units }), "BlockRecord.insertion_units", v);
        c.chk(r.explodability.same(if v >= 17 { &e0.explodability } else { &d.explodability }), "BlockRecord.explodability", v);
        c.chk(r.scalability.same(if v >= 17 { &e0.scalability } else { &d.scalability }), "BlockRecord.scalability", v);
    }
}
fn rt_t_DimStyle(c: &Cx) {
    let d = DimStyle::default();
    let mut e = d.clone();
    e.name = "QQ".into(); 
    let v = c.ver(0, 20); let f = c.field(64);
    if c.on(f, 1) { e.name = Sy::sy(&d.name, f == 0, TNAME); }
    if c.on(f, 2) { e.dimensioning_suffix = Sy::sy(&d.dimensioning_suffix, f == 0, ANY); }
    if c.on(f, 3) { e.alternate_dimensioning_suffix = Sy::sy(&d.alternate_dimensioning_suffix, f == 0, ANY); }
    if c.on(f, 4) { e.first_arrow_block_name = Sy::sy(&d.first_arrow_block_name, f == 0, ANY); }
    if c.on(f, 5) { e.second_arrow_block_name = Sy::sy(&d.second_arrow_block_name, f == 0, ANY); }
    if c.on(f, 6) { e.dimensioning_scale_factor = Sy::sy(&d.dimensioning_scale_factor, f == 0, ANY); }
    if c.on(f, 7) { e.dimensioning_arrow_size = Sy::sy(&d.dimensioning_arrow_size, f == 0, ANY); }
    if c.on(f, 8) { e.dimension_extension_line_offset = Sy::sy(&d.dimension_extension_line_offset, f == 0, ANY); }
    if c.on(f, 9) { e.dimension_line_increment = Sy::sy(&d.dimension_line_increment, f == 0, ANY); }
    if c.on(f, 10) { e.dimension_extension_line_extension = Sy::sy(&d.dimension_extension_line_extension, f == 0, ANY); }
    if c.on(f, 11) { e.dimension_distance_rounding_value = Sy::sy(&d.dimension_distance_rounding_value, f == 0, ANY); }
    if c.on(f, 12) { e.dimension_line_extension = Sy::sy(&d.dimension_line_extension, f == 0, ANY); }
    if c.on(f, 13) { e.dimension_plus_tolerance = Sy::sy(&d.dimension_plus_tolerance, f == 0, ANY); }
    if c.on(f, 14) { e.dimension_minus_tolerance = Sy::sy(&d.dimension_minus_tolerance, f == 0, ANY); }
    if c.on(f, 15) { e.generate_dimension_tolerances = Sy::sy(&d.generate_dimension_tolerances, f == 0, ANY); }
    if c.on(f, 16) { e.generate_dimension_limits = Sy::sy(&d.generate_dimension_limits, f == 0, ANY); }
    if c.on(f, 17) { e.dimension_text_inside_horizontal = Sy::sy(&d.dimension_text_inside_horizontal, f == 0, ANY); }
    if c.on(f, 18) { e.dimension_text_outside_horizontal = Sy::sy(&d.dimension_text_outside_horizontal, f == 0, ANY); }
    if c.on(f, 19) { e.suppress_first_dimension_extension_line = Sy::sy(&d.suppress_first_dimension_extension_line, f == 0, ANY); }
    if c.on(f, 20) { e.suppress_second_dimension_extension_line = Sy::sy(&d.suppress_second_dimension_extension_line, f == 0, ANY); }
    if c.on(f, 21) { e.text_above_dimension_line = Sy::sy(&d.text_above_dimension_line, f == 0, ANY); }
    if c.on(f, 22) { e.dimension_unit_zero_suppression = Sy::sy(&d.dimension_unit_zero_suppression, f == 0, ANY); }
    if c.on(f, 23) { e.dimension_angle_zero_suppression = Sy::sy(&d.dimension_angle_zero_suppression, f == 0, ANY); }
    if c.on(f, 24) { e.dimensioning_text_height = Sy::sy(&d.dimensioning_text_height, f == 0, ANY); }
    if c.on(f, 25) { e.center_mark_size = Sy::sy(&d.center_mark_size, f == 0, ANY); }
    if c.on(f, 26) { e.dimensioning_tick_size = Sy::sy(&d.dimensioning_tick_size, f == 0, ANY); }
    if c.on(f, 27) { e.alternate_dimensioning_scale_factor = Sy::sy(&d.alternate_dimensioning_scale_factor, f == 0, ANY); }
    if c.on(f, 28) { e.dimension_linear_measurement_scale_factor = Sy::sy(&d.dimension_linear_measurement_scale_factor, f == 0, ANY); }
    if c.on(f, 29) { e.dimension_vertical_text_position = Sy::sy(&d.dimension_vertical_text_position, f == 0, ANY); }
    if c.on(f, 30) { e.dimension_tolerance_displace_scale_factor = Sy::sy(&d.dimension_tolerance_displace_scale_factor, f == 0, ANY); }
    if c.on(f, 31) { e.dimension_line_gap = Sy::sy(&d.dimension_line_gap, f == 0, ANY); }
    if c.on(f, 32) { e.alternate_dimensioning_unit_rounding = Sy::sy(&d.alternate_dimensioning_unit_rounding, f == 0, ANY); }
    if c.on(f, 33) { e.use_alternate_dimensioning = Sy::sy(&d.use_alternate_dimensioning, f == 0, ANY); }
    if c.on(f, 34) { e.alternate_dimensioning_decimal_places = Sy::sy(&d.alternate_dimensioning_decimal_places, f == 0, ANY); }
    if c.on(f, 35) { e.force_dimension_line_extensions_outside_if_text_exists = Sy::sy(&d.force_dimension_line_extensions_outside_if_text_exists, f == 0, ANY); }
    if c.on(f, 36) { e.use_separate_arrow_blocks_for_dimensions = Sy::sy(&d.use_separate_arrow_blocks_for_dimensions, f == 0, ANY); }
    if c.on(f, 37) { e.force_dimension_text_inside_extensions = Sy::sy(&d.force_dimension_text_inside_extensions, f == 0, ANY); }
    if c.on(f, 38) { e.suppress_outside_extension_dimension_lines = Sy::sy(&d.suppress_outside_extension_dimension_lines, f == 0, ANY); }
    if c.on(f, 39) { e.dimension_line_color = Sy::sy(&d.dimension_line_color, f == 0, ANY); }
    if c.on(f, 40) { e.dimension_extension_line_color = Sy::sy(&d.dimension_extension_line_color, f == 0, ANY); }
    if c.on(f, 41) { e.dimension_text_color = Sy::sy(&d.dimension_text_color, f == 0, ANY); }
    if c.on(f, 42) { e.angular_dimension_precision = Sy::sy(&d.angular_dimension_precision, f == 0, ANY); }
    if c.on(f, 43) { e.dimension_unit_format = Sy::sy(&d.dimension_unit_format, f == 0, ANY); }
    if c.on(f, 44) { e.dimension_unit_tolerance_decimal_places = Sy::sy(&d.dimension_unit_tolerance_decimal_places, f == 0, ANY); }
    if c.on(f, 45) { e.dimension_tolerace_decimal_places = Sy::sy(&d.dimension_tolerace_decimal_places, f == 0, ANY); }
    if c.on(f, 46) { e.alternate_dimensioning_units = Sy::sy(&d.alternate_dimensioning_units, f == 0, ANY); }
    if c.on(f, 47) { e.alternate_dimensioning_tolerance_decimal_places = Sy::sy(&d.alternate_dimensioning_tolerance_decimal_places, f == 0, ANY); }
    if c.on(f, 48) { e.dimensioning_angle_format = Sy::sy(&d.dimensioning_angle_format, f == 0, ANY); }
    if c.on(f, 49) { e.dimension_precision = Sy::sy(&d.dimension_precision, f == 0, ANY); }
    if c.on(f, 50) { e.dimension_non_angular_units = Sy::sy(&d.dimension_non_angular_units, f == 0, ANY); }
    if c.on(f, 51) { e.dimension_decilam_separator_char = Sy::sy(&d.dimension_decilam_separator_char, f == 0, ANY); }
    if c.on(f, 52) { e.dimension_text_movement_rule = Sy::sy(&d.dimension_text_movement_rule, f == 0, ANY); }
    if c.on(f, 53) { e.dimension_text_justification = Sy::sy(&d.dimension_text_justification, f == 0, ANY); }
    if c.on(f, 54) { e.dimension_tolerance_vertical_justification = Sy::sy(&d.dimension_tolerance_vertical_justification, f == 0, ANY); }
    if c.on(f, 55) { e.dimension_tolerance_zero_suppression = Sy::sy(&d.dimension_tolerance_zero_suppression, f == 0, ANY); }
    if c.on(f, 56) { e.alternate_dimensioning_zero_suppression = Sy::sy(&d.alternate_dimensioning_zero_suppression, f == 0, ANY); }
    if c.on(f, 57) { e.alternate_dimensioning_tolerance_zero_suppression = Sy::sy(&d.alternate_dimensioning_tolerance_zero_suppression, f == 0, ANY); }
    if c.on(f, 58) { e.dimension_text_and_arrow_placement = Sy::sy(&d.dimension_text_and_arrow_placement, f == 0, ANY); }
    if c.on(f, 59) { e.dimension_cursor_controls_text_position = Sy::sy(&d.dimension_cursor_controls_text_position, f == 0, ANY); }
    if c.on(f, 60) { e.dimension_text_style = Sy::sy(&d.dimension_text_style, f == 0, ANY); }
    if c.on(f, 61) { e.dimension_leader_block_name = Sy::sy(&d.dimension_leader_block_name, f == 0, ANY); }
    if c.on(f, 62) { e.arrow_block_name = Sy::sy(&d.arrow_block_name, f == 0, ANY); }
    if c.on(f, 63) { e.dimension_line_weight = Sy::sy(&d.dimension_line_weight, f == 0, ANY); }
    if c.on(f, 64) { e.dimension_extension_line_weight = Sy::sy(&d.dimension_extension_line_weight, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_tab_DimStyle(c, e, v);
    if let Some(r) = r {
        c.chk(r.name.same(&e0.name), "DimStyle.name", v);
        c.chk(r.dimensioning_suffix.same(&e0.dimensioning_suffix), "DimStyle.dimensioning_suffix", v);
        c.chk(r.alternate_dimensioning_suffix.same(&e0.alternate_dimensioning_suffix), "DimStyle.alternate_dimensioning_suffix", v);
        c.chk(r.first_arrow_block_name.same(&e0.first_arrow_block_name), "DimStyle.first_arrow_block_name", v);
        c.chk(r.second_arrow_block_name.same(&e0.second_arrow_block_name), "DimStyle.second_arrow_block_name", v);
        c.chk(r.dimensioning_scale_factor.same(&e0.dimensioning_scale_factor), "DimStyle.dimensioning_scale_factor", v);
        c.chk(r.dimensioning_arrow_size.same(&e0.dimensioning_arrow_size), "DimStyle.dimensioning_arrow_size", v);
        c.chk(r.dimension_extension_line_offset.same(&e0.dimension_extension_line_offset), "DimStyle.dimension_extension_line_offset", v);
        c.chk(r.dimension_line_increment.same(&e0.dimension_line_increment), "DimStyle.dimension_line_increment", v);
        c.chk(r.dimension_extension_line_extension.same(&e0.dimension_extension_line_extension), "DimStyle.dimension_extension_line_extension", v);
        c.chk(r.dimension_distance_rounding_value.same(&e0.dimension_distance_rounding_value), "DimStyle.dimension_distance_rounding_value", v);
        c.chk(r.dimension_line_extension.same(&e0.dimension_line_extension), "DimStyle.dimension_line_extension", v);
        c.chk(r.dimension_plus_tolerance.same(&e0.dimension_plus_tolerance), "DimStyle.dimension_plus_tolerance", v);
        c.chk(r.dimension_minus_tolerance.same(&e0.dimension_minus_tolerance), "DimStyle.dimension_minus_tolerance", v);
        c.chk(r.generate_dimension_tolerances.same(&e0.generate_dimension_tolerances), "DimStyle.generate_dimension_tolerances", v);
        c.chk(r.generate_dimension_limits.same(&e0.generate_dimension_limits), "DimStyle.generate_dimension_limits", v);
        c.chk(r.dimension_text_inside_horizontal.same(&e0.dimension_text_inside_horizontal), "DimStyle.dimension_text_inside_horizontal", v);
        c.chk(r.dimension_text_outside_horizontal.same(&e0.dimension_text_outside_horizontal), "DimStyle.dimension_text_outside_horizontal", v);
        c.chk(r.suppress_first_dimension_extension_line.same(&e0.suppress_first_dimension_extension_line), "DimStyle.suppress_first_dimension_extension_line", v);
        c.chk(r.suppress_second_dimension_extension_line.same(&e0.suppress_second_dimension_extension_line), "DimStyle.suppress_second_dimension_extension_line", v);
        c.chk(r.text_above_dimension_line.same(&e0.text_above_dimension_line), "DimStyle.text_above_dimension_line", v);
        c.chk(r.dimension_unit_zero_suppression.same(&e0.dimension_unit_zero_suppression), "DimStyle.dimension_unit_zero_suppression", v);
        c.chk(r.dimension_angle_zero_suppression.same(if v >= 15 { &e0.dimension_angle_zero_suppression } else { &d.dimension_angle_zero_suppression }), "DimStyle.dimension_angle_zero_suppression", v);
        c.chk(r.dimensioning_text_height.same(&e0.dimensioning_text_height), "DimStyle.dimensioning_text_height", v);
        c.chk(r.center_mark_size.same(&e0.center_mark_size), "DimStyle.center_mark_size", v);
        c.chk(r.dimensioning_tick_size.same(&e0.dimensioning_tick_size), "DimStyle.dimensioning_tick_size", v);
        c.chk(r.alternate_dimensioning_scale_factor.same(&e0.alternate_dimensioning_scale_factor), "DimStyle.alternate_dimensioning_scale_factor", v);
        c.chk(r.dimension_linear_measurement_scale_factor.same(&e0.dimension_linear_measurement_scale_factor), "DimStyle.dimension_linear_measurement_scale_factor", v);
        c.chk(r.dimension_vertical_text_position.same(&e0.dimension_vertical_text_position), "DimStyle.dimension_vertical_text_position", v);
        c.chk(r.dimension_tolerance_displace_scale_factor.same(&e0.dimension_tolerance_displace_scale_factor), "DimStyle.dimension_tolerance_displace_scale_factor", v);
        c.chk(r.dimension_line_gap.same(&e0.dimension_line_gap), "DimStyle.dimension_line_gap", v);
        c.chk(r.alternate_dimensioning_unit_rounding.same(if v >= 15 { &e0.alternate_dimensioning_unit_rounding } else { &d.alternate_dimensioning_unit_rounding }), "DimStyle.alternate_dimensioning_unit_rounding", v);
        c.chk(r.use_alternate_dimensioning.same(&e0.use_alternate_dimensioning), "DimStyle.use_alternate_dimensioning", v);
        c.chk(r.alternate_dimensioning_decimal_places.same(&e0.alternate_dimensioning_decimal_places), "DimStyle.alternate_dimensioning_decimal_places", v);
        c.chk(r.force_dimension_line_extensions_outside_if_text_exists.same(&e0.force_dimension_line_extensions_outside_if_text_exists), "DimStyle.force_dimension_line_extensions_outside_if_text_exists", v);
        c.chk(r.use_separate_arrow_blocks_for_dimensions.same(&e0.use_separate_arrow_blocks_for_dimensions), "DimStyle.use_separate_arrow_blocks_for_dimensions", v);
        c.chk(r.force_dimension_text_inside_extensions.same(&e0.force_dimension_text_inside_extensions), "DimStyle.force_dimension_text_inside_extensions", v);
        c.chk(r.suppress_outside_extension_dimension_lines.same(&e0.suppress_outside_extension_dimension_lines), "DimStyle.suppress_outside_extension_dimension_lines", v);
        c.chk(r.dimension_line_color.same(&e0.dimension_line_color), "DimStyle.dimension_line_color", v);
        c.chk(r.dimension_extension_line_color.same(&e0.dimension_extension_line_color), "DimStyle.dimension_extension_line_color", v);
        c.chk(r.dimension_text_color.same(&e0.dimension_text_color), "DimStyle.dimension_text_color", v);
        c.chk(r.angular_dimension_precision.same(if v >= 15 { &e0.angular_dimension_precision } else { &d.angular_dimension_precision }), "DimStyle.angular_dimension_precision", v);
        c.chk(r.dimension_unit_format.same(if v >= 13 { &e0.dimension_unit_format } else { &d.dimension_unit_format }), "DimStyle.dimension_unit_format", v);
        c.chk(r.dimension_unit_tolerance_decimal_places.same(if v >= 13 { &e0.dimension_unit_tolerance_decimal_places } else { &d.dimension_unit_tolerance_decimal_places }), "DimStyle.dimension_unit_tolerance_decimal_places", v);
        c.chk(r.dimension_tolerace_decimal_places.same(if v >= 13 { &e0.dimension_tolerace_decimal_places } else { &d.dimension_tolerace_decimal_places }), "DimStyle.dimension_tolerace_decimal_places", v);
        c.chk(r.alternate_dimensioning_units.same(if v >= 13 { &e0.alternate_dimensioning_units } else { &d.alternate_dimensioning_units }), "DimStyle.alternate_dimensioning_units", v);
        c.chk(r.alternate_dimensioning_tolerance_decimal_places.same(if v >= 13 { &e0.alternate_dimensioning_tolerance_decimal_places } else { &d.alternate_dimensioning_tolerance_decimal_places }), "DimStyle.alternate_dimensioning_tolerance_decimal_places", v);
        c.chk(r.dimensioning_angle_format.same(if v >= 13 { &e0.dimensioning_angle_format } else { &d.dimensioning_angle_format }), "DimStyle.dimensioning_angle_format", v);
        c.chk(r.dimension_precision.same(if v >= 15 { &e0.dimension_precision } else { &d.dimension_precision }), "DimStyle.dimension_precision", v);
        c.chk(r.dimension_non_angular_units.same(if v >= 15 { &e0.dimension_non_angular_units } else { &d.dimension_non_angular_units }), "DimStyle.dimension_non_angular_units", v);
        c.chk(r.dimension_decilam_separator_char.same(if v >= 15 { &e0.dimension_decilam_separator_char } else { &d.dimension_decilam_separator_char }), "DimStyle.dimension_decilam_separator_char", v);
        c.chk(r.dimension_text_movement_rule.same(if v >= 15 { &e0.dimension_text_movement_rule } else { &d.dimension_text_movement_rule }), "DimStyle.dimension_text_movement_rule", v);
        c.chk(r.dimension_text_justification.same(if v >= 13 { &e0.dimension_text_justification } else { &d.dimension_text_justification }), "DimStyle.dimension_text_justification", v);
        c.chk(r.dimension_tolerance_vertical_justification.same(if v >= 13 { &e0.dimension_tolerance_vertical_justification } else { &d.dimension_tolerance_vertical_justification }), "DimStyle.dimension_tolerance_vertical_justification", v);
        c.chk(r.dimension_tolerance_zero_suppression.same(if v >= 13 { &e0.dimension_tolerance_zero_suppression } else { &d.dimension_tolerance_zero_suppression }), "DimStyle.dimension_tolerance_zero_suppression", v);
        c.chk(r.alternate_dimensioning_zero_suppression.same(if v >= 13 { &e0.alternate_dimensioning_zero_suppression } else { &d.alternate_dimensioning_zero_suppression }), "DimStyle.alternate_dimensioning_zero_suppression", v);
        c.chk(r.alternate_dimensioning_tolerance_zero_suppression.same(if v >= 13 { &e0.alternate_dimensioning_tolerance_zero_suppression } else { &d.alternate_dimensioning_tolerance_zero_suppression }), "DimStyle.alternate_dimensioning_tolerance_zero_suppression", v);
        c.chk(r.dimension_text_and_arrow_placement.same(if v >= 13 { &e0.dimension_text_and_arrow_placement } else { &d.dimension_text_and_arrow_placement }), "DimStyle.dimension_text_and_arrow_placement", v);
        c.chk(r.dimension_cursor_controls_text_position.same(if v >= 13 { &e0.dimension_cursor_controls_text_position } else { &d.dimension_cursor_controls_text_position }), "DimStyle.dimension_cursor_controls_text_position", v);
        c.chk(r.dimension_text_style.same(if v >= 13 { &e0.dimension_text_style } else { &d.dimension_text_style }), "DimStyle.dimension_text_style", v);
        c.chk(r.dimension_leader_block_name.same(if v >= 15 { &e0.dimension_leader_block_name } else { &d.dimension_leader_block_name }), "DimStyle.dimension_leader_block_name", v);
        c.chk(r.arrow_block_name.same(if v >= 15 { &e0.arrow_block_name } else { &d.arrow_block_name }), "DimStyle.arrow_block_name", v);
        c.chk(r.dimension_line_weight.same(if v >= 15 { &e0.dimension_line_weight } else { &d.dimension_line_weight }), "DimStyle.dimension_line_weight", v);
        c.chk(r.dimension_extension_line_weight.same(if v >= 15 { &e0.dimension_extension_line_weight } else { &d.dimension_extension_line_weight }), "DimStyle.dimension_extension_line_weight", v);
    }
}
fn rt_t_LineType(c: &Cx) {
    let d = LineType::default();
    let mut e = d.clone();
    e.name = "QQ".into(); 
    let v = c.ver(0, 20); let f = c.field(14);
    if c.on(f, 1) { e.name = Sy::sy(&d.name, f == 0, TNAME); }
    if c.on(f, 2) { e.description = Sy::sy(&d.description, f == 0, ANY); }
    if c.on(f, 3) { e.alignment_code = Sy::sy(&d.alignment_code, f == 0, I16); }
    if c.on(f, 4) { e.element_count = Sy::sy(&d.element_count, f == 0, I16); }
    if c.on(f, 5) { e.total_pattern_length = Sy::sy(&d.total_pattern_length, f == 0, ANY); }
    if c.on(f, 6) { e.dash_dot_space_lengths = Sy::sy(&d.dash_dot_space_lengths, f == 0, ANY); }
    if c.on(f, 7) { e.complex_line_type_element_types = Sy::sy(&d.complex_line_type_element_types, f == 0, ANY); }
    if c.on(f, 8) { e.shape_numbers = Sy::sy(&d.shape_numbers, f == 0, ANY); }
    if c.on(f, 9) { e.__styles_handle = Sy::sy(&d.__styles_handle, f == 0, ANY); }
    if c.on(f, 10) { e.scale_values = Sy::sy(&d.scale_values, f == 0, ANY); }
    if c.on(f, 11) { e.rotation_angles = Sy::sy(&d.rotation_angles, f == 0, ANY); }
    if c.on(f, 12) { e.x_offsets = Sy::sy(&d.x_offsets, f == 0, ANY); }
    if c.on(f, 13) { e.y_offsets = Sy::sy(&d.y_offsets, f == 0, ANY); }
    if c.on(f, 14) { e.text_strings = Sy::sy(&d.text_strings, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_tab_LineType(c, e, v);
    if let Some(r) = r {
        c.chk(r.name.same(&e0.name), "LineType.name", v);
        c.chk(r.description.same(&e0.description), "LineType.description", v);
        c.chk(r.alignment_code.same(&e0.alignment_code), "LineType.alignment_code", v);
        c.chk(r.element_count.same(&e0.element_count), "LineType.element_count", v);
        c.chk(r.total_pattern_length.same(&e0.total_pattern_length), "LineType.total_pattern_length", v);
        c.chk(r.dash_dot_space_lengths.same(&e0.dash_dot_space_lengths), "LineType.dash_dot_space_lengths", v);
        c.chk(r.complex_line_type_element_types.same(if v >= 13 { &e0.complex_line_type_element_types } else { &d.complex_line_type_element_types }), "LineType.complex_line_type_element_types", v);
        c.chk(r.shape_numbers.same(if v >= 13 { &e0.shape_numbers } else { &d.shape_numbers }), "LineType.shape_numbers", v);
        c.chk(r.__styles_handle.same(if v >= 13 { &e0.__styles_handle } else { &d.__styles_handle }), "LineType.styles", v);
        c.chk(r.scale_values.same(if v >= 13 { &e0.scale_values } else { &d.scale_values }), "LineType.scale_values", v);
        c.chk(r.rotation_angles.same(if v >= 13 { &e0.rotation_angles } else { &d.rotation_angles }), "LineType.rotation_angles", v);
        c.chk(r.x_offsets.same(if v >= 13 { &e0.x_offsets } else { &d.x_offsets }), "LineType.x_offsets", v);
        c.chk(r.y_offsets.same(if v >= 13 { &e0.y_offsets } else { &d.y_offsets }), "LineType.y_offsets", v);
        c.chk(r.text_strings.same(if v >= 13 { &e0.text_strings } else { &d.text_strings }), "LineType.text_strings", v);
    }
}
fn rt_t_Layer(c: &Cx) {
    let d = Layer::default();
    let mut e = d.clone();
    e.name = "QQ".into(); 
    let v = c.ver(0, 20); let f = c.field(8);
    if c.on(f, 1) { e.name = Sy::sy(&d.name, f == 0, TNAME); }
    if c.on(f, 2) { e.color = Sy::sy(&d.color, f == 0, IDX); }
    if c.on(f, 3) { e.line_type_name = Sy::sy(&d.line_type_name, f == 0, ANY); }
    if c.on(f, 4) { e.is_layer_plotted = Sy::sy(&d.is_layer_plotted, f == 0, ANY); }
    if c.on(f, 5) { e.line_weight = Sy::sy(&d.line_weight, f == 0, ANY); }
    if c.on(f, 6) { e.__plot_style_handle = Sy::sy(&d.__plot_style_handle, f == 0, ANY); }
    if c.on(f, 7) { e.__material_handle = Sy::sy(&d.__material_handle, f == 0, ANY); }
    if c.on(f, 8) { e.is_layer_on = Sy::sy(&d.is_layer_on, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_tab_Layer(c, e, v);
    if let Some(r) = r {
        c.chk(r.name.same(&e0.name), "Layer.name", v);
        c.chk(r.color.same(&e0.color), "Layer.color", v);
        c.chk(r.line_type_name.same(&e0.line_type_name), "Layer.line_type_name", v);
        c.chk(r.is_layer_plotted.same(if v >= 15 { &e0.is_layer_plotted } else { &d.is_layer_plotted }), "Layer.is_layer_plotted", v);
        c.chk(r.line_weight.same(if v >= 15 { &e0.line_weight } else { &d.line_weight }), "Layer.line_weight", v);
        c.chk(r.__plot_style_handle.same(if v >= 15 { &e0.__plot_style_handle } else { &d.__plot_style_handle }), "Layer.plot_style", v);
        c.chk(r.__material_handle.same(if v >= 17 { &e0.__material_handle } else { &d.__material_handle }), "Layer.material", v);
        c.chk(r.is_layer_on.same(&e0.is_layer_on), "Layer.is_layer_on", v);
    }
}
fn rt_t_Style(c: &Cx) {
    let d = Style::default();
    let mut e = d.clone();
    e.name = "QQ".into(); 
    let v = c.ver(0, 20); let f = c.field(8);
    if c.on(f, 1) { e.name = Sy::sy(&d.name, f == 0, TNAME); }
    if c.on(f, 2) { e.text_height = Sy::sy(&d.text_height, f == 0, ANY); }
    if c.on(f, 3) { e.width_factor = Sy::sy(&d.width_factor, f == 0, ANY); }
    if c.on(f, 4) { e.oblique_angle = Sy::sy(&d.oblique_angle, f == 0, ANY); }
    if c.on(f, 5) { e.text_generation_flags = Sy::sy(&d.text_generation_flags, f == 0, I16); }
    if c.on(f, 6) { e.last_height_used = Sy::sy(&d.last_height_used, f == 0, ANY); }
    if c.on(f, 7) { e.primary_font_file_name = Sy::sy(&d.primary_font_file_name, f == 0, ANY); }
    if c.on(f, 8) { e.big_font_file_name = Sy::sy(&d.big_font_file_name, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_tab_Style(c, e, v);
    if let Some(r) = r {
        c.chk(r.name.same(&e0.name), "Style.name", v);
        c.chk(r.text_height.same(&e0.text_height), "Style.text_height", v);
        c.chk(r.width_factor.same(&e0.width_factor), "Style.width_factor", v);
        c.chk(r.oblique_angle.same(&e0.oblique_angle), "Style.oblique_angle", v);
        c.chk(r.text_generation_flags.same(&e0.text_generation_flags), "Style.text_generation_flags", v);
        c.chk(r.last_height_used.same(&e0.last_height_used), "Style.last_height_used", v);
        c.chk(r.primary_font_file_name.same(&e0.primary_font_file_name), "Style.primary_font_file_name", v);
        c.chk(r.big_font_file_name.same(&e0.big_font_file_name), "Style.big_font_file_name", v);
    }
}
fn rt_t_Ucs(c: &Cx) {
    let d = Ucs::default();
    let mut e = d.clone();
    e.name = "QQ".into(); 
    let v = c.ver(0, 20); let f = c.field(9);
    if c.on(f, 1) { e.name = Sy::sy(&d.name, f == 0, TNAME); }
    if c.on(f, 2) { e.origin = Sy::sy(&d.origin, f == 0, ANY); }
    if c.on(f, 3) { e.x_axis = Sy::sy(&d.x_axis, f == 0, ANY); }
    if c.on(f, 4) { e.y_axis = Sy::sy(&d.y_axis, f == 0, ANY); }
    if c.on(f, 5) { e.orthographic_view_type = Sy::sy(&d.orthographic_view_type, f == 0, ANY); }
    if c.on(f, 6) { e.elevation = Sy::sy(&d.elevation, f == 0, ANY); }
    if c.on(f, 7) { e.__base_ucs_handle = Sy::sy(&d.__base_ucs_handle, f == 0, ANY); }
    if c.on(f, 8) { e.orthographic_type = Sy::sy(&d.orthographic_type, f == 0, ANY); }
    if c.on(f, 9) { e.orthographic_origin = Sy::sy(&d.orthographic_origin, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_tab_Ucs(c, e, v);
    if let Some(r) = r {
        c.chk(r.name.same(&e0.name), "Ucs.name", v);
        c.chk(r.origin.same(&e0.origin), "Ucs.origin", v);
        c.chk(r.x_axis.same(&e0.x_axis), "Ucs.x_axis", v);
        c.chk(r.y_axis.same(&e0.y_axis), "Ucs.y_axis", v);
        c.chk(r.orthographic_view_type.same(if v >= 15 { &e0.orthographic_view_type } else { &d.orthographic_view_type }), "Ucs.orthographic_view_type", v);
        c.chk(r.elevation.same(if v >= 15 { &e0.elevation } else { &d.elevation }), "Ucs.elevation", v);
        c.chk(r.__base_ucs_handle.same(if v >= 15 { &e0.__base_ucs_handle } else { &d.__base_ucs_handle }), "Ucs.base_ucs", v);
        c.chk(r.orthographic_type.same(if v >= 15 { &e0.orthographic_type } else { &d.orthographic_type }), "Ucs.orthographic_type", v);
        c.chk(r.orthographic_origin.same(if v >= 15 { &e0.orthographic_origin } else { &d.orthographic_origin }), "Ucs.orthographic_origin", v);
    }
}
fn rt_t_View(c: &Cx) {
    let d = View::default();
    let mut e = d.clone();
    e.name = "QQ".into(); e.is_associated_ucs_present = true;
    let v = c.ver(0, 20); let f = c.field(25);
    if c.on(f, 1) { e.name = Sy::sy(&d.name, f == 0, TNAME); }
    if c.on(f, 2) { e.view_height = Sy::sy(&d.view_height, f == 0, ANY); }
    if c.on(f, 3) { e.view_center_point = Sy::sy(&d.view_center_point, f == 0, XY); }
    if c.on(f, 4) { e.view_width = Sy::sy(&d.view_width, f == 0, ANY); }
    if c.on(f, 5) { e.view_direction = Sy::sy(&d.view_direction, f == 0, ANY); }
    if c.on(f, 6) { e.target_point = Sy::sy(&d.target_point, f == 0, ANY); }
    if c.on(f, 7) { e.lens_length = Sy::sy(&d.lens_length, f == 0, ANY); }
    if c.on(f, 8) { e.front_clipping_plane = Sy::sy(&d.front_clipping_plane, f == 0, ANY); }
    if c.on(f, 9) { e.back_clipping_plane = Sy::sy(&d.back_clipping_plane, f == 0, ANY); }
    if c.on(f, 10) { e.twist_angle = Sy::sy(&d.twist_angle, f == 0, ANY); }
    if c.on(f, 11) { e.view_mode = Sy::sy(&d.view_mode, f == 0, ANY); }
    if c.on(f, 12) { e.render_mode = Sy::sy(&d.render_mode, f == 0, ANY); }
    if c.on(f, 13) { e.is_associated_ucs_present = Sy::sy(&d.is_associated_ucs_present, f == 0, ANY); }
    if c.on(f, 14) { e.is_camera_plottable = Sy::sy(&d.is_camera_plottable, f == 0, ANY); }
    if c.on(f, 15) { e.__background_object_handle = Sy::sy(&d.__background_object_handle, f == 0, ANY); }
    if c.on(f, 16) { e.__selection_object_handle = Sy::sy(&d.__selection_object_handle, f == 0, ANY); }
    if c.on(f, 17) { e.__visual_style_object_handle = Sy::sy(&d.__visual_style_object_handle, f == 0, ANY); }
    if c.on(f, 18) { e.__sun_ownership_handle = Sy::sy(&d.__sun_ownership_handle, f == 0, ANY); }
    if c.on(f, 19) { e.ucs_origin = Sy::sy(&d.ucs_origin, f == 0, ANY); }
    if c.on(f, 20) { e.ucs_x_axis = Sy::sy(&d.ucs_x_axis, f == 0, ANY); }
    if c.on(f, 21) { e.ucs_y_axis = Sy::sy(&d.ucs_y_axis, f == 0, ANY); }
    if c.on(f, 22) { e.orthographic_view_type = Sy::sy(&d.orthographic_view_type, f == 0, ANY); }
    if c.on(f, 23) { e.ucs_elevation = Sy::sy(&d.ucs_elevation, f == 0, ANY); }
    if c.on(f, 24) { e.__ucs_handle = Sy::sy(&d.__ucs_handle, f == 0, ANY); }
    if c.on(f, 25) { e.__base_ucs_handle = Sy::sy(&d.__base_ucs_handle, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_tab_View(c, e, v);
    if let Some(r) = r {
        c.chk(r.name.same(&e0.name), "View.name", v);
        c.chk(r.view_height.same(&e0.view_height), "View.view_height", v);
        c.chk(r.view_center_point.same(&e0.view_center_point), "View.view_center_point", v);
        c.chk(r.view_width.same(&e0.view_width), "View.view_width", v);
        c.chk(r.view_direction.same(&e0.view_direction), "View.view_direction", v);
        c.chk(r.target_point.same(&e0.target_point), "View.target_point", v);
        c.chk(r.lens_length.same(&e0.lens_length), "View.lens_length", v);
        c.chk(r.front_clipping_plane.same(&e0.front_clipping_plane), "View.front_clipping_plane", v);
        c.chk(r.back_clipping_plane.same(&e0.back_clipping_plane), "View.back_clipping_plane", v);
        c.chk(r.twist_angle.same(&e0.twist_angle), "View.twist_angle", v);
        c.chk(r.view_mode.same(&e0.view_mode), "View.view_mode", v);
        c.chk(r.render_mode.same(if v >= 15 { &e0.render_mode } else { &d.render_mode }), "View.render_mode", v);
        c.chk(r.is_associated_ucs_present.same(if v >= 15 { &e0.is_associated_ucs_present } else { &d.is_associated_ucs_present }), "View.is_associated_ucs_present", v);
        c.chk(r.is_camera_plottable.same(if v >= 17 { &e0.is_camera_plottable } else { &d.is_camera_plottable }), "View.is_camera_plottable", v);
        c.chk(r.__background_object_handle.same(if v >= 17 { &e0.__background_object_handle } else { &d.__background_object_handle }), "View.background_object", v);
        c.chk(r.__selection_object_handle.same(if v >= 17 { &e0.__selection_object_handle } else { &d.__selection_object_handle }), "View.selection_object", v);
        c.chk(r.__visual_style_object_handle.same(if v >= 17 { &e0.__visual_style_object_handle } else { &d.__visual_style_object_handle }), "View.visual_style_object", v);
        c.chk(r.__sun_ownership_handle.same(if v >= 17 { &e0.__sun_ownership_handle } else { &d.__sun_ownership_handle }), "View.sun_ownership", v);
        c.chk(r.ucs_origin.same(if v >= 15 && e0.is_associated_ucs_present { &e0.ucs_origin } else { &d.ucs_origin }), "View.ucs_origin", v);
        c.chk(r.ucs_x_axis.same(if v >= 15 && e0.is_associated_ucs_present { &e0.ucs_x_axis } else { &d.ucs_x_axis }), "View.ucs_x_axis", v);
        c.chk(r.ucs_y_axis.same(if v >= 15 && e0.is_associated_ucs_present { &e0.ucs_y_axis } else { &d.ucs_y_axis }), "View.ucs_y_axis", v);
        c.chk(r.orthographic_view_type.same(if v >= 15 && e0.is_associated_ucs_present { &e0.orthographic_view_type } else { &d.orthographic_view_type }), "View.orthographic_view_type", v);
        c.chk(r.ucs_elevation.same(if v >= 15 && e0.is_associated_ucs_present { &e0.ucs_elevation } else { &d.ucs_elevation }), "View.ucs_elevation", v);
        c.chk(r.__ucs_handle.same(if v >= 17 && e0.is_associated_ucs_present { &e0.__ucs_handle } else { &d.__ucs_handle }), "View.ucs", v);
        c.chk(r.__base_ucs_handle.same(if v >= 17 && e0.is_associated_ucs_present { &e0.__base_ucs_handle } else { &d.__base_ucs_handle }), "View.base_ucs", v);
    }
}
fn rt_t_ViewPort(c: &Cx) {
    let d = ViewPort::default();
    let mut e = d.clone();
    e.name = "QQ".into(); e.has_own_ucs = true;
    let v = c.ver(0, 20); let f = c.field(46);
    if c.on(f, 1) { e.name = Sy::sy(&d.name, f == 0, TNAME); }
    if c.on(f, 2) { e.lower_left = Sy::sy(&d.lower_left, f == 0, XY); }
    if c.on(f, 3) { e.upper_right = Sy::sy(&d.upper_right, f == 0, XY); }
    if c.on(f, 4) { e.view_center = Sy::sy(&d.view_center, f == 0, XY); }
    if c.on(f, 5) { e.snap_base_point = Sy::sy(&d.snap_base_point, f == 0, XY); }
    if c.on(f, 6) { e.snap_spacing = Sy::sy(&d.snap_spacing, f == 0, XY); }
    if c.on(f, 7) { e.grid_spacing = Sy::sy(&d.grid_spacing, f == 0, XY); }
    if c.on(f, 8) { e.view_direction = Sy::sy(&d.view_direction, f == 0, ANY); }
    if c.on(f, 9) { e.target_view_point = Sy::sy(&d.target_view_point, f == 0, ANY); }
    if c.on(f, 10) { e.view_height = Sy::sy(&d.view_height, f == 0, ANY); }
    if c.on(f, 11) { e.view_port_aspect_ratio = Sy::sy(&d.view_port_aspect_ratio, f == 0, ANY); }
    if c.on(f, 12) { e.lens_length = Sy::sy(&d.lens_length, f == 0, ANY); }
    if c.on(f, 13) { e.front_clipping_plane = Sy::sy(&d.front_clipping_plane, f == 0, ANY); }
    if c.on(f, 14) { e.back_clipping_plane = Sy::sy(&d.back_clipping_plane, f == 0, ANY); }
    if c.on(f, 15) { e.snap_rotation_angle = Sy::sy(&d.snap_rotation_angle, f == 0, ANY); }
    if c.on(f, 16) { e.view_twist_angle = Sy::sy(&d.view_twist_angle, f == 0, ANY); }
    if c.on(f, 17) { e.view_mode = Sy::sy(&d.view_mode, f == 0, ANY); }
    if c.on(f, 18) { e.circle_sides = Sy::sy(&d.circle_sides, f == 0, I16); }
    if c.on(f, 19) { e.fast_zoom = Sy::sy(&d.fast_zoom, f == 0, ANY); }
    if c.on(f, 20) { e.ucs_icon = Sy::sy(&d.ucs_icon, f == 0, ANY); }
    if c.on(f, 21) { e.snap_on = Sy::sy(&d.snap_on, f == 0, ANY); }
    if c.on(f, 22) { e.grid_on = Sy::sy(&d.grid_on, f == 0, ANY); }
    if c.on(f, 23) { e.snap_style = Sy::sy(&d.snap_style, f == 0, ANY); }
    if c.on(f, 24) { e.snap_isometric_plane = Sy::sy(&d.snap_isometric_plane, f == 0, ANY); }
    if c.on(f, 25) { e.plot_style_sheet = Sy::sy(&d.plot_style_sheet, f == 0, ANY); }
    if c.on(f, 26) { e.render_mode = Sy::sy(&d.render_mode, f == 0, ANY); }
    if c.on(f, 27) { e.has_own_ucs = Sy::sy(&d.has_own_ucs, f == 0, ANY); }
    if c.on(f, 28) { e.ucs_origin = Sy::sy(&d.ucs_origin, f == 0, ANY); }
    if c.on(f, 29) { e.ucs_x_axis = Sy::sy(&d.ucs_x_axis, f == 0, ANY); }
    if c.on(f, 30) { e.ucs_y_axis = Sy::sy(&d.ucs_y_axis, f == 0, ANY); }
    if c.on(f, 31) { e.orthographic_view_type = Sy::sy(&d.orthographic_view_type, f == 0, ANY); }
    if c.on(f, 32) { e.ucs_elevation = Sy::sy(&d.ucs_elevation, f == 0, ANY); }
    if c.on(f, 33) { e.__ucs_handle = Sy::sy(&d.__ucs_handle, f == 0, ANY); }
    if c.on(f, 34) { e.__base_ucs_handle = Sy::sy(&d.__base_ucs_handle, f == 0, ANY); }
    if c.on(f, 35) { e.shade_plot_setting = Sy::sy(&d.shade_plot_setting, f == 0, ANY); }
    if c.on(f, 36) { e.major_grid_lines = Sy::sy(&d.major_grid_lines, f == 0, ANY); }
    if c.on(f, 37) { e.__background_object_handle = Sy::sy(&d.__background_object_handle, f == 0, ANY); }
    if c.on(f, 38) { e.__shade_plot_object_handle = Sy::sy(&d.__shade_plot_object_handle, f == 0, ANY); }
    if c.on(f, 39) { e.__visual_style_object_handle = Sy::sy(&d.__visual_style_object_handle, f == 0, ANY); }
    if c.on(f, 40) { e.is_default_lighting_on = Sy::sy(&d.is_default_lighting_on, f == 0, ANY); }
    if c.on(f, 41) { e.default_lighting_type = Sy::sy(&d.default_lighting_type, f == 0, ANY); }
    if c.on(f, 42) { e.brightness = Sy::sy(&d.brightness, f == 0, ANY); }
    if c.on(f, 43) { e.contrast = Sy::sy(&d.contrast, f == 0, ANY); }
    if c.on(f, 44) { e.ambient_color = Sy::sy(&d.ambient_color, f == 0, ANY); }
    if c.on(f, 45) { e.ambient_color_i32 = Sy::sy(&d.ambient_color_i32, f == 0, ANY); }
    if c.on(f, 46) { e.ambient_color_name = Sy::sy(&d.ambient_color_name, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_tab_ViewPort(c, e, v);
    if let Some(r) = r {
        c.chk(r.name.same(&e0.name), "ViewPort.name", v);
        c.chk(r.lower_left.same(&e0.lower_left), "ViewPort.lower_left", v);
        c.chk(r.upper_right.same(&e0.upper_right), "ViewPort.upper_right", v);
        c.chk(r.view_center.same(&e0.view_center), "ViewPort.view_center", v);
        c.chk(r.snap_base_point.same(&e0.snap_base_point), "ViewPort.snap_base_point", v);
        c.chk(r.snap_spacing.same(&e0.snap_spacing), "ViewPort.snap_spacing", v);
        c.chk(r.grid_spacing.same(&e0.grid_spacing), "ViewPort.grid_spacing", v);
        c.chk(r.view_direction.same(&e0.view_direction), "ViewPort.view_direction", v);
        c.chk(r.target_view_point.same(&e0.target_view_point), "ViewPort.target_view_point", v);
        c.chk(r.view_height.same(&e0.view_height), "ViewPort.view_height", v);
        c.chk(r.view_port_aspect_ratio.same(if v <= 16 { &e0.view_port_aspect_ratio } else { &d.view_port_aspect_ratio }), "ViewPort.view_port_aspect_ratio", v);
        c.chk(r.lens_length.same(&e0.lens_length), "ViewPort.lens_length", v);
        c.chk(r.front_clipping_plane.same(&e0.front_clipping_plane), "ViewPort.front_clipping_plane", v);
        c.chk(r.back_clipping_plane.same(&e0.back_clipping_plane), "ViewPort.back_clipping_plane", v);
        c.chk(r.snap_rotation_angle.same(&e0.snap_rotation_angle), "ViewPort.snap_rotation_angle", v);
        c.chk(r.view_twist_angle.same(&e0.view_twist_angle), "ViewPort.view_twist_angle", v);
        c.chk(r.view_mode.same(&e0.view_mode), "ViewPort.view_mode", v);
        c.chk(r.circle_sides.same(&e0.circle_sides), "ViewPort.circle_sides", v);
        c.chk(r.fast_zoom.same(if v <= 16 { &e0.fast_zoom } else { &d.fast_zoom }), "ViewPort.fast_zoom", v);
        c.chk(r.ucs_icon.same(&e0.ucs_icon), "ViewPort.ucs_icon", v);
        c.chk(r.snap_on.same(if v <= 16 { &e0.snap_on } else { &d.snap_on }), "ViewPort.snap_on", v);
        c.chk(r.grid_on.same(if v <= 16 { &e0.grid_on } else { &d.grid_on }), "ViewPort.grid_on", v);
        c.chk(r.snap_style.same(if v <= 16 { &e0.snap_style } else { &d.snap_style }), "ViewPort.snap_style", v);
        c.chk(r.snap_isometric_plane.same(if v <= 16 { &e0.snap_isometric_plane } else { &d.snap_isometric_plane }), "ViewPort.snap_isometric_plane", v);
        c.chk(r.plot_style_sheet.same(if v >= 17 { &e0.plot_style_sheet } else { &d.plot_style_sheet }), "ViewPort.plot_style_sheet", v);
        c.chk(r.render_mode.same(if v >= 15 { &e0.render_mode } else { &d.render_mode }), "ViewPort.render_mode", v);
        c.chk(r.has_own_ucs.same(if v >= 15 && v <= 16 { &e0.has_own_ucs } else { &d.has_own_ucs }), "ViewPort.has_own_ucs", v);
        c.chk(r.ucs_origin.same(if v >= 15 && e0.has_own_ucs { &e0.ucs_origin } else { &d.ucs_origin }), "ViewPort.ucs_origin", v);
        c.chk(r.ucs_x_axis.same(if v >= 15 && e0.has_own_ucs { &e0.ucs_x_axis } else { &d.ucs_x_axis }), "ViewPort.ucs_x_axis", v);
        c.chk(r.ucs_y_axis.same(if v >= 15 && e0.has_own_ucs { &e0.ucs_y_axis } else { &d.ucs_y_axis }), "ViewPort.ucs_y_axis", v);
        c.chk(r.orthographic_view_type.same(if v >= 15 && e0.has_own_ucs { &e0.orthographic_view_type } else { &d.orthographic_view_type }), "ViewPort.orthographic_view_type", v);
        c.chk(r.ucs_elevation.same(if v >= 15 && e0.has_own_ucs { &e0.ucs_elevation } else { &d.ucs_elevation }), "ViewPort.ucs_elevation", v);
        c.chk(r.__ucs_handle.same(if v >= 15 && e0.has_own_ucs { &e0.__ucs_handle } else { &d.__ucs_handle }), "ViewPort.ucs", v);
        c.chk(r.__base_ucs_handle.same(if v >= 15 && e0.has_own_ucs { &e0.__base_ucs_handle } else { &d.__base_ucs_handle }), "ViewPort.base_ucs", v);
        c.chk(r.shade_plot_setting.same(if v >= 17 { &e0.shade_plot_setting } else { &d.shade_plot_setting }), "ViewPort.shade_plot_setting", v);
        c.chk(r.major_grid_lines.same(if v >= 17 { &e0.major_grid_lines } else { &d.major_grid_lines }), "ViewPort.major_grid_lines", v);
        c.chk(r.__background_object_handle.same(if v >= 17 { &e0.__background_object_handle } else { &d.__background_object_handle }), "ViewPort.background_object", v);
        c.chk(r.__shade_plot_object_handle.same(if v >= 17 { &e0.__shade_plot_object_handle } else { &d.__shade_plot_object_handle }), "ViewPort.shade_plot_object", v);
        c.chk(r.__visual_style_object_handle.same(if v >= 17 { &e0.__visual_style_object_handle } else { &d.__visual_style_object_handle }), "ViewPort.visual_style_object", v);
        c.chk(r.is_default_lighting_on.same(if v >= 17 { &e0.is_default_lighting_on } else { &d.is_default_lighting_on }), "ViewPort.is_default_lighting_on", v);
        c.chk(r.default_lighting_type.same(if v >= 17 { &e0.default_lighting_type } else { &d.default_lighting_type }), "ViewPort.default_lighting_type", v);
        c.chk(r.brightness.same(if v >= 17 { &e0.brightness } else { &d.brightness }), "ViewPort.brightness", v);
        c.chk(r.contrast.same(if v >= 17 { &e0.contrast } else { &d.contrast }), "ViewPort.contrast", v);
        c.chk(r.ambient_color.same(if v >= 17 { &e0.ambient_color } else { &d.ambient_color }), "ViewPort.ambient_color", v);
        c.chk(r.ambient_color_i32.same(if v >= 17 { &e0.ambient_color_i32 } else { &d.ambient_color_i32 }), "ViewPort.ambient_color_i32", v);
        c.chk(r.ambient_color_name.same(if v >= 17 { &e0.ambient_color_name } else { &d.ambient_color_name }), "ViewPort.ambient_color_name", v);
    }
}
pub static TAB: &[(&str, fn(&Cx), u32)] = &[
    ("AppId", rt_t_AppId, 1),
    ("BlockRecord", rt_t_BlockRecord, 5),
    ("DimStyle", rt_t_DimStyle, 64),
    ("LineType", rt_t_LineType, 14),
    ("Layer", rt_t_Layer, 8),
    ("Style", rt_t_Style, 8),
    ("Ucs", rt_t_Ucs, 9),
    ("View", rt_t_View, 25),
    ("ViewPort", rt_t_ViewPort, 46),
];
