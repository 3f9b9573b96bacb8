// Generated by tools/gen_harness.py; do not edit.
#![allow(non_snake_case, clippy::all)]
use crate::sym::*;
use crate::rt::*;
use dxf::enums::*;
use dxf::*;

fn h_maintenance_version(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.maintenance_version = Sy::sy(&d.maintenance_version, false, ANY); let x = e.maintenance_version.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.maintenance_version.same(if (14..=20).contains(&v) { &x } else { &d.maintenance_version }), "Header.maintenance_version", v); } }
}
fn h_drawing_code_page(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.drawing_code_page = Sy::sy(&d.drawing_code_page, false, ANY); let x = e.drawing_code_page.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.drawing_code_page.same(if (13..=20).contains(&v) { &x } else { &d.drawing_code_page }), "Header.drawing_code_page", v); } }
}
fn h_last_saved_by(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.last_saved_by = Sy::sy(&d.last_saved_by, false, ANY); let x = e.last_saved_by.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.last_saved_by.same(if (16..=20).contains(&v) { &x } else { &d.last_saved_by }), "Header.last_saved_by", v); } }
}
fn h_required_versions(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.required_versions = Sy::sy(&d.required_versions, false, ANY); let x = e.required_versions.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.required_versions.same(if (19..=20).contains(&v) { &x } else { &d.required_versions }), "Header.required_versions", v); } }
}
fn h_insertion_base(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.insertion_base = Sy::sy(&d.insertion_base, false, ANY); let x = e.insertion_base.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.insertion_base.same(if (0..=20).contains(&v) { &x } else { &d.insertion_base }), "Header.insertion_base", v); } }
}
fn h_minimum_drawing_extents(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.minimum_drawing_extents = Sy::sy(&d.minimum_drawing_extents, false, ANY); let x = e.minimum_drawing_extents.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.minimum_drawing_extents.same(if (0..=20).contains(&v) { &x } else { &d.minimum_drawing_extents }), "Header.minimum_drawing_extents", v); } }
}
fn h_maximum_drawing_extents(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.maximum_drawing_extents = Sy::sy(&d.maximum_drawing_extents, false, ANY); let x = e.maximum_drawing_extents.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.maximum_drawing_extents.same(if (0..=20).contains(&v) { &x } else { &d.maximum_drawing_extents }), "Header.maximum_drawing_extents", v); } }
}
fn h_minimum_drawing_limits(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.minimum_drawing_limits = Sy::sy(&d.minimum_drawing_limits, false, XY); let x = e.minimum_drawing_limits.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.minimum_drawing_limits.same(if (0..=20).contains(&v) { &x } else { &d.minimum_drawing_limits }), "Header.minimum_drawing_limits", v); } }
}
fn h_maximum_drawing_limits(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.maximum_drawing_limits = Sy::sy(&d.maximum_drawing_limits, false, XY); let x = e.maximum_drawing_limits.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.maximum_drawing_limits.same(if (0..=20).contains(&v) { &x } else { &d.maximum_drawing_limits }), "Header.maximum_drawing_limits", v); } }
}
fn h_draw_orthogonal_lines(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.draw_orthogonal_lines = Sy::sy(&d.draw_orthogonal_lines, false, ANY); let x = e.draw_orthogonal_lines.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.draw_orthogonal_lines.same(if (0..=20).contains(&v) { &x } else { &d.draw_orthogonal_lines }), "Header.draw_orthogonal_lines", v); } }
}
fn h_use_regen_mode(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.use_regen_mode = Sy::sy(&d.use_regen_mode, false, ANY); let x = e.use_regen_mode.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.use_regen_mode.same(if (0..=20).contains(&v) { &x } else { &d.use_regen_mode }), "Header.use_regen_mode", v); } }
}
fn h_fill_mode_on(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.fill_mode_on = Sy::sy(&d.fill_mode_on, false, ANY); let x = e.fill_mode_on.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.fill_mode_on.same(if (0..=20).contains(&v) { &x } else { &d.fill_mode_on }), "Header.fill_mode_on", v); } }
}
fn h_use_quick_text_mode(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.use_quick_text_mode = Sy::sy(&d.use_quick_text_mode, false, ANY); let x = e.use_quick_text_mode.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.use_quick_text_mode.same(if (0..=20).contains(&v) { &x } else { &d.use_quick_text_mode }), "Header.use_quick_text_mode", v); } }
}
fn h_mirror_text(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.mirror_text = Sy::sy(&d.mirror_text, false, ANY); let x = e.mirror_text.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.mirror_text.same(if (0..=20).contains(&v) { &x } else { &d.mirror_text }), "Header.mirror_text", v); } }
}
fn h_drag_mode(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.drag_mode = Sy::sy(&d.drag_mode, false, ANY); let x = e.drag_mode.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.drag_mode.same(if (0..=14).contains(&v) { &x } else { &d.drag_mode }), "Header.drag_mode", v); } }
}
fn h_line_type_scale(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.line_type_scale = Sy::sy(&d.line_type_scale, false, ANY); let x = e.line_type_scale.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.line_type_scale.same(if (0..=20).contains(&v) { &x } else { &d.line_type_scale }), "Header.line_type_scale", v); } }
}
fn h_object_snap_flags(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.object_snap_flags = Sy::sy(&d.object_snap_flags, false, I16); let x = e.object_snap_flags.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.object_snap_flags.same(if (0..=14).contains(&v) { &x } else { &d.object_snap_flags }), "Header.object_snap_flags", v); } }
}
fn h_attribute_visibility(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.attribute_visibility = Sy::sy(&d.attribute_visibility, false, ANY); let x = e.attribute_visibility.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.attribute_visibility.same(if (0..=20).contains(&v) { &x } else { &d.attribute_visibility }), "Header.attribute_visibility", v); } }
}
fn h_default_text_height(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.default_text_height = Sy::sy(&d.default_text_height, false, ANY); let x = e.default_text_height.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.default_text_height.same(if (0..=20).contains(&v) { &x } else { &d.default_text_height }), "Header.default_text_height", v); } }
}
fn h_trace_width(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.trace_width = Sy::sy(&d.trace_width, false, ANY); let x = e.trace_width.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.trace_width.same(if (0..=20).contains(&v) { &x } else { &d.trace_width }), "Header.trace_width", v); } }
}
fn h_text_style(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.text_style = Sy::sy(&d.text_style, false, ANY); let x = e.text_style.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.text_style.same(if (0..=20).contains(&v) { &x } else { &d.text_style }), "Header.text_style", v); } }
}
fn h_current_layer(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.current_layer = Sy::sy(&d.current_layer, false, ANY); let x = e.current_layer.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.current_layer.same(if (0..=20).contains(&v) { &x } else { &d.current_layer }), "Header.current_layer", v); } }
}
fn h_current_entity_line_type(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.current_entity_line_type = Sy::sy(&d.current_entity_line_type, false, ANY); let x = e.current_entity_line_type.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.current_entity_line_type.same(if (0..=20).contains(&v) { &x } else { &d.current_entity_line_type }), "Header.current_entity_line_type", v); } }
}
fn h_current_entity_color(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.current_entity_color = Sy::sy(&d.current_entity_color, false, ANY); let x = e.current_entity_color.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.current_entity_color.same(if (0..=20).contains(&v) { &x } else { &d.current_entity_color }), "Header.current_entity_color", v); } }
}
fn h_current_entity_line_type_scale(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.current_entity_line_type_scale = Sy::sy(&d.current_entity_line_type_scale, false, ANY); let x = e.current_entity_line_type_scale.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.current_entity_line_type_scale.same(if (13..=20).contains(&v) { &x } else { &d.current_entity_line_type_scale }), "Header.current_entity_line_type_scale", v); } }
}
fn h_retain_deleted_objects(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.retain_deleted_objects = Sy::sy(&d.retain_deleted_objects, false, ANY); let x = e.retain_deleted_objects.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.retain_deleted_objects.same(if (13..=14).contains(&v) { &x } else { &d.retain_deleted_objects }), "Header.retain_deleted_objects", v); } }
}
fn h_display_silhouette_curves_in_wireframe_mode(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.display_silhouette_curves_in_wireframe_mode = Sy::sy(&d.display_silhouette_curves_in_wireframe_mode, false, ANY); let x = e.display_silhouette_curves_in_wireframe_mode.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.display_silhouette_curves_in_wireframe_mode.same(if (13..=20).contains(&v) { &x } else { &d.display_silhouette_curves_in_wireframe_mode }), "Header.display_silhouette_curves_in_wireframe_mode", v); } }
}
fn h_solid_visual_style_pointer(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.solid_visual_style_pointer = Sy::sy(&d.solid_visual_style_pointer, false, ANY); let x = e.solid_visual_style_pointer.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.solid_visual_style_pointer.same(if (17..=20).contains(&v) { &x } else { &d.solid_visual_style_pointer }), "Header.solid_visual_style_pointer", v); } }
}
fn h_dimensioning_scale_factor(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimensioning_scale_factor = Sy::sy(&d.dimensioning_scale_factor, false, ANY); let x = e.dimensioning_scale_factor.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimensioning_scale_factor.same(if (0..=20).contains(&v) { &x } else { &d.dimensioning_scale_factor }), "Header.dimensioning_scale_factor", v); } }
}
fn h_dimensioning_arrow_size(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimensioning_arrow_size = Sy::sy(&d.dimensioning_arrow_size, false, ANY); let x = e.dimensioning_arrow_size.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimensioning_arrow_size.same(if (0..=20).contains(&v) { &x } else { &d.dimensioning_arrow_size }), "Header.dimensioning_arrow_size", v); } }
}
fn h_dimension_extension_line_offset(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_extension_line_offset = Sy::sy(&d.dimension_extension_line_offset, false, ANY); let x = e.dimension_extension_line_offset.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_extension_line_offset.same(if (0..=20).contains(&v) { &x } else { &d.dimension_extension_line_offset }), "Header.dimension_extension_line_offset", v); } }
}
fn h_dimension_line_increment(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_line_increment = Sy::sy(&d.dimension_line_increment, false, ANY); let x = e.dimension_line_increment.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_line_increment.same(if (0..=20).contains(&v) { &x } else { &d.dimension_line_increment }), "Header.dimension_line_increment", v); } }
}
fn h_dimension_distance_rounding_value(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_distance_rounding_value = Sy::sy(&d.dimension_distance_rounding_value, false, ANY); let x = e.dimension_distance_rounding_value.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_distance_rounding_value.same(if (0..=20).contains(&v) { &x } else { &d.dimension_distance_rounding_value }), "Header.dimension_distance_rounding_value", v); } }
}
fn h_dimension_line_extension(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_line_extension = Sy::sy(&d.dimension_line_extension, false, ANY); let x = e.dimension_line_extension.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_line_extension.same(if (0..=20).contains(&v) { &x } else { &d.dimension_line_extension }), "Header.dimension_line_extension", v); } }
}
fn h_dimension_extension_line_extension(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_extension_line_extension = Sy::sy(&d.dimension_extension_line_extension, false, ANY); let x = e.dimension_extension_line_extension.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_extension_line_extension.same(if (0..=20).contains(&v) { &x } else { &d.dimension_extension_line_extension }), "Header.dimension_extension_line_extension", v); } }
}
fn h_dimension_plus_tolerance(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_plus_tolerance = Sy::sy(&d.dimension_plus_tolerance, false, ANY); let x = e.dimension_plus_tolerance.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_plus_tolerance.same(if (0..=20).contains(&v) { &x } else { &d.dimension_plus_tolerance }), "Header.dimension_plus_tolerance", v); } }
}
fn h_dimension_minus_tolerance(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_minus_tolerance = Sy::sy(&d.dimension_minus_tolerance, false, ANY); let x = e.dimension_minus_tolerance.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_minus_tolerance.same(if (0..=20).contains(&v) { &x } else { &d.dimension_minus_tolerance }), "Header.dimension_minus_tolerance", v); } }
}
fn h_dimensioning_text_height(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimensioning_text_height = Sy::sy(&d.dimensioning_text_height, false, ANY); let x = e.dimensioning_text_height.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimensioning_text_height.same(if (0..=20).contains(&v) { &x } else { &d.dimensioning_text_height }), "Header.dimensioning_text_height", v); } }
}
fn h_center_mark_size(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.center_mark_size = Sy::sy(&d.center_mark_size, false, ANY); let x = e.center_mark_size.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.center_mark_size.same(if (0..=20).contains(&v) { &x } else { &d.center_mark_size }), "Header.center_mark_size", v); } }
}
fn h_dimensioning_tick_size(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimensioning_tick_size = Sy::sy(&d.dimensioning_tick_size, false, ANY); let x = e.dimensioning_tick_size.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimensioning_tick_size.same(if (0..=20).contains(&v) { &x } else { &d.dimensioning_tick_size }), "Header.dimensioning_tick_size", v); } }
}
fn h_generate_dimension_tolerances(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.generate_dimension_tolerances = Sy::sy(&d.generate_dimension_tolerances, false, ANY); let x = e.generate_dimension_tolerances.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.generate_dimension_tolerances.same(if (0..=20).contains(&v) { &x } else { &d.generate_dimension_tolerances }), "Header.generate_dimension_tolerances", v); } }
}
fn h_generate_dimension_limits(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.generate_dimension_limits = Sy::sy(&d.generate_dimension_limits, false, ANY); let x = e.generate_dimension_limits.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.generate_dimension_limits.same(if (0..=20).contains(&v) { &x } else { &d.generate_dimension_limits }), "Header.generate_dimension_limits", v); } }
}
fn h_dimension_text_inside_horizontal(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_text_inside_horizontal = Sy::sy(&d.dimension_text_inside_horizontal, false, ANY); let x = e.dimension_text_inside_horizontal.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_text_inside_horizontal.same(if (0..=20).contains(&v) { &x } else { &d.dimension_text_inside_horizontal }), "Header.dimension_text_inside_horizontal", v); } }
}
fn h_dimension_text_outside_horizontal(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_text_outside_horizontal = Sy::sy(&d.dimension_text_outside_horizontal, false, ANY); let x = e.dimension_text_outside_horizontal.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_text_outside_horizontal.same(if (0..=20).contains(&v) { &x } else { &d.dimension_text_outside_horizontal }), "Header.dimension_text_outside_horizontal", v); } }
}
fn h_suppress_first_dimension_extension_line(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.suppress_first_dimension_extension_line = Sy::sy(&d.suppress_first_dimension_extension_line, false, ANY); let x = e.suppress_first_dimension_extension_line.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.suppress_first_dimension_extension_line.same(if (12..=20).contains(&v) || (13..=20).contains(&v) { &x } else { &d.suppress_first_dimension_extension_line }), "Header.suppress_first_dimension_extension_line", v); } }
}
fn h_suppress_second_dimension_extension_line(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.suppress_second_dimension_extension_line = Sy::sy(&d.suppress_second_dimension_extension_line, false, ANY); let x = e.suppress_second_dimension_extension_line.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.suppress_second_dimension_extension_line.same(if (12..=20).contains(&v) || (13..=20).contains(&v) { &x } else { &d.suppress_second_dimension_extension_line }), "Header.suppress_second_dimension_extension_line", v); } }
}
fn h_text_above_dimension_line(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.text_above_dimension_line = Sy::sy(&d.text_above_dimension_line, false, ANY); let x = e.text_above_dimension_line.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.text_above_dimension_line.same(if (0..=20).contains(&v) { &x } else { &d.text_above_dimension_line }), "Header.text_above_dimension_line", v); } }
}
fn h_dimension_unit_zero_suppression(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_unit_zero_suppression = Sy::sy(&d.dimension_unit_zero_suppression, false, ANY); let x = e.dimension_unit_zero_suppression.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_unit_zero_suppression.same(if (0..=20).contains(&v) { &x } else { &d.dimension_unit_zero_suppression }), "Header.dimension_unit_zero_suppression", v); } }
}
fn h_arrow_block_name(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.arrow_block_name = Sy::sy(&d.arrow_block_name, false, ANY); let x = e.arrow_block_name.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.arrow_block_name.same(if (0..=20).contains(&v) { &x } else { &d.arrow_block_name }), "Header.arrow_block_name", v); } }
}
fn h_create_associative_dimensioning(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.create_associative_dimensioning = Sy::sy(&d.create_associative_dimensioning, false, ANY); let x = e.create_associative_dimensioning.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.create_associative_dimensioning.same(if (0..=20).contains(&v) { &x } else { &d.create_associative_dimensioning }), "Header.create_associative_dimensioning", v); } }
}
fn h_recompute_dimensions_while_dragging(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.recompute_dimensions_while_dragging = Sy::sy(&d.recompute_dimensions_while_dragging, false, ANY); let x = e.recompute_dimensions_while_dragging.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.recompute_dimensions_while_dragging.same(if (0..=20).contains(&v) { &x } else { &d.recompute_dimensions_while_dragging }), "Header.recompute_dimensions_while_dragging", v); } }
}
fn h_dimensioning_suffix(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimensioning_suffix = Sy::sy(&d.dimensioning_suffix, false, ANY); let x = e.dimensioning_suffix.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimensioning_suffix.same(if (0..=20).contains(&v) { &x } else { &d.dimensioning_suffix }), "Header.dimensioning_suffix", v); } }
}
fn h_alternate_dimensioning_suffix(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.alternate_dimensioning_suffix = Sy::sy(&d.alternate_dimensioning_suffix, false, ANY); let x = e.alternate_dimensioning_suffix.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.alternate_dimensioning_suffix.same(if (0..=20).contains(&v) { &x } else { &d.alternate_dimensioning_suffix }), "Header.alternate_dimensioning_suffix", v); } }
}
fn h_use_alternate_dimensioning(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.use_alternate_dimensioning = Sy::sy(&d.use_alternate_dimensioning, false, ANY); let x = e.use_alternate_dimensioning.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.use_alternate_dimensioning.same(if (0..=20).contains(&v) { &x } else { &d.use_alternate_dimensioning }), "Header.use_alternate_dimensioning", v); } }
}
fn h_alternate_dimensioning_decimal_places(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.alternate_dimensioning_decimal_places = Sy::sy(&d.alternate_dimensioning_decimal_places, false, ANY); let x = e.alternate_dimensioning_decimal_places.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.alternate_dimensioning_decimal_places.same(if (0..=20).contains(&v) { &x } else { &d.alternate_dimensioning_decimal_places }), "Header.alternate_dimensioning_decimal_places", v); } }
}
fn h_alternate_dimensioning_scale_factor(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.alternate_dimensioning_scale_factor = Sy::sy(&d.alternate_dimensioning_scale_factor, false, ANY); let x = e.alternate_dimensioning_scale_factor.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.alternate_dimensioning_scale_factor.same(if (0..=20).contains(&v) { &x } else { &d.alternate_dimensioning_scale_factor }), "Header.alternate_dimensioning_scale_factor", v); } }
}
fn h_dimension_linear_measurements_scale_factor(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_linear_measurements_scale_factor = Sy::sy(&d.dimension_linear_measurements_scale_factor, false, ANY); let x = e.dimension_linear_measurements_scale_factor.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_linear_measurements_scale_factor.same(if (0..=20).contains(&v) { &x } else { &d.dimension_linear_measurements_scale_factor }), "Header.dimension_linear_measurements_scale_factor", v); } }
}
fn h_force_dimension_line_extensions_outside_if_text_is(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.force_dimension_line_extensions_outside_if_text_is = Sy::sy(&d.force_dimension_line_extensions_outside_if_text_is, false, ANY); let x = e.force_dimension_line_extensions_outside_if_text_is.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.force_dimension_line_extensions_outside_if_text_is.same(if (0..=20).contains(&v) { &x } else { &d.force_dimension_line_extensions_outside_if_text_is }), "Header.force_dimension_line_extensions_outside_if_text_is", v); } }
}
fn h_dimension_vertical_text_position(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_vertical_text_position = Sy::sy(&d.dimension_vertical_text_position, false, ANY); let x = e.dimension_vertical_text_position.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_vertical_text_position.same(if (0..=20).contains(&v) { &x } else { &d.dimension_vertical_text_position }), "Header.dimension_vertical_text_position", v); } }
}
fn h_force_dimension_text_inside_extensions(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.force_dimension_text_inside_extensions = Sy::sy(&d.force_dimension_text_inside_extensions, false, ANY); let x = e.force_dimension_text_inside_extensions.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.force_dimension_text_inside_extensions.same(if (0..=20).contains(&v) { &x } else { &d.force_dimension_text_inside_extensions }), "Header.force_dimension_text_inside_extensions", v); } }
}
fn h_suppress_outside_extension_dimension_lines(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.suppress_outside_extension_dimension_lines = Sy::sy(&d.suppress_outside_extension_dimension_lines, false, ANY); let x = e.suppress_outside_extension_dimension_lines.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.suppress_outside_extension_dimension_lines.same(if (0..=20).contains(&v) { &x } else { &d.suppress_outside_extension_dimension_lines }), "Header.suppress_outside_extension_dimension_lines", v); } }
}
fn h_use_separate_arrow_blocks_for_dimensions(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.use_separate_arrow_blocks_for_dimensions = Sy::sy(&d.use_separate_arrow_blocks_for_dimensions, false, ANY); let x = e.use_separate_arrow_blocks_for_dimensions.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.use_separate_arrow_blocks_for_dimensions.same(if (0..=20).contains(&v) { &x } else { &d.use_separate_arrow_blocks_for_dimensions }), "Header.use_separate_arrow_blocks_for_dimensions", v); } }
}
fn h_first_arrow_block_name(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.first_arrow_block_name = Sy::sy(&d.first_arrow_block_name, false, ANY); let x = e.first_arrow_block_name.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.first_arrow_block_name.same(if (0..=20).contains(&v) { &x } else { &d.first_arrow_block_name }), "Header.first_arrow_block_name", v); } }
}
fn h_second_arrow_block_name(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.second_arrow_block_name = Sy::sy(&d.second_arrow_block_name, false, ANY); let x = e.second_arrow_block_name.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.second_arrow_block_name.same(if (0..=20).contains(&v) { &x } else { &d.second_arrow_block_name }), "Header.second_arrow_block_name", v); } }
}
fn h_dimension_style_name(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_style_name = Sy::sy(&d.dimension_style_name, false, ANY); let x = e.dimension_style_name.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_style_name.same(if (0..=20).contains(&v) { &x } else { &d.dimension_style_name }), "Header.dimension_style_name", v); } }
}
fn h_dimension_line_color(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_line_color = Sy::sy(&d.dimension_line_color, false, ANY); let x = e.dimension_line_color.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_line_color.same(if (11..=20).contains(&v) { &x } else { &d.dimension_line_color }), "Header.dimension_line_color", v); } }
}
fn h_dimension_extension_line_color(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_extension_line_color = Sy::sy(&d.dimension_extension_line_color, false, ANY); let x = e.dimension_extension_line_color.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_extension_line_color.same(if (11..=20).contains(&v) { &x } else { &d.dimension_extension_line_color }), "Header.dimension_extension_line_color", v); } }
}
fn h_dimension_text_color(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_text_color = Sy::sy(&d.dimension_text_color, false, ANY); let x = e.dimension_text_color.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_text_color.same(if (11..=20).contains(&v) { &x } else { &d.dimension_text_color }), "Header.dimension_text_color", v); } }
}
fn h_dimension_tolerance_display_scale_factor(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_tolerance_display_scale_factor = Sy::sy(&d.dimension_tolerance_display_scale_factor, false, ANY); let x = e.dimension_tolerance_display_scale_factor.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_tolerance_display_scale_factor.same(if (12..=20).contains(&v) { &x } else { &d.dimension_tolerance_display_scale_factor }), "Header.dimension_tolerance_display_scale_factor", v); } }
}
fn h_dimension_line_gap(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_line_gap = Sy::sy(&d.dimension_line_gap, false, ANY); let x = e.dimension_line_gap.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_line_gap.same(if (11..=20).contains(&v) { &x } else { &d.dimension_line_gap }), "Header.dimension_line_gap", v); } }
}
fn h_dimension_text_justification(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_text_justification = Sy::sy(&d.dimension_text_justification, false, ANY); let x = e.dimension_text_justification.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_text_justification.same(if (13..=20).contains(&v) { &x } else { &d.dimension_text_justification }), "Header.dimension_text_justification", v); } }
}
fn h_dimension_tolerance_vertical_justification(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_tolerance_vertical_justification = Sy::sy(&d.dimension_tolerance_vertical_justification, false, ANY); let x = e.dimension_tolerance_vertical_justification.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_tolerance_vertical_justification.same(if (13..=20).contains(&v) { &x } else { &d.dimension_tolerance_vertical_justification }), "Header.dimension_tolerance_vertical_justification", v); } }
}
fn h_dimension_tolerance_zero_suppression(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_tolerance_zero_suppression = Sy::sy(&d.dimension_tolerance_zero_suppression, false, ANY); let x = e.dimension_tolerance_zero_suppression.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_tolerance_zero_suppression.same(if (13..=20).contains(&v) { &x } else { &d.dimension_tolerance_zero_suppression }), "Header.dimension_tolerance_zero_suppression", v); } }
}
fn h_alternate_dimensioning_zero_supression(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.alternate_dimensioning_zero_supression = Sy::sy(&d.alternate_dimensioning_zero_supression, false, ANY); let x = e.alternate_dimensioning_zero_supression.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.alternate_dimensioning_zero_supression.same(if (13..=20).contains(&v) { &x } else { &d.alternate_dimensioning_zero_supression }), "Header.alternate_dimensioning_zero_supression", v); } }
}
fn h_alternate_dimensioning_tolerance_zero_supression(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.alternate_dimensioning_tolerance_zero_supression = Sy::sy(&d.alternate_dimensioning_tolerance_zero_supression, false, ANY); let x = e.alternate_dimensioning_tolerance_zero_supression.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.alternate_dimensioning_tolerance_zero_supression.same(if (13..=20).contains(&v) { &x } else { &d.alternate_dimensioning_tolerance_zero_supression }), "Header.alternate_dimensioning_tolerance_zero_supression", v); } }
}
fn h_dimension_text_and_arrow_placement(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_text_and_arrow_placement = Sy::sy(&d.dimension_text_and_arrow_placement, false, ANY); let x = e.dimension_text_and_arrow_placement.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_text_and_arrow_placement.same(if (13..=14).contains(&v) || (15..=20).contains(&v) { &x } else { &d.dimension_text_and_arrow_placement }), "Header.dimension_text_and_arrow_placement", v); } }
}
fn h_dimension_cursor_controls_text_position(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_cursor_controls_text_position = Sy::sy(&d.dimension_cursor_controls_text_position, false, ANY); let x = e.dimension_cursor_controls_text_position.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_cursor_controls_text_position.same(if (13..=20).contains(&v) { &x } else { &d.dimension_cursor_controls_text_position }), "Header.dimension_cursor_controls_text_position", v); } }
}
fn h_dimension_unit_format(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_unit_format = Sy::sy(&d.dimension_unit_format, false, ANY); let x = e.dimension_unit_format.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_unit_format.same(if (13..=14).contains(&v) { &x } else { &d.dimension_unit_format }), "Header.dimension_unit_format", v); } }
}
fn h_dimension_unit_tolerance_decimal_places(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_unit_tolerance_decimal_places = Sy::sy(&d.dimension_unit_tolerance_decimal_places, false, ANY); let x = e.dimension_unit_tolerance_decimal_places.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_unit_tolerance_decimal_places.same(if (13..=20).contains(&v) { &x } else { &d.dimension_unit_tolerance_decimal_places }), "Header.dimension_unit_tolerance_decimal_places", v); } }
}
fn h_dimension_tolerance_decimal_places(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_tolerance_decimal_places = Sy::sy(&d.dimension_tolerance_decimal_places, false, ANY); let x = e.dimension_tolerance_decimal_places.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_tolerance_decimal_places.same(if (13..=20).contains(&v) { &x } else { &d.dimension_tolerance_decimal_places }), "Header.dimension_tolerance_decimal_places", v); } }
}
fn h_alternate_dimensioning_units(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.alternate_dimensioning_units = Sy::sy(&d.alternate_dimensioning_units, false, ANY); let x = e.alternate_dimensioning_units.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.alternate_dimensioning_units.same(if (13..=20).contains(&v) { &x } else { &d.alternate_dimensioning_units }), "Header.alternate_dimensioning_units", v); } }
}
fn h_alternate_dimensioning_tolerance_decimal_places(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.alternate_dimensioning_tolerance_decimal_places = Sy::sy(&d.alternate_dimensioning_tolerance_decimal_places, false, ANY); let x = e.alternate_dimensioning_tolerance_decimal_places.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.alternate_dimensioning_tolerance_decimal_places.same(if (13..=20).contains(&v) { &x } else { &d.alternate_dimensioning_tolerance_decimal_places }), "Header.alternate_dimensioning_tolerance_decimal_places", v); } }
}
fn h_dimension_text_style(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_text_style = Sy::sy(&d.dimension_text_style, false, ANY); let x = e.dimension_text_style.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_text_style.same(if (13..=20).contains(&v) { &x } else { &d.dimension_text_style }), "Header.dimension_text_style", v); } }
}
fn h_dimensioning_angle_format(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimensioning_angle_format = Sy::sy(&d.dimensioning_angle_format, false, ANY); let x = e.dimensioning_angle_format.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimensioning_angle_format.same(if (13..=20).contains(&v) { &x } else { &d.dimensioning_angle_format }), "Header.dimensioning_angle_format", v); } }
}
fn h_angular_dimension_precision(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.angular_dimension_precision = Sy::sy(&d.angular_dimension_precision, false, ANY); let x = e.angular_dimension_precision.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.angular_dimension_precision.same(if (15..=20).contains(&v) { &x } else { &d.angular_dimension_precision }), "Header.angular_dimension_precision", v); } }
}
fn h_alternate_dimensioning_unit_rounding(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.alternate_dimensioning_unit_rounding = Sy::sy(&d.alternate_dimensioning_unit_rounding, false, ANY); let x = e.alternate_dimensioning_unit_rounding.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.alternate_dimensioning_unit_rounding.same(if (15..=20).contains(&v) { &x } else { &d.alternate_dimensioning_unit_rounding }), "Header.alternate_dimensioning_unit_rounding", v); } }
}
fn h_dimension_angle_zero_suppression(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_angle_zero_suppression = Sy::sy(&d.dimension_angle_zero_suppression, false, ANY); let x = e.dimension_angle_zero_suppression.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_angle_zero_suppression.same(if (15..=20).contains(&v) { &x } else { &d.dimension_angle_zero_suppression }), "Header.dimension_angle_zero_suppression", v); } }
}
fn h_dimension_decimal_separator_char(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_decimal_separator_char = Sy::sy(&d.dimension_decimal_separator_char, false, ANY); let x = e.dimension_decimal_separator_char.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_decimal_separator_char.same(if (15..=20).contains(&v) { &x } else { &d.dimension_decimal_separator_char }), "Header.dimension_decimal_separator_char", v); } }
}
fn h_dimension_text_height_scale_factor(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_text_height_scale_factor = Sy::sy(&d.dimension_text_height_scale_factor, false, ANY); let x = e.dimension_text_height_scale_factor.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_text_height_scale_factor.same(if (15..=20).contains(&v) { &x } else { &d.dimension_text_height_scale_factor }), "Header.dimension_text_height_scale_factor", v); } }
}
fn h_dimension_leader_block_name(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_leader_block_name = Sy::sy(&d.dimension_leader_block_name, false, ANY); let x = e.dimension_leader_block_name.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_leader_block_name.same(if (15..=20).contains(&v) { &x } else { &d.dimension_leader_block_name }), "Header.dimension_leader_block_name", v); } }
}
fn h_dimension_non_angular_units(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_non_angular_units = Sy::sy(&d.dimension_non_angular_units, false, ANY); let x = e.dimension_non_angular_units.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_non_angular_units.same(if (15..=20).contains(&v) { &x } else { &d.dimension_non_angular_units }), "Header.dimension_non_angular_units", v); } }
}
fn h_dimension_line_weight(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_line_weight = Sy::sy(&d.dimension_line_weight, false, ANY); let x = e.dimension_line_weight.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_line_weight.same(if (15..=20).contains(&v) { &x } else { &d.dimension_line_weight }), "Header.dimension_line_weight", v); } }
}
fn h_dimension_extension_line_weight(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_extension_line_weight = Sy::sy(&d.dimension_extension_line_weight, false, ANY); let x = e.dimension_extension_line_weight.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_extension_line_weight.same(if (15..=20).contains(&v) { &x } else { &d.dimension_extension_line_weight }), "Header.dimension_extension_line_weight", v); } }
}
fn h_dimension_text_movement_rule(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_text_movement_rule = Sy::sy(&d.dimension_text_movement_rule, false, ANY); let x = e.dimension_text_movement_rule.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_text_movement_rule.same(if (15..=20).contains(&v) { &x } else { &d.dimension_text_movement_rule }), "Header.dimension_text_movement_rule", v); } }
}
fn h_dimension_line_fixed_length(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_line_fixed_length = Sy::sy(&d.dimension_line_fixed_length, false, ANY); let x = e.dimension_line_fixed_length.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_line_fixed_length.same(if (17..=20).contains(&v) { &x } else { &d.dimension_line_fixed_length }), "Header.dimension_line_fixed_length", v); } }
}
fn h_dimension_line_fixed_length_on(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_line_fixed_length_on = Sy::sy(&d.dimension_line_fixed_length_on, false, ANY); let x = e.dimension_line_fixed_length_on.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_line_fixed_length_on.same(if (17..=20).contains(&v) { &x } else { &d.dimension_line_fixed_length_on }), "Header.dimension_line_fixed_length_on", v); } }
}
fn h_dimension_transverse_segment_angle_in_jogged_radius(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_transverse_segment_angle_in_jogged_radius = Sy::sy(&d.dimension_transverse_segment_angle_in_jogged_radius, false, ANY); let x = e.dimension_transverse_segment_angle_in_jogged_radius.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_transverse_segment_angle_in_jogged_radius.same(if (17..=20).contains(&v) { &x } else { &d.dimension_transverse_segment_angle_in_jogged_radius }), "Header.dimension_transverse_segment_angle_in_jogged_radius", v); } }
}
fn h_dimension_text_background_color_mode(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_text_background_color_mode = Sy::sy(&d.dimension_text_background_color_mode, false, ANY); let x = e.dimension_text_background_color_mode.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_text_background_color_mode.same(if (17..=20).contains(&v) { &x } else { &d.dimension_text_background_color_mode }), "Header.dimension_text_background_color_mode", v); } }
}
fn h_dxf_dimension_text_background_custom_color(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dxf_dimension_text_background_custom_color = Sy::sy(&d.dxf_dimension_text_background_custom_color, false, ANY); let x = e.dxf_dimension_text_background_custom_color.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dxf_dimension_text_background_custom_color.same(if (17..=20).contains(&v) { &x } else { &d.dxf_dimension_text_background_custom_color }), "Header.dxf_dimension_text_background_custom_color", v); } }
}
fn h_dimension_arc_symbol_display_mode(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_arc_symbol_display_mode = Sy::sy(&d.dimension_arc_symbol_display_mode, false, ANY); let x = e.dimension_arc_symbol_display_mode.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_arc_symbol_display_mode.same(if (17..=20).contains(&v) { &x } else { &d.dimension_arc_symbol_display_mode }), "Header.dimension_arc_symbol_display_mode", v); } }
}
fn h_dimension_line_type(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_line_type = Sy::sy(&d.dimension_line_type, false, ANY); let x = e.dimension_line_type.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_line_type.same(if (17..=20).contains(&v) { &x } else { &d.dimension_line_type }), "Header.dimension_line_type", v); } }
}
fn h_dimension_first_extension_line_type(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_first_extension_line_type = Sy::sy(&d.dimension_first_extension_line_type, false, ANY); let x = e.dimension_first_extension_line_type.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_first_extension_line_type.same(if (17..=20).contains(&v) { &x } else { &d.dimension_first_extension_line_type }), "Header.dimension_first_extension_line_type", v); } }
}
fn h_dimension_second_extension_line_type(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_second_extension_line_type = Sy::sy(&d.dimension_second_extension_line_type, false, ANY); let x = e.dimension_second_extension_line_type.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_second_extension_line_type.same(if (17..=20).contains(&v) { &x } else { &d.dimension_second_extension_line_type }), "Header.dimension_second_extension_line_type", v); } }
}
fn h_dimension_text_direction(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_text_direction = Sy::sy(&d.dimension_text_direction, false, ANY); let x = e.dimension_text_direction.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_text_direction.same(if (18..=20).contains(&v) { &x } else { &d.dimension_text_direction }), "Header.dimension_text_direction", v); } }
}
fn h_unit_format(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.unit_format = Sy::sy(&d.unit_format, false, ANY); let x = e.unit_format.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.unit_format.same(if (0..=20).contains(&v) { &x } else { &d.unit_format }), "Header.unit_format", v); } }
}
fn h_unit_precision(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.unit_precision = Sy::sy(&d.unit_precision, false, ANY); let x = e.unit_precision.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.unit_precision.same(if (0..=20).contains(&v) { &x } else { &d.unit_precision }), "Header.unit_precision", v); } }
}
fn h_sketch_record_increment(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.sketch_record_increment = Sy::sy(&d.sketch_record_increment, false, ANY); let x = e.sketch_record_increment.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.sketch_record_increment.same(if (0..=20).contains(&v) { &x } else { &d.sketch_record_increment }), "Header.sketch_record_increment", v); } }
}
fn h_fillet_radius(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.fillet_radius = Sy::sy(&d.fillet_radius, false, ANY); let x = e.fillet_radius.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.fillet_radius.same(if (0..=20).contains(&v) { &x } else { &d.fillet_radius }), "Header.fillet_radius", v); } }
}
fn h_angle_unit_format(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.angle_unit_format = Sy::sy(&d.angle_unit_format, false, ANY); let x = e.angle_unit_format.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.angle_unit_format.same(if (0..=20).contains(&v) { &x } else { &d.angle_unit_format }), "Header.angle_unit_format", v); } }
}
fn h_angle_unit_precision(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.angle_unit_precision = Sy::sy(&d.angle_unit_precision, false, ANY); let x = e.angle_unit_precision.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.angle_unit_precision.same(if (0..=20).contains(&v) { &x } else { &d.angle_unit_precision }), "Header.angle_unit_precision", v); } }
}
fn h_file_name(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.file_name = Sy::sy(&d.file_name, false, ANY); let x = e.file_name.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.file_name.same(if (0..=20).contains(&v) { &x } else { &d.file_name }), "Header.file_name", v); } }
}
fn h_elevation(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.elevation = Sy::sy(&d.elevation, false, ANY); let x = e.elevation.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.elevation.same(if (0..=20).contains(&v) { &x } else { &d.elevation }), "Header.elevation", v); } }
}
fn h_paperspace_elevation(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.paperspace_elevation = Sy::sy(&d.paperspace_elevation, false, ANY); let x = e.paperspace_elevation.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.paperspace_elevation.same(if (11..=20).contains(&v) { &x } else { &d.paperspace_elevation }), "Header.paperspace_elevation", v); } }
}
fn h_thickness(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.thickness = Sy::sy(&d.thickness, false, ANY); let x = e.thickness.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.thickness.same(if (0..=20).contains(&v) { &x } else { &d.thickness }), "Header.thickness", v); } }
}
fn h_use_limits_checking(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.use_limits_checking = Sy::sy(&d.use_limits_checking, false, ANY); let x = e.use_limits_checking.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.use_limits_checking.same(if (0..=20).contains(&v) { &x } else { &d.use_limits_checking }), "Header.use_limits_checking", v); } }
}
fn h_blip_mode(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.blip_mode = Sy::sy(&d.blip_mode, false, ANY); let x = e.blip_mode.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.blip_mode.same(if (0..=14).contains(&v) { &x } else { &d.blip_mode }), "Header.blip_mode", v); } }
}
fn h_first_chamfer_distance(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.first_chamfer_distance = Sy::sy(&d.first_chamfer_distance, false, ANY); let x = e.first_chamfer_distance.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.first_chamfer_distance.same(if (0..=20).contains(&v) { &x } else { &d.first_chamfer_distance }), "Header.first_chamfer_distance", v); } }
}
fn h_second_chamfer_distance(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.second_chamfer_distance = Sy::sy(&d.second_chamfer_distance, false, ANY); let x = e.second_chamfer_distance.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.second_chamfer_distance.same(if (0..=20).contains(&v) { &x } else { &d.second_chamfer_distance }), "Header.second_chamfer_distance", v); } }
}
fn h_chamfer_length(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.chamfer_length = Sy::sy(&d.chamfer_length, false, ANY); let x = e.chamfer_length.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.chamfer_length.same(if (14..=20).contains(&v) { &x } else { &d.chamfer_length }), "Header.chamfer_length", v); } }
}
fn h_chamfer_angle(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.chamfer_angle = Sy::sy(&d.chamfer_angle, false, ANY); let x = e.chamfer_angle.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.chamfer_angle.same(if (14..=20).contains(&v) { &x } else { &d.chamfer_angle }), "Header.chamfer_angle", v); } }
}
fn h_polyline_sketch_mode(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.polyline_sketch_mode = Sy::sy(&d.polyline_sketch_mode, false, ANY); let x = e.polyline_sketch_mode.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.polyline_sketch_mode.same(if (0..=20).contains(&v) { &x } else { &d.polyline_sketch_mode }), "Header.polyline_sketch_mode", v); } }
}
fn h_user_timer_on(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.user_timer_on = Sy::sy(&d.user_timer_on, false, ANY); let x = e.user_timer_on.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.user_timer_on.same(if (0..=20).contains(&v) { &x } else { &d.user_timer_on }), "Header.user_timer_on", v); } }
}
fn h_angle_zero_direction(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.angle_zero_direction = Sy::sy(&d.angle_zero_direction, false, ANY); let x = e.angle_zero_direction.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.angle_zero_direction.same(if (0..=20).contains(&v) { &x } else { &d.angle_zero_direction }), "Header.angle_zero_direction", v); } }
}
fn h_angle_direction(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.angle_direction = Sy::sy(&d.angle_direction, false, ANY); let x = e.angle_direction.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.angle_direction.same(if (0..=20).contains(&v) { &x } else { &d.angle_direction }), "Header.angle_direction", v); } }
}
fn h_point_display_mode(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.point_display_mode = Sy::sy(&d.point_display_mode, false, I16); let x = e.point_display_mode.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.point_display_mode.same(if (0..=20).contains(&v) { &x } else { &d.point_display_mode }), "Header.point_display_mode", v); } }
}
fn h_point_display_size(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.point_display_size = Sy::sy(&d.point_display_size, false, ANY); let x = e.point_display_size.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.point_display_size.same(if (0..=20).contains(&v) { &x } else { &d.point_display_size }), "Header.point_display_size", v); } }
}
fn h_default_polyline_width(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.default_polyline_width = Sy::sy(&d.default_polyline_width, false, ANY); let x = e.default_polyline_width.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.default_polyline_width.same(if (0..=20).contains(&v) { &x } else { &d.default_polyline_width }), "Header.default_polyline_width", v); } }
}
fn h_coordinate_display(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.coordinate_display = Sy::sy(&d.coordinate_display, false, ANY); let x = e.coordinate_display.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.coordinate_display.same(if (0..=14).contains(&v) { &x } else { &d.coordinate_display }), "Header.coordinate_display", v); } }
}
fn h_display_spline_polygon_control(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.display_spline_polygon_control = Sy::sy(&d.display_spline_polygon_control, false, ANY); let x = e.display_spline_polygon_control.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.display_spline_polygon_control.same(if (0..=19).contains(&v) { &x } else { &d.display_spline_polygon_control }), "Header.display_spline_polygon_control", v); } }
}
fn h_pedit_spline_curve_type(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.pedit_spline_curve_type = Sy::sy(&d.pedit_spline_curve_type, false, ANY); let x = e.pedit_spline_curve_type.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.pedit_spline_curve_type.same(if (0..=20).contains(&v) { &x } else { &d.pedit_spline_curve_type }), "Header.pedit_spline_curve_type", v); } }
}
fn h_line_segments_per_spline_patch(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.line_segments_per_spline_patch = Sy::sy(&d.line_segments_per_spline_patch, false, ANY); let x = e.line_segments_per_spline_patch.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.line_segments_per_spline_patch.same(if (0..=20).contains(&v) { &x } else { &d.line_segments_per_spline_patch }), "Header.line_segments_per_spline_patch", v); } }
}
fn h_show_attribute_entry_dialogs(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.show_attribute_entry_dialogs = Sy::sy(&d.show_attribute_entry_dialogs, false, ANY); let x = e.show_attribute_entry_dialogs.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.show_attribute_entry_dialogs.same(if (0..=14).contains(&v) { &x } else { &d.show_attribute_entry_dialogs }), "Header.show_attribute_entry_dialogs", v); } }
}
fn h_prompt_for_attribute_on_insert(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.prompt_for_attribute_on_insert = Sy::sy(&d.prompt_for_attribute_on_insert, false, ANY); let x = e.prompt_for_attribute_on_insert.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.prompt_for_attribute_on_insert.same(if (0..=14).contains(&v) { &x } else { &d.prompt_for_attribute_on_insert }), "Header.prompt_for_attribute_on_insert", v); } }
}
fn h_handles_enabled(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.handles_enabled = Sy::sy(&d.handles_enabled, false, ANY); let x = e.handles_enabled.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.handles_enabled.same(if (0..=12).contains(&v) { &x } else { &d.handles_enabled }), "Header.handles_enabled", v); } }
}
fn h_next_available_handle(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.next_available_handle = Sy::sy(&d.next_available_handle, false, ANY); let x = e.next_available_handle.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if v >= 13 || hen { c.chk(r.next_available_handle.same(if (0..=20).contains(&v) { &x } else { &d.next_available_handle }), "Header.next_available_handle", v); } }
}
fn h_mesh_tabulations_in_first_direction(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.mesh_tabulations_in_first_direction = Sy::sy(&d.mesh_tabulations_in_first_direction, false, ANY); let x = e.mesh_tabulations_in_first_direction.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.mesh_tabulations_in_first_direction.same(if (0..=20).contains(&v) { &x } else { &d.mesh_tabulations_in_first_direction }), "Header.mesh_tabulations_in_first_direction", v); } }
}
fn h_mesh_tabulations_in_second_direction(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.mesh_tabulations_in_second_direction = Sy::sy(&d.mesh_tabulations_in_second_direction, false, ANY); let x = e.mesh_tabulations_in_second_direction.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.mesh_tabulations_in_second_direction.same(if (0..=20).contains(&v) { &x } else { &d.mesh_tabulations_in_second_direction }), "Header.mesh_tabulations_in_second_direction", v); } }
}
fn h_pedit_smooth_surface_type(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.pedit_smooth_surface_type = Sy::sy(&d.pedit_smooth_surface_type, false, ANY); let x = e.pedit_smooth_surface_type.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.pedit_smooth_surface_type.same(if (0..=20).contains(&v) { &x } else { &d.pedit_smooth_surface_type }), "Header.pedit_smooth_surface_type", v); } }
}
fn h_pedit_smooth_m_densith(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.pedit_smooth_m_densith = Sy::sy(&d.pedit_smooth_m_densith, false, ANY); let x = e.pedit_smooth_m_densith.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.pedit_smooth_m_densith.same(if (0..=20).contains(&v) { &x } else { &d.pedit_smooth_m_densith }), "Header.pedit_smooth_m_densith", v); } }
}
fn h_pedit_smooth_n_densith(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.pedit_smooth_n_densith = Sy::sy(&d.pedit_smooth_n_densith, false, ANY); let x = e.pedit_smooth_n_densith.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.pedit_smooth_n_densith.same(if (0..=20).contains(&v) { &x } else { &d.pedit_smooth_n_densith }), "Header.pedit_smooth_n_densith", v); } }
}
fn h_ucs_definition_name(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.ucs_definition_name = Sy::sy(&d.ucs_definition_name, false, ANY); let x = e.ucs_definition_name.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.ucs_definition_name.same(if (15..=20).contains(&v) { &x } else { &d.ucs_definition_name }), "Header.ucs_definition_name", v); } }
}
fn h_ucs_name(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.ucs_name = Sy::sy(&d.ucs_name, false, ANY); let x = e.ucs_name.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.ucs_name.same(if (0..=20).contains(&v) { &x } else { &d.ucs_name }), "Header.ucs_name", v); } }
}
fn h_ucs_origin(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.ucs_origin = Sy::sy(&d.ucs_origin, false, ANY); let x = e.ucs_origin.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.ucs_origin.same(if (0..=20).contains(&v) { &x } else { &d.ucs_origin }), "Header.ucs_origin", v); } }
}
fn h_ucs_x_axis(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.ucs_x_axis = Sy::sy(&d.ucs_x_axis, false, ANY); let x = e.ucs_x_axis.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.ucs_x_axis.same(if (0..=20).contains(&v) { &x } else { &d.ucs_x_axis }), "Header.ucs_x_axis", v); } }
}
fn h_ucs_y_axis(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.ucs_y_axis = Sy::sy(&d.ucs_y_axis, false, ANY); let x = e.ucs_y_axis.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.ucs_y_axis.same(if (0..=20).contains(&v) { &x } else { &d.ucs_y_axis }), "Header.ucs_y_axis", v); } }
}
fn h_ortho_ucs_reference(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.ortho_ucs_reference = Sy::sy(&d.ortho_ucs_reference, false, ANY); let x = e.ortho_ucs_reference.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.ortho_ucs_reference.same(if (15..=20).contains(&v) { &x } else { &d.ortho_ucs_reference }), "Header.ortho_ucs_reference", v); } }
}
fn h_orthgraphic_view_type(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.orthgraphic_view_type = Sy::sy(&d.orthgraphic_view_type, false, ANY); let x = e.orthgraphic_view_type.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.orthgraphic_view_type.same(if (15..=20).contains(&v) { &x } else { &d.orthgraphic_view_type }), "Header.orthgraphic_view_type", v); } }
}
fn h_ucs_origin_top(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.ucs_origin_top = Sy::sy(&d.ucs_origin_top, false, ANY); let x = e.ucs_origin_top.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.ucs_origin_top.same(if (15..=20).contains(&v) { &x } else { &d.ucs_origin_top }), "Header.ucs_origin_top", v); } }
}
fn h_ucs_origin_bottom(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.ucs_origin_bottom = Sy::sy(&d.ucs_origin_bottom, false, ANY); let x = e.ucs_origin_bottom.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.ucs_origin_bottom.same(if (15..=20).contains(&v) { &x } else { &d.ucs_origin_bottom }), "Header.ucs_origin_bottom", v); } }
}
fn h_ucs_origin_left(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.ucs_origin_left = Sy::sy(&d.ucs_origin_left, false, ANY); let x = e.ucs_origin_left.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.ucs_origin_left.same(if (15..=20).contains(&v) { &x } else { &d.ucs_origin_left }), "Header.ucs_origin_left", v); } }
}
fn h_ucs_origin_right(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.ucs_origin_right = Sy::sy(&d.ucs_origin_right, false, ANY); let x = e.ucs_origin_right.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.ucs_origin_right.same(if (15..=20).contains(&v) { &x } else { &d.ucs_origin_right }), "Header.ucs_origin_right", v); } }
}
fn h_ucs_origin_front(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.ucs_origin_front = Sy::sy(&d.ucs_origin_front, false, ANY); let x = e.ucs_origin_front.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.ucs_origin_front.same(if (15..=20).contains(&v) { &x } else { &d.ucs_origin_front }), "Header.ucs_origin_front", v); } }
}
fn h_ucs_origin_back(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.ucs_origin_back = Sy::sy(&d.ucs_origin_back, false, ANY); let x = e.ucs_origin_back.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.ucs_origin_back.same(if (15..=20).contains(&v) { &x } else { &d.ucs_origin_back }), "Header.ucs_origin_back", v); } }
}
fn h_paperspace_ucs_definition_name(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.paperspace_ucs_definition_name = Sy::sy(&d.paperspace_ucs_definition_name, false, ANY); let x = e.paperspace_ucs_definition_name.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.paperspace_ucs_definition_name.same(if (15..=20).contains(&v) { &x } else { &d.paperspace_ucs_definition_name }), "Header.paperspace_ucs_definition_name", v); } }
}
fn h_paperspace_ucs_name(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.paperspace_ucs_name = Sy::sy(&d.paperspace_ucs_name, false, ANY); let x = e.paperspace_ucs_name.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.paperspace_ucs_name.same(if (11..=20).contains(&v) { &x } else { &d.paperspace_ucs_name }), "Header.paperspace_ucs_name", v); } }
}
fn h_paperspace_ucs_origin(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.paperspace_ucs_origin = Sy::sy(&d.paperspace_ucs_origin, false, ANY); let x = e.paperspace_ucs_origin.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.paperspace_ucs_origin.same(if (11..=20).contains(&v) { &x } else { &d.paperspace_ucs_origin }), "Header.paperspace_ucs_origin", v); } }
}
fn h_paperspace_x_axis(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.paperspace_x_axis = Sy::sy(&d.paperspace_x_axis, false, ANY); let x = e.paperspace_x_axis.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.paperspace_x_axis.same(if (11..=20).contains(&v) { &x } else { &d.paperspace_x_axis }), "Header.paperspace_x_axis", v); } }
}
fn h_paperspace_y_axis(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.paperspace_y_axis = Sy::sy(&d.paperspace_y_axis, false, ANY); let x = e.paperspace_y_axis.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.paperspace_y_axis.same(if (11..=20).contains(&v) { &x } else { &d.paperspace_y_axis }), "Header.paperspace_y_axis", v); } }
}
fn h_paperspace_ortho_ucs_reference(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.paperspace_ortho_ucs_reference = Sy::sy(&d.paperspace_ortho_ucs_reference, false, ANY); let x = e.paperspace_ortho_ucs_reference.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.paperspace_ortho_ucs_reference.same(if (15..=20).contains(&v) { &x } else { &d.paperspace_ortho_ucs_reference }), "Header.paperspace_ortho_ucs_reference", v); } }
}
fn h_paperspace_orthographic_view_type(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.paperspace_orthographic_view_type = Sy::sy(&d.paperspace_orthographic_view_type, false, ANY); let x = e.paperspace_orthographic_view_type.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.paperspace_orthographic_view_type.same(if (15..=20).contains(&v) { &x } else { &d.paperspace_orthographic_view_type }), "Header.paperspace_orthographic_view_type", v); } }
}
fn h_paperspace_ucs_origin_top(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.paperspace_ucs_origin_top = Sy::sy(&d.paperspace_ucs_origin_top, false, ANY); let x = e.paperspace_ucs_origin_top.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.paperspace_ucs_origin_top.same(if (15..=20).contains(&v) { &x } else { &d.paperspace_ucs_origin_top }), "Header.paperspace_ucs_origin_top", v); } }
}
fn h_paperspace_ucs_origin_bottom(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.paperspace_ucs_origin_bottom = Sy::sy(&d.paperspace_ucs_origin_bottom, false, ANY); let x = e.paperspace_ucs_origin_bottom.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.paperspace_ucs_origin_bottom.same(if (15..=20).contains(&v) { &x } else { &d.paperspace_ucs_origin_bottom }), "Header.paperspace_ucs_origin_bottom", v); } }
}
fn h_paperspace_ucs_origin_left(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.paperspace_ucs_origin_left = Sy::sy(&d.paperspace_ucs_origin_left, false, ANY); let x = e.paperspace_ucs_origin_left.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.paperspace_ucs_origin_left.same(if (15..=20).contains(&v) { &x } else { &d.paperspace_ucs_origin_left }), "Header.paperspace_ucs_origin_left", v); } }
}
fn h_paperspace_ucs_origin_right(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.paperspace_ucs_origin_right = Sy::sy(&d.paperspace_ucs_origin_right, false, ANY); let x = e.paperspace_ucs_origin_right.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.paperspace_ucs_origin_right.same(if (15..=20).contains(&v) { &x } else { &d.paperspace_ucs_origin_right }), "Header.paperspace_ucs_origin_right", v); } }
}
fn h_paperspace_ucs_origin_front(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.paperspace_ucs_origin_front = Sy::sy(&d.paperspace_ucs_origin_front, false, ANY); let x = e.paperspace_ucs_origin_front.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.paperspace_ucs_origin_front.same(if (15..=20).contains(&v) { &x } else { &d.paperspace_ucs_origin_front }), "Header.paperspace_ucs_origin_front", v); } }
}
fn h_paperspace_ucs_origin_back(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.paperspace_ucs_origin_back = Sy::sy(&d.paperspace_ucs_origin_back, false, ANY); let x = e.paperspace_ucs_origin_back.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.paperspace_ucs_origin_back.same(if (15..=20).contains(&v) { &x } else { &d.paperspace_ucs_origin_back }), "Header.paperspace_ucs_origin_back", v); } }
}
fn h_user_int1(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.user_int1 = Sy::sy(&d.user_int1, false, ANY); let x = e.user_int1.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.user_int1.same(if (0..=20).contains(&v) { &x } else { &d.user_int1 }), "Header.user_int1", v); } }
}
fn h_user_int2(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.user_int2 = Sy::sy(&d.user_int2, false, ANY); let x = e.user_int2.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.user_int2.same(if (0..=20).contains(&v) { &x } else { &d.user_int2 }), "Header.user_int2", v); } }
}
fn h_user_int3(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.user_int3 = Sy::sy(&d.user_int3, false, ANY); let x = e.user_int3.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.user_int3.same(if (0..=20).contains(&v) { &x } else { &d.user_int3 }), "Header.user_int3", v); } }
}
fn h_user_int4(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.user_int4 = Sy::sy(&d.user_int4, false, ANY); let x = e.user_int4.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.user_int4.same(if (0..=20).contains(&v) { &x } else { &d.user_int4 }), "Header.user_int4", v); } }
}
fn h_user_int5(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.user_int5 = Sy::sy(&d.user_int5, false, ANY); let x = e.user_int5.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.user_int5.same(if (0..=20).contains(&v) { &x } else { &d.user_int5 }), "Header.user_int5", v); } }
}
fn h_user_real1(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.user_real1 = Sy::sy(&d.user_real1, false, ANY); let x = e.user_real1.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.user_real1.same(if (0..=20).contains(&v) { &x } else { &d.user_real1 }), "Header.user_real1", v); } }
}
fn h_user_real2(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.user_real2 = Sy::sy(&d.user_real2, false, ANY); let x = e.user_real2.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.user_real2.same(if (0..=20).contains(&v) { &x } else { &d.user_real2 }), "Header.user_real2", v); } }
}
fn h_user_real3(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.user_real3 = Sy::sy(&d.user_real3, false, ANY); let x = e.user_real3.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.user_real3.same(if (0..=20).contains(&v) { &x } else { &d.user_real3 }), "Header.user_real3", v); } }
}
fn h_user_real4(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.user_real4 = Sy::sy(&d.user_real4, false, ANY); let x = e.user_real4.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.user_real4.same(if (0..=20).contains(&v) { &x } else { &d.user_real4 }), "Header.user_real4", v); } }
}
fn h_user_real5(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.user_real5 = Sy::sy(&d.user_real5, false, ANY); let x = e.user_real5.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.user_real5.same(if (0..=20).contains(&v) { &x } else { &d.user_real5 }), "Header.user_real5", v); } }
}
fn h_set_ucs_to_wcs_in_d_view_or_v_point(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.set_ucs_to_wcs_in_d_view_or_v_point = Sy::sy(&d.set_ucs_to_wcs_in_d_view_or_v_point, false, ANY); let x = e.set_ucs_to_wcs_in_d_view_or_v_point.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.set_ucs_to_wcs_in_d_view_or_v_point.same(if (0..=20).contains(&v) { &x } else { &d.set_ucs_to_wcs_in_d_view_or_v_point }), "Header.set_ucs_to_wcs_in_d_view_or_v_point", v); } }
}
fn h_edge_shading(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.edge_shading = Sy::sy(&d.edge_shading, false, ANY); let x = e.edge_shading.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.edge_shading.same(if (11..=20).contains(&v) { &x } else { &d.edge_shading }), "Header.edge_shading", v); } }
}
fn h_percent_ambient_to_diffuse(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.percent_ambient_to_diffuse = Sy::sy(&d.percent_ambient_to_diffuse, false, ANY); let x = e.percent_ambient_to_diffuse.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.percent_ambient_to_diffuse.same(if (11..=20).contains(&v) { &x } else { &d.percent_ambient_to_diffuse }), "Header.percent_ambient_to_diffuse", v); } }
}
fn h_previous_release_tile_compatability(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.previous_release_tile_compatability = Sy::sy(&d.previous_release_tile_compatability, false, ANY); let x = e.previous_release_tile_compatability.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.previous_release_tile_compatability.same(if (11..=20).contains(&v) { &x } else { &d.previous_release_tile_compatability }), "Header.previous_release_tile_compatability", v); } }
}
fn h_maximum_active_viewports(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.maximum_active_viewports = Sy::sy(&d.maximum_active_viewports, false, ANY); let x = e.maximum_active_viewports.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.maximum_active_viewports.same(if (11..=20).contains(&v) { &x } else { &d.maximum_active_viewports }), "Header.maximum_active_viewports", v); } }
}
fn h_paperspace_insertion_base(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.paperspace_insertion_base = Sy::sy(&d.paperspace_insertion_base, false, ANY); let x = e.paperspace_insertion_base.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.paperspace_insertion_base.same(if (14..=20).contains(&v) { &x } else { &d.paperspace_insertion_base }), "Header.paperspace_insertion_base", v); } }
}
fn h_limit_checking_in_paperspace(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.limit_checking_in_paperspace = Sy::sy(&d.limit_checking_in_paperspace, false, ANY); let x = e.limit_checking_in_paperspace.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.limit_checking_in_paperspace.same(if (11..=20).contains(&v) { &x } else { &d.limit_checking_in_paperspace }), "Header.limit_checking_in_paperspace", v); } }
}
fn h_paperspace_minimum_drawing_extents(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.paperspace_minimum_drawing_extents = Sy::sy(&d.paperspace_minimum_drawing_extents, false, ANY); let x = e.paperspace_minimum_drawing_extents.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.paperspace_minimum_drawing_extents.same(if (11..=20).contains(&v) { &x } else { &d.paperspace_minimum_drawing_extents }), "Header.paperspace_minimum_drawing_extents", v); } }
}
fn h_paperspace_maximum_drawing_extents(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.paperspace_maximum_drawing_extents = Sy::sy(&d.paperspace_maximum_drawing_extents, false, ANY); let x = e.paperspace_maximum_drawing_extents.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.paperspace_maximum_drawing_extents.same(if (11..=20).contains(&v) { &x } else { &d.paperspace_maximum_drawing_extents }), "Header.paperspace_maximum_drawing_extents", v); } }
}
fn h_paperspace_minimum_drawing_limits(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.paperspace_minimum_drawing_limits = Sy::sy(&d.paperspace_minimum_drawing_limits, false, XY); let x = e.paperspace_minimum_drawing_limits.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.paperspace_minimum_drawing_limits.same(if (11..=20).contains(&v) { &x } else { &d.paperspace_minimum_drawing_limits }), "Header.paperspace_minimum_drawing_limits", v); } }
}
fn h_paperspace_maximum_drawing_limits(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.paperspace_maximum_drawing_limits = Sy::sy(&d.paperspace_maximum_drawing_limits, false, XY); let x = e.paperspace_maximum_drawing_limits.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.paperspace_maximum_drawing_limits.same(if (11..=20).contains(&v) { &x } else { &d.paperspace_maximum_drawing_limits }), "Header.paperspace_maximum_drawing_limits", v); } }
}
fn h_display_fractions_in_input(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.display_fractions_in_input = Sy::sy(&d.display_fractions_in_input, false, ANY); let x = e.display_fractions_in_input.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.display_fractions_in_input.same(if (11..=20).contains(&v) { &x } else { &d.display_fractions_in_input }), "Header.display_fractions_in_input", v); } }
}
fn h_retain_x_ref_dependent_visibility_settings(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.retain_x_ref_dependent_visibility_settings = Sy::sy(&d.retain_x_ref_dependent_visibility_settings, false, ANY); let x = e.retain_x_ref_dependent_visibility_settings.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.retain_x_ref_dependent_visibility_settings.same(if (12..=20).contains(&v) { &x } else { &d.retain_x_ref_dependent_visibility_settings }), "Header.retain_x_ref_dependent_visibility_settings", v); } }
}
fn h_is_polyline_continuous_around_verticies(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.is_polyline_continuous_around_verticies = Sy::sy(&d.is_polyline_continuous_around_verticies, false, ANY); let x = e.is_polyline_continuous_around_verticies.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.is_polyline_continuous_around_verticies.same(if (11..=20).contains(&v) { &x } else { &d.is_polyline_continuous_around_verticies }), "Header.is_polyline_continuous_around_verticies", v); } }
}
fn h_scale_line_types_in_paperspace(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.scale_line_types_in_paperspace = Sy::sy(&d.scale_line_types_in_paperspace, false, ANY); let x = e.scale_line_types_in_paperspace.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.scale_line_types_in_paperspace.same(if (11..=20).contains(&v) { &x } else { &d.scale_line_types_in_paperspace }), "Header.scale_line_types_in_paperspace", v); } }
}
fn h_spacial_index_max_depth(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.spacial_index_max_depth = Sy::sy(&d.spacial_index_max_depth, false, ANY); let x = e.spacial_index_max_depth.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.spacial_index_max_depth.same(if (14..=20).contains(&v) { &x } else { &d.spacial_index_max_depth }), "Header.spacial_index_max_depth", v); } }
}
fn h_pick_style(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.pick_style = Sy::sy(&d.pick_style, false, ANY); let x = e.pick_style.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.pick_style.same(if (13..=14).contains(&v) { &x } else { &d.pick_style }), "Header.pick_style", v); } }
}
fn h_current_multiline_style(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.current_multiline_style = Sy::sy(&d.current_multiline_style, false, ANY); let x = e.current_multiline_style.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.current_multiline_style.same(if (13..=13).contains(&v) || (14..=20).contains(&v) { &x } else { &d.current_multiline_style }), "Header.current_multiline_style", v); } }
}
fn h_current_multiline_justification(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.current_multiline_justification = Sy::sy(&d.current_multiline_justification, false, ANY); let x = e.current_multiline_justification.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.current_multiline_justification.same(if (13..=20).contains(&v) { &x } else { &d.current_multiline_justification }), "Header.current_multiline_justification", v); } }
}
fn h_current_multiline_scale(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.current_multiline_scale = Sy::sy(&d.current_multiline_scale, false, ANY); let x = e.current_multiline_scale.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.current_multiline_scale.same(if (13..=20).contains(&v) { &x } else { &d.current_multiline_scale }), "Header.current_multiline_scale", v); } }
}
fn h_save_proxy_graphics(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.save_proxy_graphics = Sy::sy(&d.save_proxy_graphics, false, ANY); let x = e.save_proxy_graphics.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.save_proxy_graphics.same(if (14..=20).contains(&v) { &x } else { &d.save_proxy_graphics }), "Header.save_proxy_graphics", v); } }
}
fn h_drawing_units(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.drawing_units = Sy::sy(&d.drawing_units, false, ANY); let x = e.drawing_units.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.drawing_units.same(if (14..=20).contains(&v) { &x } else { &d.drawing_units }), "Header.drawing_units", v); } }
}
fn h_new_object_line_weight(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.new_object_line_weight = Sy::sy(&d.new_object_line_weight, false, ANY); let x = e.new_object_line_weight.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.new_object_line_weight.same(if (15..=20).contains(&v) { &x } else { &d.new_object_line_weight }), "Header.new_object_line_weight", v); } }
}
fn h_end_cap_setting(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.end_cap_setting = Sy::sy(&d.end_cap_setting, false, ANY); let x = e.end_cap_setting.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.end_cap_setting.same(if (15..=20).contains(&v) { &x } else { &d.end_cap_setting }), "Header.end_cap_setting", v); } }
}
fn h_lineweight_joint_setting(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.lineweight_joint_setting = Sy::sy(&d.lineweight_joint_setting, false, ANY); let x = e.lineweight_joint_setting.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.lineweight_joint_setting.same(if (15..=20).contains(&v) { &x } else { &d.lineweight_joint_setting }), "Header.lineweight_joint_setting", v); } }
}
fn h_display_linewieght_in_model_and_layout_tab(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.display_linewieght_in_model_and_layout_tab = Sy::sy(&d.display_linewieght_in_model_and_layout_tab, false, ANY); let x = e.display_linewieght_in_model_and_layout_tab.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.display_linewieght_in_model_and_layout_tab.same(if (15..=20).contains(&v) { &x } else { &d.display_linewieght_in_model_and_layout_tab }), "Header.display_linewieght_in_model_and_layout_tab", v); } }
}
fn h_default_drawing_units(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.default_drawing_units = Sy::sy(&d.default_drawing_units, false, ANY); let x = e.default_drawing_units.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.default_drawing_units.same(if (15..=20).contains(&v) { &x } else { &d.default_drawing_units }), "Header.default_drawing_units", v); } }
}
fn h_hyperlink_base(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.hyperlink_base = Sy::sy(&d.hyperlink_base, false, ANY); let x = e.hyperlink_base.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.hyperlink_base.same(if (15..=20).contains(&v) { &x } else { &d.hyperlink_base }), "Header.hyperlink_base", v); } }
}
fn h_stylesheet(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.stylesheet = Sy::sy(&d.stylesheet, false, ANY); let x = e.stylesheet.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.stylesheet.same(if (15..=20).contains(&v) { &x } else { &d.stylesheet }), "Header.stylesheet", v); } }
}
fn h_can_use_in_place_reference_editing(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.can_use_in_place_reference_editing = Sy::sy(&d.can_use_in_place_reference_editing, false, ANY); let x = e.can_use_in_place_reference_editing.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.can_use_in_place_reference_editing.same(if (15..=20).contains(&v) { &x } else { &d.can_use_in_place_reference_editing }), "Header.can_use_in_place_reference_editing", v); } }
}
fn h_new_object_plot_style_handle(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.new_object_plot_style_handle = Sy::sy(&d.new_object_plot_style_handle, false, ANY); let x = e.new_object_plot_style_handle.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.new_object_plot_style_handle.same(if (15..=20).contains(&v) { &x } else { &d.new_object_plot_style_handle }), "Header.new_object_plot_style_handle", v); } }
}
fn h_new_object_plot_style(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.new_object_plot_style = Sy::sy(&d.new_object_plot_style, false, ANY); let x = e.new_object_plot_style.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.new_object_plot_style.same(if (15..=20).contains(&v) { &x } else { &d.new_object_plot_style }), "Header.new_object_plot_style", v); } }
}
fn h_uses_color_dependent_plot_style_tables(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.uses_color_dependent_plot_style_tables = Sy::sy(&d.uses_color_dependent_plot_style_tables, false, ANY); let x = e.uses_color_dependent_plot_style_tables.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.uses_color_dependent_plot_style_tables.same(if (15..=20).contains(&v) { &x } else { &d.uses_color_dependent_plot_style_tables }), "Header.uses_color_dependent_plot_style_tables", v); } }
}
fn h_fingerprint_guid(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.fingerprint_guid = Sy::sy(&d.fingerprint_guid, false, ANY); let x = e.fingerprint_guid.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if v >= 15 { c.chk(r.fingerprint_guid.same(if (15..=20).contains(&v) { &x } else { &d.fingerprint_guid }), "Header.fingerprint_guid", v); } }
}
fn h_version_guid(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.version_guid = Sy::sy(&d.version_guid, false, ANY); let x = e.version_guid.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if v >= 15 { c.chk(r.version_guid.same(if (15..=20).contains(&v) { &x } else { &d.version_guid }), "Header.version_guid", v); } }
}
fn h_use_acad2000_symbol_table_naming(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.use_acad2000_symbol_table_naming = Sy::sy(&d.use_acad2000_symbol_table_naming, false, ANY); let x = e.use_acad2000_symbol_table_naming.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.use_acad2000_symbol_table_naming.same(if (15..=20).contains(&v) { &x } else { &d.use_acad2000_symbol_table_naming }), "Header.use_acad2000_symbol_table_naming", v); } }
}
fn h_viewport_view_scale_factor(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.viewport_view_scale_factor = Sy::sy(&d.viewport_view_scale_factor, false, ANY); let x = e.viewport_view_scale_factor.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.viewport_view_scale_factor.same(if (15..=20).contains(&v) { &x } else { &d.viewport_view_scale_factor }), "Header.viewport_view_scale_factor", v); } }
}
fn h_ole_startup(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.ole_startup = Sy::sy(&d.ole_startup, false, ANY); let x = e.ole_startup.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.ole_startup.same(if (15..=20).contains(&v) { &x } else { &d.ole_startup }), "Header.ole_startup", v); } }
}
fn h_object_sorting_methods_flags(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.object_sorting_methods_flags = Sy::sy(&d.object_sorting_methods_flags, false, I16); let x = e.object_sorting_methods_flags.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.object_sorting_methods_flags.same(if (16..=20).contains(&v) { &x } else { &d.object_sorting_methods_flags }), "Header.object_sorting_methods_flags", v); } }
}
fn h_layer_and_spatial_index_save_mode(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.layer_and_spatial_index_save_mode = Sy::sy(&d.layer_and_spatial_index_save_mode, false, ANY); let x = e.layer_and_spatial_index_save_mode.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.layer_and_spatial_index_save_mode.same(if (16..=20).contains(&v) { &x } else { &d.layer_and_spatial_index_save_mode }), "Header.layer_and_spatial_index_save_mode", v); } }
}
fn h_hide_text_objects_when_producint_hidden_view(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.hide_text_objects_when_producint_hidden_view = Sy::sy(&d.hide_text_objects_when_producint_hidden_view, false, ANY); let x = e.hide_text_objects_when_producint_hidden_view.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.hide_text_objects_when_producint_hidden_view.same(if (16..=20).contains(&v) { &x } else { &d.hide_text_objects_when_producint_hidden_view }), "Header.hide_text_objects_when_producint_hidden_view", v); } }
}
fn h_is_x_ref_clipping_boundary_visible(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.is_x_ref_clipping_boundary_visible = Sy::sy(&d.is_x_ref_clipping_boundary_visible, false, ANY); let x = e.is_x_ref_clipping_boundary_visible.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.is_x_ref_clipping_boundary_visible.same(if v < 16 { &d.is_x_ref_clipping_boundary_visible } else { xclip(v, &x) }), "Header.is_x_ref_clipping_boundary_visible", v); } }
}
fn h_halo_gap_percent(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.halo_gap_percent = Sy::sy(&d.halo_gap_percent, false, INT16); let x = e.halo_gap_percent.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.halo_gap_percent.same(if (16..=20).contains(&v) { &x } else { &d.halo_gap_percent }), "Header.halo_gap_percent", v); } }
}
fn h_obscured_line_color(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.obscured_line_color = Sy::sy(&d.obscured_line_color, false, ANY); let x = e.obscured_line_color.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.obscured_line_color.same(if (16..=20).contains(&v) { &x } else { &d.obscured_line_color }), "Header.obscured_line_color", v); } }
}
fn h_obscured_line_type_style(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.obscured_line_type_style = Sy::sy(&d.obscured_line_type_style, false, ANY); let x = e.obscured_line_type_style.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.obscured_line_type_style.same(if (16..=20).contains(&v) { &x } else { &d.obscured_line_type_style }), "Header.obscured_line_type_style", v); } }
}
fn h_display_intersection_polylines(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.display_intersection_polylines = Sy::sy(&d.display_intersection_polylines, false, ANY); let x = e.display_intersection_polylines.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.display_intersection_polylines.same(if (16..=20).contains(&v) { &x } else { &d.display_intersection_polylines }), "Header.display_intersection_polylines", v); } }
}
fn h_intersection_polyline_color(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.intersection_polyline_color = Sy::sy(&d.intersection_polyline_color, false, ANY); let x = e.intersection_polyline_color.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.intersection_polyline_color.same(if (16..=20).contains(&v) { &x } else { &d.intersection_polyline_color }), "Header.intersection_polyline_color", v); } }
}
fn h_dimension_object_associativity(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dimension_object_associativity = Sy::sy(&d.dimension_object_associativity, false, ANY); let x = e.dimension_object_associativity.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dimension_object_associativity.same(if (16..=20).contains(&v) { &x } else { &d.dimension_object_associativity }), "Header.dimension_object_associativity", v); } }
}
fn h_project_name(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.project_name = Sy::sy(&d.project_name, false, ANY); let x = e.project_name.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.project_name.same(if (16..=20).contains(&v) { &x } else { &d.project_name }), "Header.project_name", v); } }
}
fn h_use_camera_display(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.use_camera_display = Sy::sy(&d.use_camera_display, false, ANY); let x = e.use_camera_display.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.use_camera_display.same(if (17..=20).contains(&v) { &x } else { &d.use_camera_display }), "Header.use_camera_display", v); } }
}
fn h_lens_length(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.lens_length = Sy::sy(&d.lens_length, false, ANY); let x = e.lens_length.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.lens_length.same(if (17..=20).contains(&v) { &x } else { &d.lens_length }), "Header.lens_length", v); } }
}
fn h_camera_height(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.camera_height = Sy::sy(&d.camera_height, false, ANY); let x = e.camera_height.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.camera_height.same(if (17..=20).contains(&v) { &x } else { &d.camera_height }), "Header.camera_height", v); } }
}
fn h_steps_per_second_in_walk_or_fly_mode(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.steps_per_second_in_walk_or_fly_mode = Sy::sy(&d.steps_per_second_in_walk_or_fly_mode, false, ANY); let x = e.steps_per_second_in_walk_or_fly_mode.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.steps_per_second_in_walk_or_fly_mode.same(if (17..=20).contains(&v) { &x } else { &d.steps_per_second_in_walk_or_fly_mode }), "Header.steps_per_second_in_walk_or_fly_mode", v); } }
}
fn h_step_size_in_walk_or_fly_mode(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.step_size_in_walk_or_fly_mode = Sy::sy(&d.step_size_in_walk_or_fly_mode, false, ANY); let x = e.step_size_in_walk_or_fly_mode.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.step_size_in_walk_or_fly_mode.same(if (17..=20).contains(&v) { &x } else { &d.step_size_in_walk_or_fly_mode }), "Header.step_size_in_walk_or_fly_mode", v); } }
}
fn h_dwf_3d_precision(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dwf_3d_precision = Sy::sy(&d.dwf_3d_precision, false, ANY); let x = e.dwf_3d_precision.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dwf_3d_precision.same(if (17..=20).contains(&v) { &x } else { &d.dwf_3d_precision }), "Header.dwf_3d_precision", v); } }
}
fn h_last_poly_solid_width(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.last_poly_solid_width = Sy::sy(&d.last_poly_solid_width, false, ANY); let x = e.last_poly_solid_width.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.last_poly_solid_width.same(if (17..=20).contains(&v) { &x } else { &d.last_poly_solid_width }), "Header.last_poly_solid_width", v); } }
}
fn h_last_poly_solid_height(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.last_poly_solid_height = Sy::sy(&d.last_poly_solid_height, false, ANY); let x = e.last_poly_solid_height.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.last_poly_solid_height.same(if (17..=20).contains(&v) { &x } else { &d.last_poly_solid_height }), "Header.last_poly_solid_height", v); } }
}
fn h_loft_operation_first_draft_angle(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.loft_operation_first_draft_angle = Sy::sy(&d.loft_operation_first_draft_angle, false, ANY); let x = e.loft_operation_first_draft_angle.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.loft_operation_first_draft_angle.same(if (17..=20).contains(&v) { &x } else { &d.loft_operation_first_draft_angle }), "Header.loft_operation_first_draft_angle", v); } }
}
fn h_loft_operation_second_draft_angle(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.loft_operation_second_draft_angle = Sy::sy(&d.loft_operation_second_draft_angle, false, ANY); let x = e.loft_operation_second_draft_angle.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.loft_operation_second_draft_angle.same(if (17..=20).contains(&v) { &x } else { &d.loft_operation_second_draft_angle }), "Header.loft_operation_second_draft_angle", v); } }
}
fn h_loft_operation_first_magnitude(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.loft_operation_first_magnitude = Sy::sy(&d.loft_operation_first_magnitude, false, ANY); let x = e.loft_operation_first_magnitude.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.loft_operation_first_magnitude.same(if (17..=20).contains(&v) { &x } else { &d.loft_operation_first_magnitude }), "Header.loft_operation_first_magnitude", v); } }
}
fn h_loft_operation_second_magnitude(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.loft_operation_second_magnitude = Sy::sy(&d.loft_operation_second_magnitude, false, ANY); let x = e.loft_operation_second_magnitude.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.loft_operation_second_magnitude.same(if (17..=20).contains(&v) { &x } else { &d.loft_operation_second_magnitude }), "Header.loft_operation_second_magnitude", v); } }
}
fn h_loft_flags(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.loft_flags = Sy::sy(&d.loft_flags, false, I16); let x = e.loft_flags.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.loft_flags.same(if (17..=20).contains(&v) { &x } else { &d.loft_flags }), "Header.loft_flags", v); } }
}
fn h_lofted_object_normal_mode(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.lofted_object_normal_mode = Sy::sy(&d.lofted_object_normal_mode, false, ANY); let x = e.lofted_object_normal_mode.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.lofted_object_normal_mode.same(if (17..=20).contains(&v) { &x } else { &d.lofted_object_normal_mode }), "Header.lofted_object_normal_mode", v); } }
}
fn h_latitude(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.latitude = Sy::sy(&d.latitude, false, ANY); let x = e.latitude.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.latitude.same(if (17..=20).contains(&v) { &x } else { &d.latitude }), "Header.latitude", v); } }
}
fn h_longitude(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.longitude = Sy::sy(&d.longitude, false, ANY); let x = e.longitude.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.longitude.same(if (17..=20).contains(&v) { &x } else { &d.longitude }), "Header.longitude", v); } }
}
fn h_angle_between_y_axis_and_north(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.angle_between_y_axis_and_north = Sy::sy(&d.angle_between_y_axis_and_north, false, ANY); let x = e.angle_between_y_axis_and_north.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.angle_between_y_axis_and_north.same(if (17..=20).contains(&v) { &x } else { &d.angle_between_y_axis_and_north }), "Header.angle_between_y_axis_and_north", v); } }
}
fn h_time_zone(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.time_zone = Sy::sy(&d.time_zone, false, ANY); let x = e.time_zone.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.time_zone.same(if (17..=20).contains(&v) { &x } else { &d.time_zone }), "Header.time_zone", v); } }
}
fn h_use_light_glyph_display(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.use_light_glyph_display = Sy::sy(&d.use_light_glyph_display, false, ANY); let x = e.use_light_glyph_display.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.use_light_glyph_display.same(if (17..=20).contains(&v) { &x } else { &d.use_light_glyph_display }), "Header.use_light_glyph_display", v); } }
}
fn h_use_tile_mode_light_sync(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.use_tile_mode_light_sync = Sy::sy(&d.use_tile_mode_light_sync, false, ANY); let x = e.use_tile_mode_light_sync.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.use_tile_mode_light_sync.same(if (17..=20).contains(&v) { &x } else { &d.use_tile_mode_light_sync }), "Header.use_tile_mode_light_sync", v); } }
}
fn h_current_material_handle(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.current_material_handle = Sy::sy(&d.current_material_handle, false, ANY); let x = e.current_material_handle.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.current_material_handle.same(if (17..=20).contains(&v) { &x } else { &d.current_material_handle }), "Header.current_material_handle", v); } }
}
fn h_new_solids_contain_history(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.new_solids_contain_history = Sy::sy(&d.new_solids_contain_history, false, ANY); let x = e.new_solids_contain_history.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.new_solids_contain_history.same(if (17..=20).contains(&v) { &x } else { &d.new_solids_contain_history }), "Header.new_solids_contain_history", v); } }
}
fn h_solid_history_mode(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.solid_history_mode = Sy::sy(&d.solid_history_mode, false, ANY); let x = e.solid_history_mode.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.solid_history_mode.same(if (17..=20).contains(&v) { &x } else { &d.solid_history_mode }), "Header.solid_history_mode", v); } }
}
fn h_dwf_underlay_frame_mode(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dwf_underlay_frame_mode = Sy::sy(&d.dwf_underlay_frame_mode, false, ANY); let x = e.dwf_underlay_frame_mode.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dwf_underlay_frame_mode.same(if (17..=20).contains(&v) { &x } else { &d.dwf_underlay_frame_mode }), "Header.dwf_underlay_frame_mode", v); } }
}
fn h_dgn_underlay_frame_mode(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.dgn_underlay_frame_mode = Sy::sy(&d.dgn_underlay_frame_mode, false, ANY); let x = e.dgn_underlay_frame_mode.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.dgn_underlay_frame_mode.same(if (17..=20).contains(&v) { &x } else { &d.dgn_underlay_frame_mode }), "Header.dgn_underlay_frame_mode", v); } }
}
fn h_use_real_world_scale(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.use_real_world_scale = Sy::sy(&d.use_real_world_scale, false, ANY); let x = e.use_real_world_scale.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.use_real_world_scale.same(if (17..=20).contains(&v) { &x } else { &d.use_real_world_scale }), "Header.use_real_world_scale", v); } }
}
fn h_interference_object_color(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.interference_object_color = Sy::sy(&d.interference_object_color, false, ANY); let x = e.interference_object_color.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.interference_object_color.same(if (17..=20).contains(&v) { &x } else { &d.interference_object_color }), "Header.interference_object_color", v); } }
}
fn h_interference_object_visual_style_pointer(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.interference_object_visual_style_pointer = Sy::sy(&d.interference_object_visual_style_pointer, false, ANY); let x = e.interference_object_visual_style_pointer.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.interference_object_visual_style_pointer.same(if (17..=20).contains(&v) { &x } else { &d.interference_object_visual_style_pointer }), "Header.interference_object_visual_style_pointer", v); } }
}
fn h_interference_view_port_visual_style_pointer(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.interference_view_port_visual_style_pointer = Sy::sy(&d.interference_view_port_visual_style_pointer, false, ANY); let x = e.interference_view_port_visual_style_pointer.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.interference_view_port_visual_style_pointer.same(if (17..=20).contains(&v) { &x } else { &d.interference_view_port_visual_style_pointer }), "Header.interference_view_port_visual_style_pointer", v); } }
}
fn h_shadow_mode(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.shadow_mode = Sy::sy(&d.shadow_mode, false, ANY); let x = e.shadow_mode.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.shadow_mode.same(if (17..=20).contains(&v) { &x } else { &d.shadow_mode }), "Header.shadow_mode", v); } }
}
fn h_shadow_plane_z_offset(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.shadow_plane_z_offset = Sy::sy(&d.shadow_plane_z_offset, false, ANY); let x = e.shadow_plane_z_offset.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.shadow_plane_z_offset.same(if (17..=20).contains(&v) { &x } else { &d.shadow_plane_z_offset }), "Header.shadow_plane_z_offset", v); } }
}
fn h_axis_on(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.axis_on = Sy::sy(&d.axis_on, false, ANY); let x = e.axis_on.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.axis_on.same(if (0..=10).contains(&v) { &x } else { &d.axis_on }), "Header.axis_on", v); } }
}
fn h_axis_tick_spacing(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.axis_tick_spacing = Sy::sy(&d.axis_tick_spacing, false, XY); let x = e.axis_tick_spacing.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.axis_tick_spacing.same(if (0..=10).contains(&v) { &x } else { &d.axis_tick_spacing }), "Header.axis_tick_spacing", v); } }
}
fn h_fast_zoom(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.fast_zoom = Sy::sy(&d.fast_zoom, false, ANY); let x = e.fast_zoom.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.fast_zoom.same(if (0..=10).contains(&v) { &x } else { &d.fast_zoom }), "Header.fast_zoom", v); } }
}
fn h_grid_on(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.grid_on = Sy::sy(&d.grid_on, false, ANY); let x = e.grid_on.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.grid_on.same(if (0..=10).contains(&v) { &x } else { &d.grid_on }), "Header.grid_on", v); } }
}
fn h_grid_spacing(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.grid_spacing = Sy::sy(&d.grid_spacing, false, XY); let x = e.grid_spacing.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.grid_spacing.same(if (0..=10).contains(&v) { &x } else { &d.grid_spacing }), "Header.grid_spacing", v); } }
}
fn h_snap_rotation_angle(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.snap_rotation_angle = Sy::sy(&d.snap_rotation_angle, false, ANY); let x = e.snap_rotation_angle.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.snap_rotation_angle.same(if (0..=10).contains(&v) { &x } else { &d.snap_rotation_angle }), "Header.snap_rotation_angle", v); } }
}
fn h_snap_base_point(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.snap_base_point = Sy::sy(&d.snap_base_point, false, XY); let x = e.snap_base_point.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.snap_base_point.same(if (0..=10).contains(&v) { &x } else { &d.snap_base_point }), "Header.snap_base_point", v); } }
}
fn h_snap_isometric_plane(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.snap_isometric_plane = Sy::sy(&d.snap_isometric_plane, false, ANY); let x = e.snap_isometric_plane.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.snap_isometric_plane.same(if (0..=10).contains(&v) { &x } else { &d.snap_isometric_plane }), "Header.snap_isometric_plane", v); } }
}
fn h_snap_on(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.snap_on = Sy::sy(&d.snap_on, false, ANY); let x = e.snap_on.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.snap_on.same(if (0..=10).contains(&v) { &x } else { &d.snap_on }), "Header.snap_on", v); } }
}
fn h_snap_style(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.snap_style = Sy::sy(&d.snap_style, false, ANY); let x = e.snap_style.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.snap_style.same(if (0..=10).contains(&v) { &x } else { &d.snap_style }), "Header.snap_style", v); } }
}
fn h_snap_spacing(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.snap_spacing = Sy::sy(&d.snap_spacing, false, XY); let x = e.snap_spacing.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.snap_spacing.same(if (0..=10).contains(&v) { &x } else { &d.snap_spacing }), "Header.snap_spacing", v); } }
}
fn h_view_center(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.view_center = Sy::sy(&d.view_center, false, XY); let x = e.view_center.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.view_center.same(if (0..=10).contains(&v) { &x } else { &d.view_center }), "Header.view_center", v); } }
}
fn h_view_direction(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.view_direction = Sy::sy(&d.view_direction, false, ANY); let x = e.view_direction.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.view_direction.same(if (0..=10).contains(&v) { &x } else { &d.view_direction }), "Header.view_direction", v); } }
}
fn h_view_height(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.view_height = Sy::sy(&d.view_height, false, ANY); let x = e.view_height.clone(); #[allow(unused)] let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) { if true { c.chk(r.view_height.same(if (0..=10).contains(&v) { &x } else { &d.view_height }), "Header.view_height", v); } }
}
pub static TAB: &[(&str, fn(&Cx))] = &[
    ("maintenance_version", h_maintenance_version),
    ("drawing_code_page", h_drawing_code_page),
    ("last_saved_by", h_last_saved_by),
    ("required_versions", h_required_versions),
    ("insertion_base", h_insertion_base),
    ("minimum_drawing_extents", h_minimum_drawing_extents),
    ("maximum_drawing_extents", h_maximum_drawing_extents),
    ("minimum_drawing_limits", h_minimum_drawing_limits),
    ("maximum_drawing_limits", h_maximum_drawing_limits),
    ("draw_orthogonal_lines", h_draw_orthogonal_lines),
    ("use_regen_mode", h_use_regen_mode),
    ("fill_mode_on", h_fill_mode_on),
    ("use_quick_text_mode", h_use_quick_text_mode),
    ("mirror_text", h_mirror_text),
    ("drag_mode", h_drag_mode),
    ("line_type_scale", h_line_type_scale),
    ("object_snap_flags", h_object_snap_flags),
    ("attribute_visibility", h_attribute_visibility),
    ("default_text_height", h_default_text_height),
    ("trace_width", h_trace_width),
    ("text_style", h_text_style),
    ("current_layer", h_current_layer),
    ("current_entity_line_type", h_current_entity_line_type),
    ("current_entity_color", h_current_entity_color),
    ("current_entity_line_type_scale", h_current_entity_line_type_scale),
    ("retain_deleted_objects", h_retain_deleted_objects),
    ("display_silhouette_curves_in_wireframe_mode", h_display_silhouette_curves_in_wireframe_mode),
    ("solid_visual_style_pointer", h_solid_visual_style_pointer),
    ("dimensioning_scale_factor", h_dimensioning_scale_factor),
    ("dimensioning_arrow_size", h_dimensioning_arrow_size),
    ("dimension_extension_line_offset", h_dimension_extension_line_offset),
    ("dimension_line_increment", h_dimension_line_increment),
    ("dimension_distance_rounding_value", h_dimension_distance_rounding_value),
    ("dimension_line_extension", h_dimension_line_extension),
    ("dimension_extension_line_extension", h_dimension_extension_line_extension),
    ("dimension_plus_tolerance", h_dimension_plus_tolerance),
    ("dimension_minus_tolerance", h_dimension_minus_tolerance),
    ("dimensioning_text_height", h_dimensioning_text_height),
    ("center_mark_size", h_center_mark_size),
    ("dimensioning_tick_size", h_dimensioning_tick_size),
    ("generate_dimension_tolerances", h_generate_dimension_tolerances),
    ("generate_dimension_limits", h_generate_dimension_limits),
    ("dimension_text_inside_horizontal", h_dimension_text_inside_horizontal),
    ("dimension_text_outside_horizontal", h_dimension_text_outside_horizontal),
    ("suppress_first_dimension_extension_line", h_suppress_first_dimension_extension_line),
    ("suppress_second_dimension_extension_line", h_suppress_second_dimension_extension_line),
    ("text_above_dimension_line", h_text_above_dimension_line),
    ("dimension_unit_zero_suppression", h_dimension_unit_zero_suppression),
    ("arrow_block_name", h_arrow_block_name),
    ("create_associative_dimensioning", h_create_associative_dimensioning),
    ("recompute_dimensions_while_dragging", h_recompute_dimensions_while_dragging),
    ("dimensioning_suffix", h_dimensioning_suffix),
    ("alternate_dimensioning_suffix", h_alternate_dimensioning_suffix),
    ("use_alternate_dimensioning", h_use_alternate_dimensioning),
    ("alternate_dimensioning_decimal_places", h_alternate_dimensioning_decimal_places),
    ("alternate_dimensioning_scale_factor", h_alternate_dimensioning_scale_factor),
    ("dimension_linear_measurements_scale_factor", h_dimension_linear_measurements_scale_factor),
    ("force_dimension_line_extensions_outside_if_text_is", h_force_dimension_line_extensions_outside_if_text_is),
    ("dimension_vertical_text_position", h_dimension_vertical_text_position),
    ("force_dimension_text_inside_extensions", h_force_dimension_text_inside_extensions),
    ("suppress_outside_extension_dimension_lines", h_suppress_outside_extension_dimension_lines),
    ("use_separate_arrow_blocks_for_dimensions", h_use_separate_arrow_blocks_for_dimensions),
    ("first_arrow_block_name", h_first_arrow_block_name),
    ("second_arrow_block_name", h_second_arrow_block_name),
    ("dimension_style_name", h_dimension_style_name),
    ("dimension_line_color", h_dimension_line_color),
    ("dimension_extension_line_color", h_dimension_extension_line_color),
    ("dimension_text_color", h_dimension_text_color),
    ("dimension_tolerance_display_scale_factor", h_dimension_tolerance_display_scale_factor),
    ("dimension_line_gap", h_dimension_line_gap),
    ("dimension_text_justification", h_dimension_text_justification),
    ("dimension_tolerance_vertical_justification", h_dimension_tolerance_vertical_justification),
    ("dimension_tolerance_zero_suppression", h_dimension_tolerance_zero_suppression),
    ("alternate_dimensioning_zero_supression", h_alternate_dimensioning_zero_supression),
    ("alternate_dimensioning_tolerance_zero_supression", h_alternate_dimensioning_tolerance_zero_supression),
    ("dimension_text_and_arrow_placement", h_dimension_text_and_arrow_placement),
    ("dimension_cursor_controls_text_position", h_dimension_cursor_controls_text_position),
    ("dimension_unit_format", h_dimension_unit_format),
    ("dimension_unit_tolerance_decimal_places", h_dimension_unit_tolerance_decimal_places),
    ("dimension_tolerance_decimal_places", h_dimension_tolerance_decimal_places),
    ("alternate_dimensioning_units", h_alternate_dimensioning_units),
    ("alternate_dimensioning_tolerance_decimal_places", h_alternate_dimensioning_tolerance_decimal_places),
    ("dimension_text_style", h_dimension_text_style),
    ("dimensioning_angle_format", h_dimensioning_angle_format),
    ("angular_dimension_precision", h_angular_dimension_precision),
    ("alternate_dimensioning_unit_rounding", h_alternate_dimensioning_unit_rounding),
    ("dimension_angle_zero_suppression", h_dimension_angle_zero_suppression),
    ("dimension_decimal_separator_char", h_dimension_decimal_separator_char),
    ("dimension_text_height_scale_factor", h_dimension_text_height_scale_factor),
    ("dimension_leader_block_name", h_dimension_leader_block_name),
    ("dimension_non_angular_units", h_dimension_non_angular_units),
    ("dimension_line_weight", h_dimension_line_weight),
    ("dimension_extension_line_weight", h_dimension_extension_line_weight),
    ("dimension_text_movement_rule", h_dimension_text_movement_rule),
    ("dimension_line_fixed_length", h_dimension_line_fixed_length),
    ("dimension_line_fixed_length_on", h_dimension_line_fixed_length_on),
    ("dimension_transverse_segment_angle_in_jogged_radius", h_dimension_transverse_segment_angle_in_jogged_radius),
    ("dimension_text_background_color_mode", h_dimension_text_background_color_mode),
    ("dxf_dimension_text_background_custom_color", h_dxf_dimension_text_background_custom_color),
    ("dimension_arc_symbol_display_mode", h_dimension_arc_symbol_display_mode),
    ("dimension_line_type", h_dimension_line_type),
    ("dimension_first_extension_line_type", h_dimension_first_extension_line_type),
    ("dimension_second_extension_line_type", h_dimension_second_extension_line_type),
    ("dimension_text_direction", h_dimension_text_direction),
    ("unit_format", h_unit_format),
    ("unit_precision", h_unit_precision),
    ("sketch_record_increment", h_sketch_record_increment),
    ("fillet_radius", h_fillet_radius),
    ("angle_unit_format", h_angle_unit_format),
    ("angle_unit_precision", h_angle_unit_precision),
    ("file_name", h_file_name),
    ("elevation", h_elevation),
    ("paperspace_elevation", h_paperspace_elevation),
    ("thickness", h_thickness),
    ("use_limits_checking", h_use_limits_checking),
    ("blip_mode", h_blip_mode),
    ("first_chamfer_distance", h_first_chamfer_distance),
    ("second_chamfer_distance", h_second_chamfer_distance),
    ("chamfer_length", h_chamfer_length),
    ("chamfer_angle", h_chamfer_angle),
    ("polyline_sketch_mode", h_polyline_sketch_mode),
    ("user_timer_on", h_user_timer_on),
    ("angle_zero_direction", h_angle_zero_direction),
    ("angle_direction", h_angle_direction),
    ("point_display_mode", h_point_display_mode),
    ("point_display_size", h_point_display_size),
    ("default_polyline_width", h_default_polyline_width),
    ("coordinate_display", h_coordinate_display),
    ("display_spline_polygon_control", h_display_spline_polygon_control),
    ("pedit_spline_curve_type", h_pedit_spline_curve_type),
    ("line_segments_per_spline_patch", h_line_segments_per_spline_patch),
    ("show_attribute_entry_dialogs", h_show_attribute_entry_dialogs),
    ("prompt_for_attribute_on_insert", h_prompt_for_attribute_on_insert),
    ("handles_enabled", h_handles_enabled),
    ("next_available_handle", h_next_available_handle),
    ("mesh_tabulations_in_first_direction", h_mesh_tabulations_in_first_direction),
    ("mesh_tabulations_in_second_direction", h_mesh_tabulations_in_second_direction),
    ("pedit_smooth_surface_type", h_pedit_smooth_surface_type),
    ("pedit_smooth_m_densith", h_pedit_smooth_m_densith),
    ("pedit_smooth_n_densith", h_pedit_smooth_n_densith),
    ("ucs_definition_name", h_ucs_definition_name),
    ("ucs_name", h_ucs_name),
    ("ucs_origin", h_ucs_origin),
    ("ucs_x_axis", h_ucs_x_axis),
    ("ucs_y_axis", h_ucs_y_axis),
    ("ortho_ucs_reference", h_ortho_ucs_reference),
    ("orthgraphic_view_type", h_orthgraphic_view_type),
    ("ucs_origin_top", h_ucs_origin_top),
    ("ucs_origin_bottom", h_ucs_origin_bottom),
    ("ucs_origin_left", h_ucs_origin_left),
    ("ucs_origin_right", h_ucs_origin_right),
    ("ucs_origin_front", h_ucs_origin_front),
    ("ucs_origin_back", h_ucs_origin_back),
    ("paperspace_ucs_definition_name", h_paperspace_ucs_definition_name),
    ("paperspace_ucs_name", h_paperspace_ucs_name),
    ("paperspace_ucs_origin", h_paperspace_ucs_origin),
    ("paperspace_x_axis", h_paperspace_x_axis),
    ("paperspace_y_axis", h_paperspace_y_axis),
    ("paperspace_ortho_ucs_reference", h_paperspace_ortho_ucs_reference),
    ("paperspace_orthographic_view_type", h_paperspace_orthographic_view_type),
    ("paperspace_ucs_origin_top", h_paperspace_ucs_origin_top),
    ("paperspace_ucs_origin_bottom", h_paperspace_ucs_origin_bottom),
    ("paperspace_ucs_origin_left", h_paperspace_ucs_origin_left),
    ("paperspace_ucs_origin_right", h_paperspace_ucs_origin_right),
    ("paperspace_ucs_origin_front", h_paperspace_ucs_origin_front),
    ("paperspace_ucs_origin_back", h_paperspace_ucs_origin_back),
    ("user_int1", h_user_int1),
    ("user_int2", h_user_int2),
    ("user_int3", h_user_int3),
    ("user_int4", h_user_int4),
    ("user_int5", h_user_int5),
    ("user_real1", h_user_real1),
    ("user_real2", h_user_real2),
    ("user_real3", h_user_real3),
    ("user_real4", h_user_real4),
    ("user_real5", h_user_real5),
    ("set_ucs_to_wcs_in_d_view_or_v_point", h_set_ucs_to_wcs_in_d_view_or_v_point),
    ("edge_shading", h_edge_shading),
    ("percent_ambient_to_diffuse", h_percent_ambient_to_diffuse),
    ("previous_release_tile_compatability", h_previous_release_tile_compatability),
    ("maximum_active_viewports", h_maximum_active_viewports),
    ("paperspace_insertion_base", h_paperspace_insertion_base),
    ("limit_checking_in_paperspace", h_limit_checking_in_paperspace),
    ("paperspace_minimum_drawing_extents", h_paperspace_minimum_drawing_extents),
    ("paperspace_maximum_drawing_extents", h_paperspace_maximum_drawing_extents),
    ("paperspace_minimum_drawing_limits", h_paperspace_minimum_drawing_limits),
    ("paperspace_maximum_drawing_limits", h_paperspace_maximum_drawing_limits),
    ("display_fractions_in_input", h_display_fractions_in_input),
    ("retain_x_ref_dependent_visibility_settings", h_retain_x_ref_dependent_visibility_settings),
    ("is_polyline_continuous_around_verticies", h_is_polyline_continuous_around_verticies),
    ("scale_line_types_in_paperspace", h_scale_line_types_in_paperspace),
    ("spacial_index_max_depth", h_spacial_index_max_depth),
    ("pick_style", h_pick_style),
    ("current_multiline_style", h_current_multiline_style),
    ("current_multiline_justification", h_current_multiline_justification),
    ("current_multiline_scale", h_current_multiline_scale),
    ("save_proxy_graphics", h_save_proxy_graphics),
    ("drawing_units", h_drawing_units),
    ("new_object_line_weight", h_new_object_line_weight),
    ("end_cap_setting", h_end_cap_setting),
    ("lineweight_joint_setting", h_lineweight_joint_setting),
    ("display_linewieght_in_model_and_layout_tab", h_display_linewieght_in_model_and_layout_tab),
    ("default_drawing_units", h_default_drawing_units),
    ("hyperlink_base", h_hyperlink_base),
    ("stylesheet", h_stylesheet),
    ("can_use_in_place_reference_editing", h_can_use_in_place_reference_editing),
    ("new_object_plot_style_handle", h_new_object_plot_style_handle),
    ("new_object_plot_style", h_new_object_plot_style),
    ("uses_color_dependent_plot_style_tables", h_uses_color_dependent_plot_style_tables),
    ("fingerprint_guid", h_fingerprint_guid),
    ("version_guid", h_version_guid),
    ("use_acad2000_symbol_table_naming", h_use_acad2000_symbol_table_naming),
    ("viewport_view_scale_factor", h_viewport_view_scale_factor),
    ("ole_startup", h_ole_startup),
    ("object_sorting_methods_flags", h_object_sorting_methods_flags),
    ("layer_and_spatial_index_save_mode", h_layer_and_spatial_index_save_mode),
    ("hide_text_objects_when_producint_hidden_view", h_hide_text_objects_when_producint_hidden_view),
    ("is_x_ref_clipping_boundary_visible", h_is_x_ref_clipping_boundary_visible),
    ("halo_gap_percent", h_halo_gap_percent),
    ("obscured_line_color", h_obscured_line_color),
    ("obscured_line_type_style", h_obscured_line_type_style),
    ("display_intersection_polylines", h_display_intersection_polylines),
    ("intersection_polyline_color", h_intersection_polyline_color),
    ("dimension_object_associativity", h_dimension_object_associativity),
    ("project_name", h_project_name),
    ("use_camera_display", h_use_camera_display),
    ("lens_length", h_lens_length),
    ("camera_height", h_camera_height),
    ("steps_per_second_in_walk_or_fly_mode", h_steps_per_second_in_walk_or_fly_mode),
    ("step_size_in_walk_or_fly_mode", h_step_size_in_walk_or_fly_mode),
    ("dwf_3d_precision", h_dwf_3d_precision),
    ("last_poly_solid_width", h_last_poly_solid_width),
    ("last_poly_solid_height", h_last_poly_solid_height),
    ("loft_operation_first_draft_angle", h_loft_operation_first_draft_angle),
    ("loft_operation_second_draft_angle", h_loft_operation_second_draft_angle),
    ("loft_operation_first_magnitude", h_loft_operation_first_magnitude),
    ("loft_operation_second_magnitude", h_loft_operation_second_magnitude),
    ("loft_flags", h_loft_flags),
    ("lofted_object_normal_mode", h_lofted_object_normal_mode),
    ("latitude", h_latitude),
    ("longitude", h_longitude),
    ("angle_between_y_axis_and_north", h_angle_between_y_axis_and_north),
    ("time_zone", h_time_zone),
    ("use_light_glyph_display", h_use_light_glyph_display),
    ("use_tile_mode_light_sync", h_use_tile_mode_light_sync),
    ("current_material_handle", h_current_material_handle),
    ("new_solids_contain_history", h_new_solids_contain_history),
    ("solid_history_mode", h_solid_history_mode),
    ("dwf_underlay_frame_mode", h_dwf_underlay_frame_mode),
    ("dgn_underlay_frame_mode", h_dgn_underlay_frame_mode),
    ("use_real_world_scale", h_use_real_world_scale),
    ("interference_object_color", h_interference_object_color),
    ("interference_object_visual_style_pointer", h_interference_object_visual_style_pointer),
    ("interference_view_port_visual_style_pointer", h_interference_view_port_visual_style_pointer),
    ("shadow_mode", h_shadow_mode),
    ("shadow_plane_z_offset", h_shadow_plane_z_offset),
    ("axis_on", h_axis_on),
    ("axis_tick_spacing", h_axis_tick_spacing),
    ("fast_zoom", h_fast_zoom),
    ("grid_on", h_grid_on),
    ("grid_spacing", h_grid_spacing),
    ("snap_rotation_angle", h_snap_rotation_angle),
    ("snap_base_point", h_snap_base_point),
    ("snap_isometric_plane", h_snap_isometric_plane),
    ("snap_on", h_snap_on),
    ("snap_style", h_snap_style),
    ("snap_spacing", h_snap_spacing),
    ("view_center", h_view_center),
    ("view_direction", h_view_direction),
    ("view_height", h_view_height),
];
pub fn h_all(c: &Cx) {
    let d = Header::default(); let mut e = Header::default(); let v = c.ver(0, 20);
    e.maintenance_version = Sy::sy(&d.maintenance_version, true, ANY);
    e.drawing_code_page = Sy::sy(&d.drawing_code_page, true, ANY);
    e.last_saved_by = Sy::sy(&d.last_saved_by, true, ANY);
    e.required_versions = Sy::sy(&d.required_versions, true, ANY);
    e.insertion_base = Sy::sy(&d.insertion_base, true, ANY);
    e.minimum_drawing_extents = Sy::sy(&d.minimum_drawing_extents, true, ANY);
    e.maximum_drawing_extents = Sy::sy(&d.maximum_drawing_extents, true, ANY);
    e.minimum_drawing_limits = Sy::sy(&d.minimum_drawing_limits, true, XY);
    e.maximum_drawing_limits = Sy::sy(&d.maximum_drawing_limits, true, XY);
    e.draw_orthogonal_lines = Sy::sy(&d.draw_orthogonal_lines, true, ANY);
    e.use_regen_mode = Sy::sy(&d.use_regen_mode, true, ANY);
    e.fill_mode_on = Sy::sy(&d.fill_mode_on, true, ANY);
    e.use_quick_text_mode = Sy::sy(&d.use_quick_text_mode, true, ANY);
    e.mirror_text = Sy::sy(&d.mirror_text, true, ANY);
    e.drag_mode = Sy::sy(&d.drag_mode, true, ANY);
    e.line_type_scale = Sy::sy(&d.line_type_scale, true, ANY);
    e.object_snap_flags = Sy::sy(&d.object_snap_flags, true, I16);
    e.attribute_visibility = Sy::sy(&d.attribute_visibility, true, ANY);
    e.default_text_height = Sy::sy(&d.default_text_height, true, ANY);
    e.trace_width = Sy::sy(&d.trace_width, true, ANY);
    e.text_style = Sy::sy(&d.text_style, true, ANY);
    e.current_layer = Sy::sy(&d.current_layer, true, ANY);
    e.current_entity_line_type = Sy::sy(&d.current_entity_line_type, true, ANY);
    e.current_entity_color = Sy::sy(&d.current_entity_color, true, ANY);
    e.current_entity_line_type_scale = Sy::sy(&d.current_entity_line_type_scale, true, ANY);
    e.retain_deleted_objects = Sy::sy(&d.retain_deleted_objects, true, ANY);
    e.display_silhouette_curves_in_wireframe_mode = Sy::sy(&d.display_silhouette_curves_in_wireframe_mode, true, ANY);
    e.solid_visual_style_pointer = Sy::sy(&d.solid_visual_style_pointer, true, ANY);
    e.dimensioning_scale_factor = Sy::sy(&d.dimensioning_scale_factor, true, ANY);
    e.dimensioning_arrow_size = Sy::sy(&d.dimensioning_arrow_size, true, ANY);
    e.dimension_extension_line_offset = Sy::sy(&d.dimension_extension_line_offset, true, ANY);
    e.dimension_line_increment = Sy::sy(&d.dimension_line_increment, true, ANY);
    e.dimension_distance_rounding_value = Sy::sy(&d.dimension_distance_rounding_value, true, ANY);
    e.dimension_line_extension = Sy::sy(&d.dimension_line_extension, true, ANY);
    e.dimension_extension_line_extension = Sy::sy(&d.dimension_extension_line_extension, true, ANY);
    e.dimension_plus_tolerance = Sy::sy(&d.dimension_plus_tolerance, true, ANY);
    e.dimension_minus_tolerance = Sy::sy(&d.dimension_minus_tolerance, true, ANY);
    e.dimensioning_text_height = Sy::sy(&d.dimensioning_text_height, true, ANY);
    e.center_mark_size = Sy::sy(&d.center_mark_size, true, ANY);
    e.dimensioning_tick_size = Sy::sy(&d.dimensioning_tick_size, true, ANY);
    e.generate_dimension_tolerances = Sy::sy(&d.generate_dimension_tolerances, true, ANY);
    e.generate_dimension_limits = Sy::sy(&d.generate_dimension_limits, true, ANY);
    e.dimension_text_inside_horizontal = Sy::sy(&d.dimension_text_inside_horizontal, true, ANY);
    e.dimension_text_outside_horizontal = Sy::sy(&d.dimension_text_outside_horizontal, true, ANY);
    e.suppress_first_dimension_extension_line = Sy::sy(&d.suppress_first_dimension_extension_line, true, ANY);
    e.suppress_second_dimension_extension_line = Sy::sy(&d.suppress_second_dimension_extension_line, true, ANY);
    e.text_above_dimension_line = Sy::sy(&d.text_above_dimension_line, true, ANY);
    e.dimension_unit_zero_suppression = Sy::sy(&d.dimension_unit_zero_suppression, true, ANY);
    e.arrow_block_name = Sy::sy(&d.arrow_block_name, true, ANY);
    e.create_associative_dimensioning = Sy::sy(&d.create_associative_dimensioning, true, ANY);
    e.recompute_dimensions_while_dragging = Sy::sy(&d.recompute_dimensions_while_dragging, true, ANY);
    e.dimensioning_suffix = Sy::sy(&d.dimensioning_suffix, true, ANY);
    e.alternate_dimensioning_suffix = Sy::sy(&d.alternate_dimensioning_suffix, true, ANY);
    e.use_alternate_dimensioning = Sy::sy(&d.use_alternate_dimensioning, true, ANY);
    e.alternate_dimensioning_decimal_places = Sy::sy(&d.alternate_dimensioning_decimal_places, true, ANY);
    e.alternate_dimensioning_scale_factor = Sy::sy(&d.alternate_dimensioning_scale_factor, true, ANY);
    e.dimension_linear_measurements_scale_factor = Sy::sy(&d.dimension_linear_measurements_scale_factor, true, ANY);
    e.force_dimension_line_extensions_outside_if_text_is = Sy::sy(&d.force_dimension_line_extensions_outside_if_text_is, true, ANY);
    e.dimension_vertical_text_position = Sy::sy(&d.dimension_vertical_text_position, true, ANY);
    e.force_dimension_text_inside_extensions = Sy::sy(&d.force_dimension_text_inside_extensions, true, ANY);
    e.suppress_outside_extension_dimension_lines = Sy::sy(&d.suppress_outside_extension_dimension_lines, true, ANY);
    e.use_separate_arrow_blocks_for_dimensions = Sy::sy(&d.use_separate_arrow_blocks_for_dimensions, true, ANY);
    e.first_arrow_block_name = Sy::sy(&d.first_arrow_block_name, true, ANY);
    e.second_arrow_block_name = Sy::sy(&d.second_arrow_block_name, true, ANY);
    e.dimension_style_name = Sy::sy(&d.dimension_style_name, true, ANY);
    e.dimension_line_color = Sy::sy(&d.dimension_line_color, true, ANY);
    e.dimension_extension_line_color = Sy::sy(&d.dimension_extension_line_color, true, ANY);
    e.dimension_text_color = Sy::sy(&d.dimension_text_color, true, ANY);
    e.dimension_tolerance_display_scale_factor = Sy::sy(&d.dimension_tolerance_display_scale_factor, true, ANY);
    e.dimension_line_gap = Sy::sy(&d.dimension_line_gap, true, ANY);
    e.dimension_text_justification = Sy::sy(&d.dimension_text_justification, true, ANY);
    e.dimension_tolerance_vertical_justification = Sy::sy(&d.dimension_tolerance_vertical_justification, true, ANY);
    e.dimension_tolerance_zero_suppression = Sy::sy(&d.dimension_tolerance_zero_suppression, true, ANY);
    e.alternate_dimensioning_zero_supression = Sy::sy(&d.alternate_dimensioning_zero_supression, true, ANY);
    e.alternate_dimensioning_tolerance_zero_supression = Sy::sy(&d.alternate_dimensioning_tolerance_zero_supression, true, ANY);
    e.dimension_text_and_arrow_placement = Sy::sy(&d.dimension_text_and_arrow_placement, true, ANY);
    e.dimension_cursor_controls_text_position = Sy::sy(&d.dimension_cursor_controls_text_position, true, ANY);
    e.dimension_unit_format = Sy::sy(&d.dimension_unit_format, true, ANY);
    e.dimension_unit_tolerance_decimal_places = Sy::sy(&d.dimension_unit_tolerance_decimal_places, true, ANY);
    e.dimension_tolerance_decimal_places = Sy::sy(&d.dimension_tolerance_decimal_places, true, ANY);
    e.alternate_dimensioning_units = Sy::sy(&d.alternate_dimensioning_units, true, ANY);
    e.alternate_dimensioning_tolerance_decimal_places = Sy::sy(&d.alternate_dimensioning_tolerance_decimal_places, true, ANY);
    e.dimension_text_style = Sy::sy(&d.dimension_text_style, true, ANY);
    e.dimensioning_angle_format = Sy::sy(&d.dimensioning_angle_format, true, ANY);
    e.angular_dimension_precision = Sy::sy(&d.angular_dimension_precision, true, ANY);
    e.alternate_dimensioning_unit_rounding = Sy::sy(&d.alternate_dimensioning_unit_rounding, true, ANY);
    e.dimension_angle_zero_suppression = Sy::sy(&d.dimension_angle_zero_suppression, true, ANY);
    e.dimension_decimal_separator_char = Sy::sy(&d.dimension_decimal_separator_char, true, ANY);
    e.dimension_text_height_scale_factor = Sy::sy(&d.dimension_text_height_scale_factor, true, ANY);
    e.dimension_leader_block_name = Sy::sy(&d.dimension_leader_block_name, true, ANY);
    e.dimension_non_angular_units = Sy::sy(&d.dimension_non_angular_units, true, ANY);
    e.dimension_line_weight = Sy::sy(&d.dimension_line_weight, true, ANY);
    e.dimension_extension_line_weight = Sy::sy(&d.dimension_extension_line_weight, true, ANY);
    e.dimension_text_movement_rule = Sy::sy(&d.dimension_text_movement_rule, true, ANY);
    e.dimension_line_fixed_length = Sy::sy(&d.dimension_line_fixed_length, true, ANY);
    e.dimension_line_fixed_length_on = Sy::sy(&d.dimension_line_fixed_length_on, true, ANY);
    e.dimension_transverse_segment_angle_in_jogged_radius = Sy::sy(&d.dimension_transverse_segment_angle_in_jogged_radius, true, ANY);
    e.dimension_text_background_color_mode = Sy::sy(&d.dimension_text_background_color_mode, true, ANY);
    e.dxf_dimension_text_background_custom_color = Sy::sy(&d.dxf_dimension_text_background_custom_color, true, ANY);
    e.dimension_arc_symbol_display_mode = Sy::sy(&d.dimension_arc_symbol_display_mode, true, ANY);
    e.dimension_line_type = Sy::sy(&d.dimension_line_type, true, ANY);
    e.dimension_first_extension_line_type = Sy::sy(&d.dimension_first_extension_line_type, true, ANY);
    e.dimension_second_extension_line_type = Sy::sy(&d.dimension_second_extension_line_type, true, ANY);
    e.dimension_text_direction = Sy::sy(&d.dimension_text_direction, true, ANY);
    e.unit_format = Sy::sy(&d.unit_format, true, ANY);
    e.unit_precision = Sy::sy(&d.unit_precision, true, ANY);
    e.sketch_record_increment = Sy::sy(&d.sketch_record_increment, true, ANY);
    e.fillet_radius = Sy::sy(&d.fillet_radius, true, ANY);
    e.angle_unit_format = Sy::sy(&d.angle_unit_format, true, ANY);
    e.angle_unit_precision = Sy::sy(&d.angle_unit_precision, true, ANY);
    e.file_name = Sy::sy(&d.file_name, true, ANY);
    e.elevation = Sy::sy(&d.elevation, true, ANY);
    e.paperspace_elevation = Sy::sy(&d.paperspace_elevation, true, ANY);
    e.thickness = Sy::sy(&d.thickness, true, ANY);
    e.use_limits_checking = Sy::sy(&d.use_limits_checking, true, ANY);
    e.blip_mode = Sy::sy(&d.blip_mode, true, ANY);
    e.first_chamfer_distance = Sy::sy(&d.first_chamfer_distance, true, ANY);
    e.second_chamfer_distance = Sy::sy(&d.second_chamfer_distance, true, ANY);
    e.chamfer_length = Sy::sy(&d.chamfer_length, true, ANY);
    e.chamfer_angle = Sy::sy(&d.chamfer_angle, true, ANY);
    e.polyline_sketch_mode = Sy::sy(&d.polyline_sketch_mode, true, ANY);
    e.user_timer_on = Sy::sy(&d.user_timer_on, true, ANY);
    e.angle_zero_direction = Sy::sy(&d.angle_zero_direction, true, ANY);
    e.angle_direction = Sy::sy(&d.angle_direction, true, ANY);
    e.point_display_mode = Sy::sy(&d.point_display_mode, true, I16);
    e.point_display_size = Sy::sy(&d.point_display_size, true, ANY);
    e.default_polyline_width = Sy::sy(&d.default_polyline_width, true, ANY);
    e.coordinate_display = Sy::sy(&d.coordinate_display, true, ANY);
    e.display_spline_polygon_control = Sy::sy(&d.display_spline_polygon_control, true, ANY);
    e.pedit_spline_curve_type = Sy::sy(&d.pedit_spline_curve_type, true, ANY);
    e.line_segments_per_spline_patch = Sy::sy(&d.line_segments_per_spline_patch, true, ANY);
    e.show_attribute_entry_dialogs = Sy::sy(&d.show_attribute_entry_dialogs, true, ANY);
    e.prompt_for_attribute_on_insert = Sy::sy(&d.prompt_for_attribute_on_insert, true, ANY);
    e.handles_enabled = Sy::sy(&d.handles_enabled, true, ANY);
    e.next_available_handle = Sy::sy(&d.next_available_handle, true, ANY);
    e.mesh_tabulations_in_first_direction = Sy::sy(&d.mesh_tabulations_in_first_direction, true, ANY);
    e.mesh_tabulations_in_second_direction = Sy::sy(&d.mesh_tabulations_in_second_direction, true, ANY);
    e.pedit_smooth_surface_type = Sy::sy(&d.pedit_smooth_surface_type, true, ANY);
    e.pedit_smooth_m_densith = Sy::sy(&d.pedit_smooth_m_densith, true, ANY);
    e.pedit_smooth_n_densith = Sy::sy(&d.pedit_smooth_n_densith, true, ANY);
    e.ucs_definition_name = Sy::sy(&d.ucs_definition_name, true, ANY);
    e.ucs_name = Sy::sy(&d.ucs_name, true, ANY);
    e.ucs_origin = Sy::sy(&d.ucs_origin, true, ANY);
    e.ucs_x_axis = Sy::sy(&d.ucs_x_axis, true, ANY);
    e.ucs_y_axis = Sy::sy(&d.ucs_y_axis, true, ANY);
    e.ortho_ucs_reference = Sy::sy(&d.ortho_ucs_reference, true, ANY);
    e.orthgraphic_view_type = Sy::sy(&d.orthgraphic_view_type, true, ANY);
    e.ucs_origin_top = Sy::sy(&d.ucs_origin_top, true, ANY);
    e.ucs_origin_bottom = Sy::sy(&d.ucs_origin_bottom, true, ANY);
    e.ucs_origin_left = Sy::sy(&d.ucs_origin_left, true, ANY);
    e.ucs_origin_right = Sy::sy(&d.ucs_origin_right, true, ANY);
    e.ucs_origin_front = Sy::sy(&d.ucs_origin_front, true, ANY);
    e.ucs_origin_back = Sy::sy(&d.ucs_origin_back, true, ANY);
    e.paperspace_ucs_definition_name = Sy::sy(&d.paperspace_ucs_definition_name, true, ANY);
    e.paperspace_ucs_name = Sy::sy(&d.paperspace_ucs_name, true, ANY);
    e.paperspace_ucs_origin = Sy::sy(&d.paperspace_ucs_origin, true, ANY);
    e.paperspace_x_axis = Sy::sy(&d.paperspace_x_axis, true, ANY);
    e.paperspace_y_axis = Sy::sy(&d.paperspace_y_axis, true, ANY);
    e.paperspace_ortho_ucs_reference = Sy::sy(&d.paperspace_ortho_ucs_reference, true, ANY);
    e.paperspace_orthographic_view_type = Sy::sy(&d.paperspace_orthographic_view_type, true, ANY);
    e.paperspace_ucs_origin_top = Sy::sy(&d.paperspace_ucs_origin_top, true, ANY);
    e.paperspace_ucs_origin_bottom = Sy::sy(&d.paperspace_ucs_origin_bottom, true, ANY);
    e.paperspace_ucs_origin_left = Sy::sy(&d.paperspace_ucs_origin_left, true, ANY);
    e.paperspace_ucs_origin_right = Sy::sy(&d.paperspace_ucs_origin_right, true, ANY);
    e.paperspace_ucs_origin_front = Sy::sy(&d.paperspace_ucs_origin_front, true, ANY);
    e.paperspace_ucs_origin_back = Sy::sy(&d.paperspace_ucs_origin_back, true, ANY);
    e.user_int1 = Sy::sy(&d.user_int1, true, ANY);
    e.user_int2 = Sy::sy(&d.user_int2, true, ANY);
    e.user_int3 = Sy::sy(&d.user_int3, true, ANY);
    e.user_int4 = Sy::sy(&d.user_int4, true, ANY);
    e.user_int5 = Sy::sy(&d.user_int5, true, ANY);
    e.user_real1 = Sy::sy(&d.user_real1, true, ANY);
    e.user_real2 = Sy::sy(&d.user_real2, true, ANY);
    e.user_real3 = Sy::sy(&d.user_real3, true, ANY);
    e.user_real4 = Sy::sy(&d.user_real4, true, ANY);
    e.user_real5 = Sy::sy(&d.user_real5, true, ANY);
    e.set_ucs_to_wcs_in_d_view_or_v_point = Sy::sy(&d.set_ucs_to_wcs_in_d_view_or_v_point, true, ANY);
    e.edge_shading = Sy::sy(&d.edge_shading, true, ANY);
    e.percent_ambient_to_diffuse = Sy::sy(&d.percent_ambient_to_diffuse, true, ANY);
    e.previous_release_tile_compatability = Sy::sy(&d.previous_release_tile_compatability, true, ANY);
    e.maximum_active_viewports = Sy::sy(&d.maximum_active_viewports, true, ANY);
    e.paperspace_insertion_base = Sy::sy(&d.paperspace_insertion_base, true, ANY);
    e.limit_checking_in_paperspace = Sy::sy(&d.limit_checking_in_paperspace, true, ANY);
    e.paperspace_minimum_drawing_extents = Sy::sy(&d.paperspace_minimum_drawing_extents, true, ANY);
    e.paperspace_maximum_drawing_extents = Sy::sy(&d.paperspace_maximum_drawing_extents, true, ANY);
    e.paperspace_minimum_drawing_limits = Sy::sy(&d.paperspace_minimum_drawing_limits, true, XY);
    e.paperspace_maximum_drawing_limits = Sy::sy(&d.paperspace_maximum_drawing_limits, true, XY);
    e.display_fractions_in_input = Sy::sy(&d.display_fractions_in_input, true, ANY);
    e.retain_x_ref_dependent_visibility_settings = Sy::sy(&d.retain_x_ref_dependent_visibility_settings, true, ANY);
    e.is_polyline_continuous_around_verticies = Sy::sy(&d.is_polyline_continuous_around_verticies, true, ANY);
    e.scale_line_types_in_paperspace = Sy::sy(&d.scale_line_types_in_paperspace, true, ANY);
    e.spacial_index_max_depth = Sy::sy(&d.spacial_index_max_depth, true, ANY);
    e.pick_style = Sy::sy(&d.pick_style, true, ANY);
    e.current_multiline_style = Sy::sy(&d.current_multiline_style, true, ANY);
    e.current_multiline_justification = Sy::sy(&d.current_multiline_justification, true, ANY);
    e.current_multiline_scale = Sy::sy(&d.current_multiline_scale, true, ANY);
    e.save_proxy_graphics = Sy::sy(&d.save_proxy_graphics, true, ANY);
    e.drawing_units = Sy::sy(&d.drawing_units, true, ANY);
    e.new_object_line_weight = Sy::sy(&d.new_object_line_weight, true, ANY);
    e.end_cap_setting = Sy::sy(&d.end_cap_setting, true, ANY);
    e.lineweight_joint_setting = Sy::sy(&d.lineweight_joint_setting, true, ANY);
    e.display_linewieght_in_model_and_layout_tab = Sy::sy(&d.display_linewieght_in_model_and_layout_tab, true, ANY);
    e.default_drawing_units = Sy::sy(&d.default_drawing_units, true, ANY);
    e.hyperlink_base = Sy::sy(&d.hyperlink_base, true, ANY);
    e.stylesheet = Sy::sy(&d.stylesheet, true, ANY);
    e.can_use_in_place_reference_editing = Sy::sy(&d.can_use_in_place_reference_editing, true, ANY);
    e.new_object_plot_style_handle = Sy::sy(&d.new_object_plot_style_handle, true, ANY);
    e.new_object_plot_style = Sy::sy(&d.new_object_plot_style, true, ANY);
    e.uses_color_dependent_plot_style_tables = Sy::sy(&d.uses_color_dependent_plot_style_tables, true, ANY);
    e.fingerprint_guid = Sy::sy(&d.fingerprint_guid, true, ANY);
    e.version_guid = Sy::sy(&d.version_guid, true, ANY);
    e.use_acad2000_symbol_table_naming = Sy::sy(&d.use_acad2000_symbol_table_naming, true, ANY);
    e.viewport_view_scale_factor = Sy::sy(&d.viewport_view_scale_factor, true, ANY);
    e.ole_startup = Sy::sy(&d.ole_startup, true, ANY);
    e.object_sorting_methods_flags = Sy::sy(&d.object_sorting_methods_flags, true, I16);
    e.layer_and_spatial_index_save_mode = Sy::sy(&d.layer_and_spatial_index_save_mode, true, ANY);
    e.hide_text_objects_when_producint_hidden_view = Sy::sy(&d.hide_text_objects_when_producint_hidden_view, true, ANY);
    e.is_x_ref_clipping_boundary_visible = Sy::sy(&d.is_x_ref_clipping_boundary_visible, true, ANY);
    e.halo_gap_percent = Sy::sy(&d.halo_gap_percent, true, INT16);
    e.obscured_line_color = Sy::sy(&d.obscured_line_color, true, ANY);
    e.obscured_line_type_style = Sy::sy(&d.obscured_line_type_style, true, ANY);
    e.display_intersection_polylines = Sy::sy(&d.display_intersection_polylines, true, ANY);
    e.intersection_polyline_color = Sy::sy(&d.intersection_polyline_color, true, ANY);
    e.dimension_object_associativity = Sy::sy(&d.dimension_object_associativity, true, ANY);
    e.project_name = Sy::sy(&d.project_name, true, ANY);
    e.use_camera_display = Sy::sy(&d.use_camera_display, true, ANY);
    e.lens_length = Sy::sy(&d.lens_length, true, ANY);
    e.camera_height = Sy::sy(&d.camera_height, true, ANY);
    e.steps_per_second_in_walk_or_fly_mode = Sy::sy(&d.steps_per_second_in_walk_or_fly_mode, true, ANY);
    e.step_size_in_walk_or_fly_mode = Sy::sy(&d.step_size_in_walk_or_fly_mode, true, ANY);
    e.dwf_3d_precision = Sy::sy(&d.dwf_3d_precision, true, ANY);
    e.last_poly_solid_width = Sy::sy(&d.last_poly_solid_width, true, ANY);
    e.last_poly_solid_height = Sy::sy(&d.last_poly_solid_height, true, ANY);
    e.loft_operation_first_draft_angle = Sy::sy(&d.loft_operation_first_draft_angle, true, ANY);
    e.loft_operation_second_draft_angle = Sy::sy(&d.loft_operation_second_draft_angle, true, ANY);
    e.loft_operation_first_magnitude = Sy::sy(&d.loft_operation_first_magnitude, true, ANY);
    e.loft_operation_second_magnitude = Sy::sy(&d.loft_operation_second_magnitude, true, ANY);
    e.loft_flags = Sy::sy(&d.loft_flags, true, I16);
    e.lofted_object_normal_mode = Sy::sy(&d.lofted_object_normal_mode, true, ANY);
    e.latitude = Sy::sy(&d.latitude, true, ANY);
    e.longitude = Sy::sy(&d.longitude, true, ANY);
    e.angle_between_y_axis_and_north = Sy::sy(&d.angle_between_y_axis_and_north, true, ANY);
    e.time_zone = Sy::sy(&d.time_zone, true, ANY);
    e.use_light_glyph_display = Sy::sy(&d.use_light_glyph_display, true, ANY);
    e.use_tile_mode_light_sync = Sy::sy(&d.use_tile_mode_light_sync, true, ANY);
    e.current_material_handle = Sy::sy(&d.current_material_handle, true, ANY);
    e.new_solids_contain_history = Sy::sy(&d.new_solids_contain_history, true, ANY);
    e.solid_history_mode = Sy::sy(&d.solid_history_mode, true, ANY);
    e.dwf_underlay_frame_mode = Sy::sy(&d.dwf_underlay_frame_mode, true, ANY);
    e.dgn_underlay_frame_mode = Sy::sy(&d.dgn_underlay_frame_mode, true, ANY);
    e.use_real_world_scale = Sy::sy(&d.use_real_world_scale, true, ANY);
    e.interference_object_color = Sy::sy(&d.interference_object_color, true, ANY);
    e.interference_object_visual_style_pointer = Sy::sy(&d.interference_object_visual_style_pointer, true, ANY);
    e.interference_view_port_visual_style_pointer = Sy::sy(&d.interference_view_port_visual_style_pointer, true, ANY);
    e.shadow_mode = Sy::sy(&d.shadow_mode, true, ANY);
    e.shadow_plane_z_offset = Sy::sy(&d.shadow_plane_z_offset, true, ANY);
    e.axis_on = Sy::sy(&d.axis_on, true, ANY);
    e.axis_tick_spacing = Sy::sy(&d.axis_tick_spacing, true, XY);
    e.fast_zoom = Sy::sy(&d.fast_zoom, true, ANY);
    e.grid_on = Sy::sy(&d.grid_on, true, ANY);
    e.grid_spacing = Sy::sy(&d.grid_spacing, true, XY);
    e.snap_rotation_angle = Sy::sy(&d.snap_rotation_angle, true, ANY);
    e.snap_base_point = Sy::sy(&d.snap_base_point, true, XY);
    e.snap_isometric_plane = Sy::sy(&d.snap_isometric_plane, true, ANY);
    e.snap_on = Sy::sy(&d.snap_on, true, ANY);
    e.snap_style = Sy::sy(&d.snap_style, true, ANY);
    e.snap_spacing = Sy::sy(&d.snap_spacing, true, XY);
    e.view_center = Sy::sy(&d.view_center, true, XY);
    e.view_direction = Sy::sy(&d.view_direction, true, ANY);
    e.view_height = Sy::sy(&d.view_height, true, ANY);
    let e0 = e.clone(); let hen = e.handles_enabled;
    if let Some(r) = rt_hdr(c, e, v) {
        if true { c.chk(r.maintenance_version.same(if (14..=20).contains(&v) { &e0.maintenance_version } else { &d.maintenance_version }), "Header.maintenance_version", v); }
        if true { c.chk(r.drawing_code_page.same(if (13..=20).contains(&v) { &e0.drawing_code_page } else { &d.drawing_code_page }), "Header.drawing_code_page", v); }
        if true { c.chk(r.last_saved_by.same(if (16..=20).contains(&v) { &e0.last_saved_by } else { &d.last_saved_by }), "Header.last_saved_by", v); }
        if true { c.chk(r.required_versions.same(if (19..=20).contains(&v) { &e0.required_versions } else { &d.required_versions }), "Header.required_versions", v); }
        if true { c.chk(r.insertion_base.same(if (0..=20).contains(&v) { &e0.insertion_base } else { &d.insertion_base }), "Header.insertion_base", v); }
        if true { c.chk(r.minimum_drawing_extents.same(if (0..=20).contains(&v) { &e0.minimum_drawing_extents } else { &d.minimum_drawing_extents }), "Header.minimum_drawing_extents", v); }
        if true { c.chk(r.maximum_drawing_extents.same(if (0..=20).contains(&v) { &e0.maximum_drawing_extents } else { &d.maximum_drawing_extents }), "Header.maximum_drawing_extents", v); }
        if true { c.chk(r.minimum_drawing_limits.same(if (0..=20).contains(&v) { &e0.minimum_drawing_limits } else { &d.minimum_drawing_limits }), "Header.minimum_drawing_limits", v); }
        if true { c.chk(r.maximum_drawing_limits.same(if (0..=20).contains(&v) { &e0.maximum_drawing_limits } else { &d.maximum_drawing_limits }), "Header.maximum_drawing_limits", v); }
        if true { c.chk(r.draw_orthogonal_lines.same(if (0..=20).contains(&v) { &e0.draw_orthogonal_lines } else { &d.draw_orthogonal_lines }), "Header.draw_orthogonal_lines", v); }
        if true { c.chk(r.use_regen_mode.same(if (0..=20).contains(&v) { &e0.use_regen_mode } else { &d.use_regen_mode }), "Header.use_regen_mode", v); }
        if true { c.chk(r.fill_mode_on.same(if (0..=20).contains(&v) { &e0.fill_mode_on } else { &d.fill_mode_on }), "Header.fill_mode_on", v); }
        if true { c.chk(r.use_quick_text_mode.same(if (0..=20).contains(&v) { &e0.use_quick_text_mode } else { &d.use_quick_text_mode }), "Header.use_quick_text_mode", v); }
        if true { c.chk(r.mirror_text.same(if (0..=20).contains(&v) { &e0.mirror_text } else { &d.mirror_text }), "Header.mirror_text", v); }
        if true { c.chk(r.drag_mode.same(if (0..=14).contains(&v) { &e0.drag_mode } else { &d.drag_mode }), "Header.drag_mode", v); }
        if true { c.chk(r.line_type_scale.same(if (0..=20).contains(&v) { &e0.line_type_scale } else { &d.line_type_scale }), "Header.line_type_scale", v); }
        if true { c.chk(r.object_snap_flags.same(if (0..=14).contains(&v) { &e0.object_snap_flags } else { &d.object_snap_flags }), "Header.object_snap_flags", v); }
        if true { c.chk(r.attribute_visibility.same(if (0..=20).contains(&v) { &e0.attribute_visibility } else { &d.attribute_visibility }), "Header.attribute_visibility", v); }
        if true { c.chk(r.default_text_height.same(if (0..=20).contains(&v) { &e0.default_text_height } else { &d.default_text_height }), "Header.default_text_height", v); }
        if true { c.chk(r.trace_width.same(if (0..=20).contains(&v) { &e0.trace_width } else { &d.trace_width }), "Header.trace_width", v); }
        if true { c.chk(r.text_style.same(if (0..=20).contains(&v) { &e0.text_style } else { &d.text_style }), "Header.text_style", v); }
        if true { c.chk(r.current_layer.same(if (0..=20).contains(&v) { &e0.current_layer } else { &d.current_layer }), "Header.current_layer", v); }
        if true { c.chk(r.current_entity_line_type.same(if (0..=20).contains(&v) { &e0.current_entity_line_type } else { &d.current_entity_line_type }), "Header.current_entity_line_type", v); }
        if true { c.chk(r.current_entity_color.same(if (0..=20).contains(&v) { &e0.current_entity_color } else { &d.current_entity_color }), "Header.current_entity_color", v); }
        if true { c.chk(r.current_entity_line_type_scale.same(if (13..=20).contains(&v) { &e0.current_entity_line_type_scale } else { &d.current_entity_line_type_scale }), "Header.current_entity_line_type_scale", v); }
        if true { c.chk(r.retain_deleted_objects.same(if (13..=14).contains(&v) { &e0.retain_deleted_objects } else { &d.retain_deleted_objects }), "Header.retain_deleted_objects", v); }
        if true { c.chk(r.display_silhouette_curves_in_wireframe_mode.same(if (13..=20).contains(&v) { &e0.display_silhouette_curves_in_wireframe_mode } else { &d.display_silhouette_curves_in_wireframe_mode }), "Header.display_silhouette_curves_in_wireframe_mode", v); }
        if true { c.chk(r.solid_visual_style_pointer.same(if (17..=20).contains(&v) { &e0.solid_visual_style_pointer } else { &d.solid_visual_style_pointer }), "Header.solid_visual_style_pointer", v); }
        if true { c.chk(r.dimensioning_scale_factor.same(if (0..=20).contains(&v) { &e0.dimensioning_scale_factor } else { &d.dimensioning_scale_factor }), "Header.dimensioning_scale_factor", v); }
        if true { c.chk(r.dimensioning_arrow_size.same(if (0..=20).contains(&v) { &e0.dimensioning_arrow_size } else { &d.dimensioning_arrow_size }), "Header.dimensioning_arrow_size", v); }
        if true { c.chk(r.dimension_extension_line_offset.same(if (0..=20).contains(&v) { &e0.dimension_extension_line_offset } else { &d.dimension_extension_line_offset }), "Header.dimension_extension_line_offset", v); }
        if true { c.chk(r.dimension_line_increment.same(if (0..=20).contains(&v) { &e0.dimension_line_increment } else { &d.dimension_line_increment }), "Header.dimension_line_increment", v); }
        if true { c.chk(r.dimension_distance_rounding_value.same(if (0..=20).contains(&v) { &e0.dimension_distance_rounding_value } else { &d.dimension_distance_rounding_value }), "Header.dimension_distance_rounding_value", v); }
        if true { c.chk(r.dimension_line_extension.same(if (0..=20).contains(&v) { &e0.dimension_line_extension } else { &d.dimension_line_extension }), "Header.dimension_line_extension", v); }
        if true { c.chk(r.dimension_extension_line_extension.same(if (0..=20).contains(&v) { &e0.dimension_extension_line_extension } else { &d.dimension_extension_line_extension }), "Header.dimension_extension_line_extension", v); }
        if true { c.chk(r.dimension_plus_tolerance.same(if (0..=20).contains(&v) { &e0.dimension_plus_tolerance } else { &d.dimension_plus_tolerance }), "Header.dimension_plus_tolerance", v); }
        if true { c.chk(r.dimension_minus_tolerance.same(if (0..=20).contains(&v) { &e0.dimension_minus_tolerance } else { &d.dimension_minus_tolerance }), "Header.dimension_minus_tolerance", v); }
        if true { c.chk(r.dimensioning_text_height.same(if (0..=20).contains(&v) { &e0.dimensioning_text_height } else { &d.dimensioning_text_height }), "Header.dimensioning_text_height", v); }
        if true { c.chk(r.center_mark_size.same(if (0..=20).contains(&v) { &e0.center_mark_size } else { &d.center_mark_size }), "Header.center_mark_size", v); }
        if true { c.chk(r.dimensioning_tick_size.same(if (0..=20).contains(&v) { &e0.dimensioning_tick_size } else { &d.dimensioning_tick_size }), "Header.dimensioning_tick_size", v); }
        if true { c.chk(r.generate_dimension_tolerances.same(if (0..=20).contains(&v) { &e0.generate_dimension_tolerances } else { &d.generate_dimension_tolerances }), "Header.generate_dimension_tolerances", v); }
        if true { c.chk(r.generate_dimension_limits.same(if (0..=20).contains(&v) { &e0.generate_dimension_limits } else { &d.generate_dimension_limits }), "Header.generate_dimension_limits", v); }
        if true { c.chk(r.dimension_text_inside_horizontal.same(if (0..=20).contains(&v) { &e0.dimension_text_inside_horizontal } else { &d.dimension_text_inside_horizontal }), "Header.dimension_text_inside_horizontal", v); }
        if true { c.chk(r.dimension_text_outside_horizontal.same(if (0..=20).contains(&v) { &e0.dimension_text_outside_horizontal } else { &d.dimension_text_outside_horizontal }), "Header.dimension_text_outside_horizontal", v); }
        if true { c.chk(r.suppress_first_dimension_extension_line.same(if (12..=20).contains(&v) || (13..=20).contains(&v) { &e0.suppress_first_dimension_extension_line } else { &d.suppress_first_dimension_extension_line }), "Header.suppress_first_dimension_extension_line", v); }
        if true { c.chk(r.suppress_second_dimension_extension_line.same(if (12..=20).contains(&v) || (13..=20).contains(&v) { &e0.suppress_second_dimension_extension_line } else { &d.suppress_second_dimension_extension_line }), "Header.suppress_second_dimension_extension_line", v); }
        if true { c.chk(r.text_above_dimension_line.same(if (0..=20).contains(&v) { &e0.text_above_dimension_line } else { &d.text_above_dimension_line }), "Header.text_above_dimension_line", v); }
        if true { c.chk(r.dimension_unit_zero_suppression.same(if (0..=20).contains(&v) { &e0.dimension_unit_zero_suppression } else { &d.dimension_unit_zero_suppression }), "Header.dimension_unit_zero_suppression", v); }
        if true { c.chk(r.arrow_block_name.same(if (0..=20).contains(&v) { &e0.arrow_block_name } else { &d.arrow_block_name }), "Header.arrow_block_name", v); }
        if true { c.chk(r.create_associative_dimensioning.same(if (0..=20).contains(&v) { &e0.create_associative_dimensioning } else { &d.create_associative_dimensioning }), "Header.create_associative_dimensioning", v); }
        if true { c.chk(r.recompute_dimensions_while_dragging.same(if (0..=20).contains(&v) { &e0.recompute_dimensions_while_dragging } else { &d.recompute_dimensions_while_dragging }), "Header.recompute_dimensions_while_dragging", v); }
        if true { c.chk(r.dimensioning_suffix.same(if (0..=20).contains(&v) { &e0.dimensioning_suffix } else { &d.dimensioning_suffix }), "Header.dimensioning_suffix", v); }
        if true { c.chk(r.alternate_dimensioning_suffix.same(if (0..=20).contains(&v) { &e0.alternate_dimensioning_suffix } else { &d.alternate_dimensioning_suffix }), "Header.alternate_dimensioning_suffix", v); }
        if true { c.chk(r.use_alternate_dimensioning.same(if (0..=20).contains(&v) { &e0.use_alternate_dimensioning } else { &d.use_alternate_dimensioning }), "Header.use_alternate_dimensioning", v); }
        if true { c.chk(r.alternate_dimensioning_decimal_places.same(if (0..=20).contains(&v) { &e0.alternate_dimensioning_decimal_places } else { &d.alternate_dimensioning_decimal_places }), "Header.alternate_dimensioning_decimal_places", v); }
        if true { c.chk(r.alternate_dimensioning_scale_factor.same(if (0..=20).contains(&v) { &e0.alternate_dimensioning_scale_factor } else { &d.alternate_dimensioning_scale_factor }), "Header.alternate_dimensioning_scale_factor", v); }
        if true { c.chk(r.dimension_linear_measurements_scale_factor.same(if (0..=20).contains(&v) { &e0.dimension_linear_measurements_scale_factor } else { &d.dimension_linear_measurements_scale_factor }), "Header.dimension_linear_measurements_scale_factor", v); }
        if true { c.chk(r.force_dimension_line_extensions_outside_if_text_is.same(if (0..=20).contains(&v) { &e0.force_dimension_line_extensions_outside_if_text_is } else { &d.force_dimension_line_extensions_outside_if_text_is }), "Header.force_dimension_line_extensions_outside_if_text_is", v); }
        if true { c.chk(r.dimension_vertical_text_position.same(if (0..=20).contains(&v) { &e0.dimension_vertical_text_position } else { &d.dimension_vertical_text_position }), "Header.dimension_vertical_text_position", v); }
        if true { c.chk(r.force_dimension_text_inside_extensions.same(if (0..=20).contains(&v) { &e0.force_dimension_text_inside_extensions } else { &d.force_dimension_text_inside_extensions }), "Header.force_dimension_text_inside_extensions", v); }
        if true { c.chk(r.suppress_outside_extension_dimension_lines.same(if (0..=20).contains(&v) { &e0.suppress_outside_extension_dimension_lines } else { &d.suppress_outside_extension_dimension_lines }), "Header.suppress_outside_extension_dimension_lines", v); }
        if true { c.chk(r.use_separate_arrow_blocks_for_dimensions.same(if (0..=20).contains(&v) { &e0.use_separate_arrow_blocks_for_dimensions } else { &d.use_separate_arrow_blocks_for_dimensions }), "Header.use_separate_arrow_blocks_for_dimensions", v); }
        if true { c.chk(r.first_arrow_block_name.same(if (0..=20).contains(&v) { &e0.first_arrow_block_name } else { &d.first_arrow_block_name }), "Header.first_arrow_block_name", v); }
        if true { c.chk(r.second_arrow_block_name.same(if (0..=20).contains(&v) { &e0.second_arrow_block_name } else { &d.second_arrow_block_name }), "Header.second_arrow_block_name", v); }
        if true { c.chk(r.dimension_style_name.same(if (0..=20).contains(&v) { &e0.dimension_style_name } else { &d.dimension_style_name }), "Header.dimension_style_name", v); }
        if true { c.chk(r.dimension_line_color.same(if (11..=20).contains(&v) { &e0.dimension_line_color } else { &d.dimension_line_color }), "Header.dimension_line_color", v); }
        if true { c.chk(r.dimension_extension_line_color.same(if (11..=20).contains(&v) { &e0.dimension_extension_line_color } else { &d.dimension_extension_line_color }), "Header.dimension_extension_line_color", v); }
        if true { c.chk(r.dimension_text_color.same(if (11..=20).contains(&v) { &e0.dimension_text_color } else { &d.dimension_text_color }), "Header.dimension_text_color", v); }
        if true { c.chk(r.dimension_tolerance_display_scale_factor.same(if (12..=20).contains(&v) { &e0.dimension_tolerance_display_scale_factor } else { &d.dimension_tolerance_display_scale_factor }), "Header.dimension_tolerance_display_scale_factor", v); }
        if true { c.chk(r.dimension_line_gap.same(if (11..=20).contains(&v) { &e0.dimension_line_gap } else { &d.dimension_line_gap }), "Header.dimension_line_gap", v); }
        if true { c.chk(r.dimension_text_justification.same(if (13..=20).contains(&v) { &e0.dimension_text_justification } else { &d.dimension_text_justification }), "Header.dimension_text_justification", v); }
        if true { c.chk(r.dimension_tolerance_vertical_justification.same(if (13..=20).contains(&v) { &e0.dimension_tolerance_vertical_justification } else { &d.dimension_tolerance_vertical_justification }), "Header.dimension_tolerance_vertical_justification", v); }
        if true { c.chk(r.dimension_tolerance_zero_suppression.same(if (13..=20).contains(&v) { &e0.dimension_tolerance_zero_suppression } else { &d.dimension_tolerance_zero_suppression }), "Header.dimension_tolerance_zero_suppression", v); }
        if true { c.chk(r.alternate_dimensioning_zero_supression.same(if (13..=20).contains(&v) { &e0.alternate_dimensioning_zero_supression } else { &d.alternate_dimensioning_zero_supression }), "Header.alternate_dimensioning_zero_supression", v); }
        if true { c.chk(r.alternate_dimensioning_tolerance_zero_supression.same(if (13..=20).contains(&v) { &e0.alternate_dimensioning_tolerance_zero_supression } else { &d.alternate_dimensioning_tolerance_zero_supression }), "Header.alternate_dimensioning_tolerance_zero_supression", v); }
        if true { c.chk(r.dimension_text_and_arrow_placement.same(if (13..=14).contains(&v) || (15..=20).contains(&v) { &e0.dimension_text_and_arrow_placement } else { &d.dimension_text_and_arrow_placement }), "Header.dimension_text_and_arrow_placement", v); }
        if true { c.chk(r.dimension_cursor_controls_text_position.same(if (13..=20).contains(&v) { &e0.dimension_cursor_controls_text_position } else { &d.dimension_cursor_controls_text_position }), "Header.dimension_cursor_controls_text_position", v); }
        if true { c.chk(r.dimension_unit_format.same(if (13..=14).contains(&v) { &e0.dimension_unit_format } else { &d.dimension_unit_format }), "Header.dimension_unit_format", v); }
        if true { c.chk(r.dimension_unit_tolerance_decimal_places.same(if (13..=20).contains(&v) { &e0.dimension_unit_tolerance_decimal_places } else { &d.dimension_unit_tolerance_decimal_places }), "Header.dimension_unit_tolerance_decimal_places", v); }
        if true { c.chk(r.dimension_tolerance_decimal_places.same(if (13..=20).contains(&v) { &e0.dimension_tolerance_decimal_places } else { &d.dimension_tolerance_decimal_places }), "Header.dimension_tolerance_decimal_places", v); }
        if true { c.chk(r.alternate_dimensioning_units.same(if (13..=20).contains(&v) { &e0.alternate_dimensioning_units } else { &d.alternate_dimensioning_units }), "Header.alternate_dimensioning_units", v); }
        if true { c.chk(r.alternate_dimensioning_tolerance_decimal_places.same(if (13..=20).contains(&v) { &e0.alternate_dimensioning_tolerance_decimal_places } else { &d.alternate_dimensioning_tolerance_decimal_places }), "Header.alternate_dimensioning_tolerance_decimal_places", v); }
        if true { c.chk(r.dimension_text_style.same(if (13..=20).contains(&v) { &e0.dimension_text_style } else { &d.dimension_text_style }), "Header.dimension_text_style", v); }
        if true { c.chk(r.dimensioning_angle_format.same(if (13..=20).contains(&v) { &e0.dimensioning_angle_format } else { &d.dimensioning_angle_format }), "Header.dimensioning_angle_format", v); }
        if true { c.chk(r.angular_dimension_precision.same(if (15..=20).contains(&v) { &e0.angular_dimension_precision } else { &d.angular_dimension_precision }), "Header.angular_dimension_precision", v); }
        if true { c.chk(r.alternate_dimensioning_unit_rounding.same(if (15..=20).contains(&v) { &e0.alternate_dimensioning_unit_rounding } else { &d.alternate_dimensioning_unit_rounding }), "Header.alternate_dimensioning_unit_rounding", v); }
        if true { c.chk(r.dimension_angle_zero_suppression.same(if (15..=20).contains(&v) { &e0.dimension_angle_zero_suppression } else { &d.dimension_angle_zero_suppression }), "Header.dimension_angle_zero_suppression", v); }
        if true { c.chk(r.dimension_decimal_separator_char.same(if (15..=20).contains(&v) { &e0.dimension_decimal_separator_char } else { &d.dimension_decimal_separator_char }), "Header.dimension_decimal_separator_char", v); }
        if true { c.chk(r.dimension_text_height_scale_factor.same(if (15..=20).contains(&v) { &e0.dimension_text_height_scale_factor } else { &d.dimension_text_height_scale_factor }), "Header.dimension_text_height_scale_factor", v); }
        if true { c.chk(r.dimension_leader_block_name.same(if (15..=20).contains(&v) { &e0.dimension_leader_block_name } else { &d.dimension_leader_block_name }), "Header.dimension_leader_block_name", v); }
        if true { c.chk(r.dimension_non_angular_units.same(if (15..=20).contains(&v) { &e0.dimension_non_angular_units } else { &d.dimension_non_angular_units }), "Header.dimension_non_angular_units", v); }
        if true { c.chk(r.dimension_line_weight.same(if (15..=20).contains(&v) { &e0.dimension_line_weight } else { &d.dimension_line_weight }), "Header.dimension_line_weight", v); }
        if true { c.chk(r.dimension_extension_line_weight.same(if (15..=20).contains(&v) { &e0.dimension_extension_line_weight } else { &d.dimension_extension_line_weight }), "Header.dimension_extension_line_weight", v); }
        if true { c.chk(r.dimension_text_movement_rule.same(if (15..=20).contains(&v) { &e0.dimension_text_movement_rule } else { &d.dimension_text_movement_rule }), "Header.dimension_text_movement_rule", v); }
        if true { c.chk(r.dimension_line_fixed_length.same(if (17..=20).contains(&v) { &e0.dimension_line_fixed_length } else { &d.dimension_line_fixed_length }), "Header.dimension_line_fixed_length", v); }
        if true { c.chk(r.dimension_line_fixed_length_on.same(if (17..=20).contains(&v) { &e0.dimension_line_fixed_length_on } else { &d.dimension_line_fixed_length_on }), "Header.dimension_line_fixed_length_on", v); }
        if true { c.chk(r.dimension_transverse_segment_angle_in_jogged_radius.same(if (17..=20).contains(&v) { &e0.dimension_transverse_segment_angle_in_jogged_radius } else { &d.dimension_transverse_segment_angle_in_jogged_radius }), "Header.dimension_transverse_segment_angle_in_jogged_radius", v); }
        if true { c.chk(r.dimension_text_background_color_mode.same(if (17..=20).contains(&v) { &e0.dimension_text_background_color_mode } else { &d.dimension_text_background_color_mode }), "Header.dimension_text_background_color_mode", v); }
        if true { c.chk(r.dxf_dimension_text_background_custom_color.same(if (17..=20).contains(&v) { &e0.dxf_dimension_text_background_custom_color } else { &d.dxf_dimension_text_background_custom_color }), "Header.dxf_dimension_text_background_custom_color", v); }
        if true { c.chk(r.dimension_arc_symbol_display_mode.same(if (17..=20).contains(&v) { &e0.dimension_arc_symbol_display_mode } else { &d.dimension_arc_symbol_display_mode }), "Header.dimension_arc_symbol_display_mode", v); }
        if true { c.chk(r.dimension_line_type.same(if (17..=20).contains(&v) { &e0.dimension_line_type } else { &d.dimension_line_type }), "Header.dimension_line_type", v); }
        if true { c.chk(r.dimension_first_extension_line_type.same(if (17..=20).contains(&v) { &e0.dimension_first_extension_line_type } else { &d.dimension_first_extension_line_type }), "Header.dimension_first_extension_line_type", v); }
        if true { c.chk(r.dimension_second_extension_line_type.same(if (17..=20).contains(&v) { &e0.dimension_second_extension_line_type } else { &d.dimension_second_extension_line_type }), "Header.dimension_second_extension_line_type", v); }
        if true { c.chk(r.dimension_text_direction.same(if (18..=20).contains(&v) { &e0.dimension_text_direction } else { &d.dimension_text_direction }), "Header.dimension_text_direction", v); }
        if true { c.chk(r.unit_format.same(if (0..=20).contains(&v) { &e0.unit_format } else { &d.unit_format }), "Header.unit_format", v); }
        if true { c.chk(r.unit_precision.same(if (0..=20).contains(&v) { &e0.unit_precision } else { &d.unit_precision }), "Header.unit_precision", v); }
        if true { c.chk(r.sketch_record_increment.same(if (0..=20).contains(&v) { &e0.sketch_record_increment } else { &d.sketch_record_increment }), "Header.sketch_record_increment", v); }
        if true { c.chk(r.fillet_radius.same(if (0..=20).contains(&v) { &e0.fillet_radius } else { &d.fillet_radius }), "Header.fillet_radius", v); }
        if true { c.chk(r.angle_unit_format.same(if (0..=20).contains(&v) { &e0.angle_unit_format } else { &d.angle_unit_format }), "Header.angle_unit_format", v); }
        if true { c.chk(r.angle_unit_precision.same(if (0..=20).contains(&v) { &e0.angle_unit_precision } else { &d.angle_unit_precision }), "Header.angle_unit_precision", v); }
        if true { c.chk(r.file_name.same(if (0..=20).contains(&v) { &e0.file_name } else { &d.file_name }), "Header.file_name", v); }
        if true { c.chk(r.elevation.same(if (0..=20).contains(&v) { &e0.elevation } else { &d.elevation }), "Header.elevation", v); }
        if true { c.chk(r.paperspace_elevation.same(if (11..=20).contains(&v) { &e0.paperspace_elevation } else { &d.paperspace_elevation }), "Header.paperspace_elevation", v); }
        if true { c.chk(r.thickness.same(if (0..=20).contains(&v) { &e0.thickness } else { &d.thickness }), "Header.thickness", v); }
        if true { c.chk(r.use_limits_checking.same(if (0..=20).contains(&v) { &e0.use_limits_checking } else { &d.use_limits_checking }), "Header.use_limits_checking", v); }
        if true { c.chk(r.blip_mode.same(if (0..=14).contains(&v) { &e0.blip_mode } else { &d.blip_mode }), "Header.blip_mode", v); }
        if true { c.chk(r.first_chamfer_distance.same(if (0..=20).contains(&v) { &e0.first_chamfer_distance } else { &d.first_chamfer_distance }), "Header.first_chamfer_distance", v); }
        if true { c.chk(r.second_chamfer_distance.same(if (0..=20).contains(&v) { &e0.second_chamfer_distance } else { &d.second_chamfer_distance }), "Header.second_chamfer_distance", v); }
        if true { c.chk(r.chamfer_length.same(if (14..=20).contains(&v) { &e0.chamfer_length } else { &d.chamfer_length }), "Header.chamfer_length", v); }
        if true { c.chk(r.chamfer_angle.same(if (14..=20).contains(&v) { &e0.chamfer_angle } else { &d.chamfer_angle }), "Header.chamfer_angle", v); }
        if true { c.chk(r.polyline_sketch_mode.same(if (0..=20).contains(&v) { &e0.polyline_sketch_mode } else { &d.polyline_sketch_mode }), "Header.polyline_sketch_mode", v); }
        if true { c.chk(r.user_timer_on.same(if (0..=20).contains(&v) { &e0.user_timer_on } else { &d.user_timer_on }), "Header.user_timer_on", v); }
        if true { c.chk(r.angle_zero_direction.same(if (0..=20).contains(&v) { &e0.angle_zero_direction } else { &d.angle_zero_direction }), "Header.angle_zero_direction", v); }
        if true { c.chk(r.angle_direction.same(if (0..=20).contains(&v) { &e0.angle_direction } else { &d.angle_direction }), "Header.angle_direction", v); }
        if true { c.chk(r.point_display_mode.same(if (0..=20).contains(&v) { &e0.point_display_mode } else { &d.point_display_mode }), "Header.point_display_mode", v); }
        if true { c.chk(r.point_display_size.same(if (0..=20).contains(&v) { &e0.point_display_size } else { &d.point_display_size }), "Header.point_display_size", v); }
        if true { c.chk(r.default_polyline_width.same(if (0..=20).contains(&v) { &e0.default_polyline_width } else { &d.default_polyline_width }), "Header.default_polyline_width", v); }
        if true { c.chk(r.coordinate_display.same(if (0..=14).contains(&v) { &e0.coordinate_display } else { &d.coordinate_display }), "Header.coordinate_display", v); }
        if true { c.chk(r.display_spline_polygon_control.same(if (0..=19).contains(&v) { &e0.display_spline_polygon_control } else { &d.display_spline_polygon_control }), "Header.display_spline_polygon_control", v); }
        if true { c.chk(r.pedit_spline_curve_type.same(if (0..=20).contains(&v) { &e0.pedit_spline_curve_type } else { &d.pedit_spline_curve_type }), "Header.pedit_spline_curve_type", v); }
        if true { c.chk(r.line_segments_per_spline_patch.same(if (0..=20).contains(&v) { &e0.line_segments_per_spline_patch } else { &d.line_segments_per_spline_patch }), "Header.line_segments_per_spline_patch", v); }
        if true { c.chk(r.show_attribute_entry_dialogs.same(if (0..=14).contains(&v) { &e0.show_attribute_entry_dialogs } else { &d.show_attribute_entry_dialogs }), "Header.show_attribute_entry_dialogs", v); }
        if true { c.chk(r.prompt_for_attribute_on_insert.same(if (0..=14).contains(&v) { &e0.prompt_for_attribute_on_insert } else { &d.prompt_for_attribute_on_insert }), "Header.prompt_for_attribute_on_insert", v); }
        if true { c.chk(r.handles_enabled.same(if (0..=12).contains(&v) { &e0.handles_enabled } else { &d.handles_enabled }), "Header.handles_enabled", v); }
        if v >= 13 || hen { c.chk(r.next_available_handle.same(if (0..=20).contains(&v) { &e0.next_available_handle } else { &d.next_available_handle }), "Header.next_available_handle", v); }
        if true { c.chk(r.mesh_tabulations_in_first_direction.same(if (0..=20).contains(&v) { &e0.mesh_tabulations_in_first_direction } else { &d.mesh_tabulations_in_first_direction }), "Header.mesh_tabulations_in_first_direction", v); }
        if true { c.chk(r.mesh_tabulations_in_second_direction.same(if (0..=20).contains(&v) { &e0.mesh_tabulations_in_second_direction } else { &d.mesh_tabulations_in_second_direction }), "Header.mesh_tabulations_in_second_direction", v); }
        if true { c.chk(r.pedit_smooth_surface_type.same(if (0..=20).contains(&v) { &e0.pedit_smooth_surface_type } else { &d.pedit_smooth_surface_type }), "Header.pedit_smooth_surface_type", v); }
        if true { c.chk(r.pedit_smooth_m_densith.same(if (0..=20).contains(&v) { &e0.pedit_smooth_m_densith } else { &d.pedit_smooth_m_densith }), "Header.pedit_smooth_m_densith", v); }
        if true { c.chk(r.pedit_smooth_n_densith.same(if (0..=20).contains(&v) { &e0.pedit_smooth_n_densith } else { &d.pedit_smooth_n_densith }), "Header.pedit_smooth_n_densith", v); }
        if true { c.chk(r.ucs_definition_name.same(if (15..=20).contains(&v) { &e0.ucs_definition_name } else { &d.ucs_definition_name }), "Header.ucs_definition_name", v); }
        if true { c.chk(r.ucs_name.same(if (0..=20).contains(&v) { &e0.ucs_name } else { &d.ucs_name }), "Header.ucs_name", v); }
        if true { c.chk(r.ucs_origin.same(if (0..=20).contains(&v) { &e0.ucs_origin } else { &d.ucs_origin }), "Header.ucs_origin", v); }
        if true { c.chk(r.ucs_x_axis.same(if (0..=20).contains(&v) { &e0.ucs_x_axis } else { &d.ucs_x_axis }), "Header.ucs_x_axis", v); }
        if true { c.chk(r.ucs_y_axis.same(if (0..=20).contains(&v) { &e0.ucs_y_axis } else { &d.ucs_y_axis }), "Header.ucs_y_axis", v); }
        if true { c.chk(r.ortho_ucs_reference.same(if (15..=20).contains(&v) { &e0.ortho_ucs_reference } else { &d.ortho_ucs_reference }), "Header.ortho_ucs_reference", v); }
        if true { c.chk(r.orthgraphic_view_type.same(if (15..=20).contains(&v) { &e0.orthgraphic_view_type } else { &d.orthgraphic_view_type }), "Header.orthgraphic_view_type", v); }
        if true { c.chk(r.ucs_origin_top.same(if (15..=20).contains(&v) { &e0.ucs_origin_top } else { &d.ucs_origin_top }), "Header.ucs_origin_top", v); }
        if true { c.chk(r.ucs_origin_bottom.same(if (15..=20).contains(&v) { &e0.ucs_origin_bottom } else { &d.ucs_origin_bottom }), "Header.ucs_origin_bottom", v); }
        if true { c.chk(r.ucs_origin_left.same(if (15..=20).contains(&v) { &e0.ucs_origin_left } else { &d.ucs_origin_left }), "Header.ucs_origin_left", v); }
        if true { c.chk(r.ucs_origin_right.same(if (15..=20).contains(&v) { &e0.ucs_origin_right } else { &d.ucs_origin_right }), "Header.ucs_origin_right", v); }
        if true { c.chk(r.ucs_origin_front.same(if (15..=20).contains(&v) { &e0.ucs_origin_front } else { &d.ucs_origin_front }), "Header.ucs_origin_front", v); }
        if true { c.chk(r.ucs_origin_back.same(if (15..=20).contains(&v) { &e0.ucs_origin_back } else { &d.ucs_origin_back }), "Header.ucs_origin_back", v); }
        if true { c.chk(r.paperspace_ucs_definition_name.same(if (15..=20).contains(&v) { &e0.paperspace_ucs_definition_name } else { &d.paperspace_ucs_definition_name }), "Header.paperspace_ucs_definition_name", v); }
        if true { c.chk(r.paperspace_ucs_name.same(if (11..=20).contains(&v) { &e0.paperspace_ucs_name } else { &d.paperspace_ucs_name }), "Header.paperspace_ucs_name", v); }
        if true { c.chk(r.paperspace_ucs_origin.same(if (11..=20).contains(&v) { &e0.paperspace_ucs_origin } else { &d.paperspace_ucs_origin }), "Header.paperspace_ucs_origin", v); }
        if true { c.chk(r.paperspace_x_axis.same(if (11..=20).contains(&v) { &e0.paperspace_x_axis } else { &d.paperspace_x_axis }), "Header.paperspace_x_axis", v); }
        if true { c.chk(r.paperspace_y_axis.same(if (11..=20).contains(&v) { &e0.paperspace_y_axis } else { &d.paperspace_y_axis }), "Header.paperspace_y_axis", v); }
        if true { c.chk(r.paperspace_ortho_ucs_reference.same(if (15..=20).contains(&v) { &e0.paperspace_ortho_ucs_reference } else { &d.paperspace_ortho_ucs_reference }), "Header.paperspace_ortho_ucs_reference", v); }
        if true { c.chk(r.paperspace_orthographic_view_type.same(if (15..=20).contains(&v) { &e0.paperspace_orthographic_view_type } else { &d.paperspace_orthographic_view_type }), "Header.paperspace_orthographic_view_type", v); }
        if true { c.chk(r.paperspace_ucs_origin_top.same(if (15..=20).contains(&v) { &e0.paperspace_ucs_origin_top } else { &d.paperspace_ucs_origin_top }), "Header.paperspace_ucs_origin_top", v); }
        if true { c.chk(r.paperspace_ucs_origin_bottom.same(if (15..=20).contains(&v) { &e0.paperspace_ucs_origin_bottom } else { &d.paperspace_ucs_origin_bottom }), "Header.paperspace_ucs_origin_bottom", v); }
        if true { c.chk(r.paperspace_ucs_origin_left.same(if (15..=20).contains(&v) { &e0.paperspace_ucs_origin_left } else { &d.paperspace_ucs_origin_left }), "Header.paperspace_ucs_origin_left", v); }
        if true { c.chk(r.paperspace_ucs_origin_right.same(if (15..=20).contains(&v) { &e0.paperspace_ucs_origin_right } else { &d.paperspace_ucs_origin_right }), "Header.paperspace_ucs_origin_right", v); }
        if true { c.chk(r.paperspace_ucs_origin_front.same(if (15..=20).contains(&v) { &e0.paperspace_ucs_origin_front } else { &d.paperspace_ucs_origin_front }), "Header.paperspace_ucs_origin_front", v); }
        if true { c.chk(r.paperspace_ucs_origin_back.same(if (15..=20).contains(&v) { &e0.paperspace_ucs_origin_back } else { &d.paperspace_ucs_origin_back }), "Header.paperspace_ucs_origin_back", v); }
        if true { c.chk(r.user_int1.same(if (0..=20).contains(&v) { &e0.user_int1 } else { &d.user_int1 }), "Header.user_int1", v); }
        if true { c.chk(r.user_int2.same(if (0..=20).contains(&v) { &e0.user_int2 } else { &d.user_int2 }), "Header.user_int2", v); }
        if true { c.chk(r.user_int3.same(if (0..=20).contains(&v) { &e0.user_int3 } else { &d.user_int3 }), "Header.user_int3", v); }
        if true { c.chk(r.user_int4.same(if (0..=20).contains(&v) { &e0.user_int4 } else { &d.user_int4 }), "Header.user_int4", v); }
        if true { c.chk(r.user_int5.same(if (0..=20).contains(&v) { &e0.user_int5 } else { &d.user_int5 }), "Header.user_int5", v); }
        if true { c.chk(r.user_real1.same(if (0..=20).contains(&v) { &e0.user_real1 } else { &d.user_real1 }), "Header.user_real1", v); }
        if true { c.chk(r.user_real2.same(if (0..=20).contains(&v) { &e0.user_real2 } else { &d.user_real2 }), "Header.user_real2", v); }
        if true { c.chk(r.user_real3.same(if (0..=20).contains(&v) { &e0.user_real3 } else { &d.user_real3 }), "Header.user_real3", v); }
        if true { c.chk(r.user_real4.same(if (0..=20).contains(&v) { &e0.user_real4 } else { &d.user_real4 }), "Header.user_real4", v); }
        if true { c.chk(r.user_real5.same(if (0..=20).contains(&v) { &e0.user_real5 } else { &d.user_real5 }), "Header.user_real5", v); }
        if true { c.chk(r.set_ucs_to_wcs_in_d_view_or_v_point.same(if (0..=20).contains(&v) { &e0.set_ucs_to_wcs_in_d_view_or_v_point } else { &d.set_ucs_to_wcs_in_d_view_or_v_point }), "Header.set_ucs_to_wcs_in_d_view_or_v_point", v); }
        if true { c.chk(r.edge_shading.same(if (11..=20).contains(&v) { &e0.edge_shading } else { &d.edge_shading }), "Header.edge_shading", v); }
        if true { c.chk(r.percent_ambient_to_diffuse.same(if (11..=20).contains(&v) { &e0.percent_ambient_to_diffuse } else { &d.percent_ambient_to_diffuse }), "Header.percent_ambient_to_diffuse", v); }
        if true { c.chk(r.previous_release_tile_compatability.same(if (11..=20).contains(&v) { &e0.previous_release_tile_compatability } else { &d.previous_release_tile_compatability }), "Header.previous_release_tile_compatability", v); }
        if true { c.chk(r.maximum_active_viewports.same(if (11..=20).contains(&v) { &e0.maximum_active_viewports } else { &d.maximum_active_viewports }), "Header.maximum_active_viewports", v); }
        if true { c.chk(r.paperspace_insertion_base.same(if (14..=20).contains(&v) { &e0.paperspace_insertion_base } else { &d.paperspace_insertion_base }), "Header.paperspace_insertion_base", v); }
        if true { c.chk(r.limit_checking_in_paperspace.same(if (11..=20).contains(&v) { &e0.limit_checking_in_paperspace } else { &d.limit_checking_in_paperspace }), "Header.limit_checking_in_paperspace", v); }
        if true { c.chk(r.paperspace_minimum_drawing_extents.same(if (11..=20).contains(&v) { &e0.paperspace_minimum_drawing_extents } else { &d.paperspace_minimum_drawing_extents }), "Header.paperspace_minimum_drawing_extents", v); }
        if true { c.chk(r.paperspace_maximum_drawing_extents.same(if (11..=20).contains(&v) { &e0.paperspace_maximum_drawing_extents } else { &d.paperspace_maximum_drawing_extents }), "Header.paperspace_maximum_drawing_extents", v); }
        if true { c.chk(r.paperspace_minimum_drawing_limits.same(if (11..=20).contains(&v) { &e0.paperspace_minimum_drawing_limits } else { &d.paperspace_minimum_drawing_limits }), "Header.paperspace_minimum_drawing_limits", v); }
        if true { c.chk(r.paperspace_maximum_drawing_limits.same(if (11..=20).contains(&v) { &e0.paperspace_maximum_drawing_limits } else { &d.paperspace_maximum_drawing_limits }), "Header.paperspace_maximum_drawing_limits", v); }
        if true { c.chk(r.display_fractions_in_input.same(if (11..=20).contains(&v) { &e0.display_fractions_in_input } else { &d.display_fractions_in_input }), "Header.display_fractions_in_input", v); }
        if true { c.chk(r.retain_x_ref_dependent_visibility_settings.same(if (12..=20).contains(&v) { &e0.retain_x_ref_dependent_visibility_settings } else { &d.retain_x_ref_dependent_visibility_settings }), "Header.retain_x_ref_dependent_visibility_settings", v); }
        if true { c.chk(r.is_polyline_continuous_around_verticies.same(if (11..=20).contains(&v) { &e0.is_polyline_continuous_around_verticies } else { &d.is_polyline_continuous_around_verticies }), "Header.is_polyline_continuous_around_verticies", v); }
        if true { c.chk(r.scale_line_types_in_paperspace.same(if (11..=20).contains(&v) { &e0.scale_line_types_in_paperspace } else { &d.scale_line_types_in_paperspace }), "Header.scale_line_types_in_paperspace", v); }
        if true { c.chk(r.spacial_index_max_depth.same(if (14..=20).contains(&v) { &e0.spacial_index_max_depth } else { &d.spacial_index_max_depth }), "Header.spacial_index_max_depth", v); }
        if true { c.chk(r.pick_style.same(if (13..=14).contains(&v) { &e0.pick_style } else { &d.pick_style }), "Header.pick_style", v); }
        if true { c.chk(r.current_multiline_style.same(if (13..=13).contains(&v) || (14..=20).contains(&v) { &e0.current_multiline_style } else { &d.current_multiline_style }), "Header.current_multiline_style", v); }
        if true { c.chk(r.current_multiline_justification.same(if (13..=20).contains(&v) { &e0.current_multiline_justification } else { &d.current_multiline_justification }), "Header.current_multiline_justification", v); }
        if true { c.chk(r.current_multiline_scale.same(if (13..=20).contains(&v) { &e0.current_multiline_scale } else { &d.current_multiline_scale }), "Header.current_multiline_scale", v); }
        if true { c.chk(r.save_proxy_graphics.same(if (14..=20).contains(&v) { &e0.save_proxy_graphics } else { &d.save_proxy_graphics }), "Header.save_proxy_graphics", v); }
        if true { c.chk(r.drawing_units.same(if (14..=20).contains(&v) { &e0.drawing_units } else { &d.drawing_units }), "Header.drawing_units", v); }
        if true { c.chk(r.new_object_line_weight.same(if (15..=20).contains(&v) { &e0.new_object_line_weight } else { &d.new_object_line_weight }), "Header.new_object_line_weight", v); }
        if true { c.chk(r.end_cap_setting.same(if (15..=20).contains(&v) { &e0.end_cap_setting } else { &d.end_cap_setting }), "Header.end_cap_setting", v); }
        if true { c.chk(r.lineweight_joint_setting.same(if (15..=20).contains(&v) { &e0.lineweight_joint_setting } else { &d.lineweight_joint_setting }), "Header.lineweight_joint_setting", v); }
        if true { c.chk(r.display_linewieght_in_model_and_layout_tab.same(if (15..=20).contains(&v) { &e0.display_linewieght_in_model_and_layout_tab } else { &d.display_linewieght_in_model_and_layout_tab }), "Header.display_linewieght_in_model_and_layout_tab", v); }
        if true { c.chk(r.default_drawing_units.same(if (15..=20).contains(&v) { &e0.default_drawing_units } else { &d.default_drawing_units }), "Header.default_drawing_units", v); }
        if true { c.chk(r.hyperlink_base.same(if (15..=20).contains(&v) { &e0.hyperlink_base } else { &d.hyperlink_base }), "Header.hyperlink_base", v); }
        if true { c.chk(r.stylesheet.same(if (15..=20).contains(&v) { &e0.stylesheet } else { &d.stylesheet }), "Header.stylesheet", v); }
        if true { c.chk(r.can_use_in_place_reference_editing.same(if (15..=20).contains(&v) { &e0.can_use_in_place_reference_editing } else { &d.can_use_in_place_reference_editing }), "Header.can_use_in_place_reference_editing", v); }
        if true { c.chk(r.new_object_plot_style_handle.same(if (15..=20).contains(&v) { &e0.new_object_plot_style_handle } else { &d.new_object_plot_style_handle }), "Header.new_object_plot_style_handle", v); }
        if true { c.chk(r.new_object_plot_style.same(if (15..=20).contains(&v) { &e0.new_object_plot_style } else { &d.new_object_plot_style }), "Header.new_object_plot_style", v); }
        if true { c.chk(r.uses_color_dependent_plot_style_tables.same(if (15..=20).contains(&v) { &e0.uses_color_dependent_plot_style_tables } else { &d.uses_color_dependent_plot_style_tables }), "Header.uses_color_dependent_plot_style_tables", v); }
        if v >= 15 { c.chk(r.fingerprint_guid.same(if (15..=20).contains(&v) { &e0.fingerprint_guid } else { &d.fingerprint_guid }), "Header.fingerprint_guid", v); }
        if v >= 15 { c.chk(r.version_guid.same(if (15..=20).contains(&v) { &e0.version_guid } else { &d.version_guid }), "Header.version_guid", v); }
        if true { c.chk(r.use_acad2000_symbol_table_naming.same(if (15..=20).contains(&v) { &e0.use_acad2000_symbol_table_naming } else { &d.use_acad2000_symbol_table_naming }), "Header.use_acad2000_symbol_table_naming", v); }
        if true { c.chk(r.viewport_view_scale_factor.same(if (15..=20).contains(&v) { &e0.viewport_view_scale_factor } else { &d.viewport_view_scale_factor }), "Header.viewport_view_scale_factor", v); }
        if true { c.chk(r.ole_startup.same(if (15..=20).contains(&v) { &e0.ole_startup } else { &d.ole_startup }), "Header.ole_startup", v); }
        if true { c.chk(r.object_sorting_methods_flags.same(if (16..=20).contains(&v) { &e0.object_sorting_methods_flags } else { &d.object_sorting_methods_flags }), "Header.object_sorting_methods_flags", v); }
        if true { c.chk(r.layer_and_spatial_index_save_mode.same(if (16..=20).contains(&v) { &e0.layer_and_spatial_index_save_mode } else { &d.layer_and_spatial_index_save_mode }), "Header.layer_and_spatial_index_save_mode", v); }
        if true { c.chk(r.hide_text_objects_when_producint_hidden_view.same(if (16..=20).contains(&v) { &e0.hide_text_objects_when_producint_hidden_view } else { &d.hide_text_objects_when_producint_hidden_view }), "Header.hide_text_objects_when_producint_hidden_view", v); }
        if true { c.chk(r.is_x_ref_clipping_boundary_visible.same(if v < 16 { &d.is_x_ref_clipping_boundary_visible } else { xclip(v, &e0.is_x_ref_clipping_boundary_visible) }), "Header.is_x_ref_clipping_boundary_visible", v); }
        if true { c.chk(r.halo_gap_percent.same(if (16..=20).contains(&v) { &e0.halo_gap_percent } else { &d.halo_gap_percent }), "Header.halo_gap_percent", v); }
        if true { c.chk(r.obscured_line_color.same(if (16..=20).contains(&v) { &e0.obscured_line_color } else { &d.obscured_line_color }), "Header.obscured_line_color", v); }
        if true { c.chk(r.obscured_line_type_style.same(if (16..=20).contains(&v) { &e0.obscured_line_type_style } else { &d.obscured_line_type_style }), "Header.obscured_line_type_style", v); }
        if true { c.chk(r.display_intersection_polylines.same(if (16..=20).contains(&v) { &e0.display_intersection_polylines } else { &d.display_intersection_polylines }), "Header.display_intersection_polylines", v); }
        if true { c.chk(r.intersection_polyline_color.same(if (16..=20).contains(&v) { &e0.intersection_polyline_color } else { &d.intersection_polyline_color }), "Header.intersection_polyline_color", v); }
        if true { c.chk(r.dimension_object_associativity.same(if (16..=20).contains(&v) { &e0.dimension_object_associativity } else { &d.dimension_object_associativity }), "Header.dimension_object_associativity", v); }
        if true { c.chk(r.project_name.same(if (16..=20).contains(&v) { &e0.project_name } else { &d.project_name }), "Header.project_name", v); }
        if true { c.chk(r.use_camera_display.same(if (17..=20).contains(&v) { &e0.use_camera_display } else { &d.use_camera_display }), "Header.use_camera_display", v); }
        if true { c.chk(r.lens_length.same(if (17..=20).contains(&v) { &e0.lens_length } else { &d.lens_length }), "Header.lens_length", v); }
        if true { c.chk(r.camera_height.same(if (17..=20).contains(&v) { &e0.camera_height } else { &d.camera_height }), "Header.camera_height", v); }
        if true { c.chk(r.steps_per_second_in_walk_or_fly_mode.same(if (17..=20).contains(&v) { &e0.steps_per_second_in_walk_or_fly_mode } else { &d.steps_per_second_in_walk_or_fly_mode }), "Header.steps_per_second_in_walk_or_fly_mode", v); }
        if true { c.chk(r.step_size_in_walk_or_fly_mode.same(if (17..=20).contains(&v) { &e0.step_size_in_walk_or_fly_mode } else { &d.step_size_in_walk_or_fly_mode }), "Header.step_size_in_walk_or_fly_mode", v); }
        if true { c.chk(r.dwf_3d_precision.same(if (17..=20).contains(&v) { &e0.dwf_3d_precision } else { &d.dwf_3d_precision }), "Header.dwf_3d_precision", v); }
        if true { c.chk(r.last_poly_solid_width.same(if (17..=20).contains(&v) { &e0.last_poly_solid_width } else { &d.last_poly_solid_width }), "Header.last_poly_solid_width", v); }
        if true { c.chk(r.last_poly_solid_height.same(if (17..=20).contains(&v) { &e0.last_poly_solid_height } else { &d.last_poly_solid_height }), "Header.last_poly_solid_height", v); }
        if true { c.chk(r.loft_operation_first_draft_angle.same(if (17..=20).contains(&v) { &e0.loft_operation_first_draft_angle } else { &d.loft_operation_first_draft_angle }), "Header.loft_operation_first_draft_angle", v); }
        if true { c.chk(r.loft_operation_second_draft_angle.same(if (17..=20).contains(&v) { &e0.loft_operation_second_draft_angle } else { &d.loft_operation_second_draft_angle }), "Header.loft_operation_second_draft_angle", v); }
        if true { c.chk(r.loft_operation_first_magnitude.same(if (17..=20).contains(&v) { &e0.loft_operation_first_magnitude } else { &d.loft_operation_first_magnitude }), "Header.loft_operation_first_magnitude", v); }
        if true { c.chk(r.loft_operation_second_magnitude.same(if (17..=20).contains(&v) { &e0.loft_operation_second_magnitude } else { &d.loft_operation_second_magnitude }), "Header.loft_operation_second_magnitude", v); }
        if true { c.chk(r.loft_flags.same(if (17..=20).contains(&v) { &e0.loft_flags } else { &d.loft_flags }), "Header.loft_flags", v); }
        if true { c.chk(r.lofted_object_normal_mode.same(if (17..=20).contains(&v) { &e0.lofted_object_normal_mode } else { &d.lofted_object_normal_mode }), "Header.lofted_object_normal_mode", v); }
        if true { c.chk(r.latitude.same(if (17..=20).contains(&v) { &e0.latitude } else { &d.latitude }), "Header.latitude", v); }
        if true { c.chk(r.longitude.same(if (17..=20).contains(&v) { &e0.longitude } else { &d.longitude }), "Header.longitude", v); }
        if true { c.chk(r.angle_between_y_axis_and_north.same(if (17..=20).contains(&v) { &e0.angle_between_y_axis_and_north } else { &d.angle_between_y_axis_and_north }), "Header.angle_between_y_axis_and_north", v); }
        if true { c.chk(r.time_zone.same(if (17..=20).contains(&v) { &e0.time_zone } else { &d.time_zone }), "Header.time_zone", v); }
        if true { c.chk(r.use_light_glyph_display.same(if (17..=20).contains(&v) { &e0.use_light_glyph_display } else { &d.use_light_glyph_display }), "Header.use_light_glyph_display", v); }
        if true { c.chk(r.use_tile_mode_light_sync.same(if (17..=20).contains(&v) { &e0.use_tile_mode_light_sync } else { &d.use_tile_mode_light_sync }), "Header.use_tile_mode_light_sync", v); }
        if true { c.chk(r.current_material_handle.same(if (17..=20).contains(&v) { &e0.current_material_handle } else { &d.current_material_handle }), "Header.current_material_handle", v); }
        if true { c.chk(r.new_solids_contain_history.same(if (17..=20).contains(&v) { &e0.new_solids_contain_history } else { &d.new_solids_contain_history }), "Header.new_solids_contain_history", v); }
        if true { c.chk(r.solid_history_mode.same(if (17..=20).contains(&v) { &e0.solid_history_mode } else { &d.solid_history_mode }), "Header.solid_history_mode", v); }
        if true { c.chk(r.dwf_underlay_frame_mode.same(if (17..=20).contains(&v) { &e0.dwf_underlay_frame_mode } else { &d.dwf_underlay_frame_mode }), "Header.dwf_underlay_frame_mode", v); }
        if true { c.chk(r.dgn_underlay_frame_mode.same(if (17..=20).contains(&v) { &e0.dgn_underlay_frame_mode } else { &d.dgn_underlay_frame_mode }), "Header.dgn_underlay_frame_mode", v); }
        if true { c.chk(r.use_real_world_scale.same(if (17..=20).contains(&v) { &e0.use_real_world_scale } else { &d.use_real_world_scale }), "Header.use_real_world_scale", v); }
        if true { c.chk(r.interference_object_color.same(if (17..=20).contains(&v) { &e0.interference_object_color } else { &d.interference_object_color }), "Header.interference_object_color", v); }
        if true { c.chk(r.interference_object_visual_style_pointer.same(if (17..=20).contains(&v) { &e0.interference_object_visual_style_pointer } else { &d.interference_object_visual_style_pointer }), "Header.interference_object_visual_style_pointer", v); }
        if true { c.chk(r.interference_view_port_visual_style_pointer.same(if (17..=20).contains(&v) { &e0.interference_view_port_visual_style_pointer } else { &d.interference_view_port_visual_style_pointer }), "Header.interference_view_port_visual_style_pointer", v); }
        if true { c.chk(r.shadow_mode.same(if (17..=20).contains(&v) { &e0.shadow_mode } else { &d.shadow_mode }), "Header.shadow_mode", v); }
        if true { c.chk(r.shadow_plane_z_offset.same(if (17..=20).contains(&v) { &e0.shadow_plane_z_offset } else { &d.shadow_plane_z_offset }), "Header.shadow_plane_z_offset", v); }
        if true { c.chk(r.axis_on.same(if (0..=10).contains(&v) { &e0.axis_on } else { &d.axis_on }), "Header.axis_on", v); }
        if true { c.chk(r.axis_tick_spacing.same(if (0..=10).contains(&v) { &e0.axis_tick_spacing } else { &d.axis_tick_spacing }), "Header.axis_tick_spacing", v); }
        if true { c.chk(r.fast_zoom.same(if (0..=10).contains(&v) { &e0.fast_zoom } else { &d.fast_zoom }), "Header.fast_zoom", v); }
        if true { c.chk(r.grid_on.same(if (0..=10).contains(&v) { &e0.grid_on } else { &d.grid_on }), "Header.grid_on", v); }
        if true { c.chk(r.grid_spacing.same(if (0..=10).contains(&v) { &e0.grid_spacing } else { &d.grid_spacing }), "Header.grid_spacing", v); }
        if true { c.chk(r.snap_rotation_angle.same(if (0..=10).contains(&v) { &e0.snap_rotation_angle } else { &d.snap_rotation_angle }), "Header.snap_rotation_angle", v); }
        if true { c.chk(r.snap_base_point.same(if (0..=10).contains(&v) { &e0.snap_base_point } else { &d.snap_base_point }), "Header.snap_base_point", v); }
        if true { c.chk(r.snap_isometric_plane.same(if (0..=10).contains(&v) { &e0.snap_isometric_plane } else { &d.snap_isometric_plane }), "Header.snap_isometric_plane", v); }
        if true { c.chk(r.snap_on.same(if (0..=10).contains(&v) { &e0.snap_on } else { &d.snap_on }), "Header.snap_on", v); }
        if true { c.chk(r.snap_style.same(if (0..=10).contains(&v) { &e0.snap_style } else { &d.snap_style }), "Header.snap_style", v); }
        if true { c.chk(r.snap_spacing.same(if (0..=10).contains(&v) { &e0.snap_spacing } else { &d.snap_spacing }), "Header.snap_spacing", v); }
        if true { c.chk(r.view_center.same(if (0..=10).contains(&v) { &e0.view_center } else { &d.view_center }), "Header.view_center", v); }
        if true { c.chk(r.view_direction.same(if (0..=10).contains(&v) { &e0.view_direction } else { &d.view_direction }), "Header.view_direction", v); }
        if true { c.chk(r.view_height.same(if (0..=10).contains(&v) { &e0.view_height } else { &d.view_height }), "Header.view_height", v); }
    }
}
