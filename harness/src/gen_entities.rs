// Generated by tools/gen_harness.py; do not edit.
#![allow(non_snake_case, clippy::all)]
use crate::sym::*;
use crate::rt::*;
use dxf::entities::*;
use dxf::enums::*;
use dxf::*;

fn rt_e_Face3D(c: &Cx) {
    let d = Face3D::default();
    let mut e = d.clone();
    let v = c.ver(0, 20); let f = c.field(5);
    if c.on(f, 1) { e.first_corner = Sy::sy(&d.first_corner, f == 0, ANY); }
    if c.on(f, 2) { e.second_corner = Sy::sy(&d.second_corner, f == 0, ANY); }
    if c.on(f, 3) { e.third_corner = Sy::sy(&d.third_corner, f == 0, ANY); }
    if c.on(f, 4) { e.fourth_corner = Sy::sy(&d.fourth_corner, f == 0, ANY); }
    if c.on(f, 5) { e.edge_flags = Sy::sy(&d.edge_flags, f == 0, I16); }
    let e0 = e.clone();
    let r = rt_ent(c, "Face3D", EntityType::Face3D(e), v).and_then(|s| if let EntityType::Face3D(x) = s.specific { Some(x) } else { c.chk(false, "Face3D: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.first_corner.same(&e0.first_corner), "Face3D.first_corner", v);
        c.chk(r.second_corner.same(&e0.second_corner), "Face3D.second_corner", v);
        c.chk(r.third_corner.same(&e0.third_corner), "Face3D.third_corner", v);
        c.chk(r.fourth_corner.same(&e0.fourth_corner), "Face3D.fourth_corner", v);
        c.chk(r.edge_flags.same(&e0.edge_flags), "Face3D.edge_flags", v);
    }
}
fn rt_e_Solid3D(c: &Cx) {
    let d = Solid3D::default();
    let mut e = d.clone();
    let v = c.ver(13, 20); let f = c.field(4);
    if c.on(f, 1) { e.format_version_number = Sy::sy(&d.format_version_number, f == 0, ANY); }
    if c.on(f, 2) { e.custom_data = Sy::sy(&d.custom_data, f == 0, ANY); }
    if c.on(f, 3) { e.custom_data2 = Sy::sy(&d.custom_data2, f == 0, ANY); }
    if c.on(f, 4) { e.__history_object_handle = Sy::sy(&d.__history_object_handle, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "Solid3D", EntityType::Solid3D(e), v).and_then(|s| if let EntityType::Solid3D(x) = s.specific { Some(x) } else { c.chk(false, "Solid3D: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.format_version_number.same(&e0.format_version_number), "Solid3D.format_version_number", v);
        c.chk(r.custom_data.same(&e0.custom_data), "Solid3D.custom_data", v);
        c.chk(r.custom_data2.same(&e0.custom_data2), "Solid3D.custom_data2", v);
        c.chk(r.__history_object_handle.same(if v >= 17 { &e0.__history_object_handle } else { &d.__history_object_handle }), "Solid3D.history_object", v);
    }
}
fn rt_e_ProxyEntity(c: &Cx) {
    let d = ProxyEntity::default();
    let mut e = d.clone();
    let v = c.ver(14, 20); let f = c.field(12);
    if c.on(f, 1) { e.proxy_entity_class_id = Sy::sy(&d.proxy_entity_class_id, f == 0, ANY); }
    if c.on(f, 2) { e.application_entity_class_id = Sy::sy(&d.application_entity_class_id, f == 0, ANY); }
    if c.on(f, 3) { e.graphics_data_size = Sy::sy(&d.graphics_data_size, f == 0, ANY); }
    if c.on(f, 4) { e.graphics_data_string = Sy::sy(&d.graphics_data_string, f == 0, ANY); }
    if c.on(f, 5) { e.entity_data_size = Sy::sy(&d.entity_data_size, f == 0, ANY); }
    if c.on(f, 6) { e.entity_data_string = Sy::sy(&d.entity_data_string, f == 0, ANY); }
    if c.on(f, 7) { e.object_id_1 = Sy::sy(&d.object_id_1, f == 0, ANY); }
    if c.on(f, 8) { e.object_id_2 = Sy::sy(&d.object_id_2, f == 0, ANY); }
    if c.on(f, 9) { e.object_id_3 = Sy::sy(&d.object_id_3, f == 0, ANY); }
    if c.on(f, 10) { e.object_id_4 = Sy::sy(&d.object_id_4, f == 0, ANY); }
    if c.on(f, 11) { e.terminator = Sy::sy(&d.terminator, f == 0, ANY); }
    if c.on(f, 12) { e.original_data_format_is_dxf = Sy::sy(&d.original_data_format_is_dxf, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "ProxyEntity", EntityType::ProxyEntity(e), v).and_then(|s| if let EntityType::ProxyEntity(x) = s.specific { Some(x) } else { c.chk(false, "ProxyEntity: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.proxy_entity_class_id.same(&e0.proxy_entity_class_id), "ProxyEntity.proxy_entity_class_id", v);
        c.chk(r.application_entity_class_id.same(&e0.application_entity_class_id), "ProxyEntity.application_entity_class_id", v);
        c.chk(r.graphics_data_size.same(&e0.graphics_data_size), "ProxyEntity.graphics_data_size", v);
        c.chk(r.graphics_data_string.same(&e0.graphics_data_string), "ProxyEntity.graphics_data_string", v);
        c.chk(r.entity_data_size.same(&e0.entity_data_size), "ProxyEntity.entity_data_size", v);
        c.chk(r.entity_data_string.same(&e0.entity_data_string), "ProxyEntity.entity_data_string", v);
        c.chk(r.object_id_1.same(&e0.object_id_1), "ProxyEntity.object_id_1", v);
        c.chk(r.object_id_2.same(&e0.object_id_2), "ProxyEntity.object_id_2", v);
        c.chk(r.object_id_3.same(&e0.object_id_3), "ProxyEntity.object_id_3", v);
        c.chk(r.object_id_4.same(&e0.object_id_4), "ProxyEntity.object_id_4", v);
        c.chk(r.terminator.same(&e0.terminator), "ProxyEntity.terminator", v);
        c.chk(r.original_data_format_is_dxf.same(if v >= 15 { &e0.original_data_format_is_dxf } else { &d.original_data_format_is_dxf }), "ProxyEntity.original_data_format_is_dxf", v);
    }
}
fn rt_e_Arc(c: &Cx) {
    let d = Arc::default();
    let mut e = d.clone();
    let v = c.ver(0, 20); let f = c.field(6);
    if c.on(f, 1) { e.thickness = Sy::sy(&d.thickness, f == 0, ANY); }
    if c.on(f, 2) { e.center = Sy::sy(&d.center, f == 0, ANY); }
    if c.on(f, 3) { e.radius = Sy::sy(&d.radius, f == 0, ANY); }
    if c.on(f, 4) { e.normal = Sy::sy(&d.normal, f == 0, ANY); }
    if c.on(f, 5) { e.start_angle = Sy::sy(&d.start_angle, f == 0, ANY); }
    if c.on(f, 6) { e.end_angle = Sy::sy(&d.end_angle, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "Arc", EntityType::Arc(e), v).and_then(|s| if let EntityType::Arc(x) = s.specific { Some(x) } else { c.chk(false, "Arc: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.thickness.same(&e0.thickness), "Arc.thickness", v);
        c.chk(r.center.same(&e0.center), "Arc.center", v);
        c.chk(r.radius.same(&e0.radius), "Arc.radius", v);
        c.chk(r.normal.same(&e0.normal), "Arc.normal", v);
        c.chk(r.start_angle.same(&e0.start_angle), "Arc.start_angle", v);
        c.chk(r.end_angle.same(&e0.end_angle), "Arc.end_angle", v);
    }
}
fn rt_e_ArcAlignedText(c: &Cx) {
    let d = ArcAlignedText::default();
    let mut e = d.clone();
    let v = c.ver(15, 15); let f = c.field(27);
    if c.on(f, 1) { e.text = Sy::sy(&d.text, f == 0, ANY); }
    if c.on(f, 2) { e.font_name = Sy::sy(&d.font_name, f == 0, ANY); }
    if c.on(f, 3) { e.bigfont_name = Sy::sy(&d.bigfont_name, f == 0, ANY); }
    if c.on(f, 4) { e.text_style_name = Sy::sy(&d.text_style_name, f == 0, ANY); }
    if c.on(f, 5) { e.center_point = Sy::sy(&d.center_point, f == 0, ANY); }
    if c.on(f, 6) { e.arc_radius = Sy::sy(&d.arc_radius, f == 0, ANY); }
    if c.on(f, 7) { e.width_factor = Sy::sy(&d.width_factor, f == 0, ANY); }
    if c.on(f, 8) { e.text_height = Sy::sy(&d.text_height, f == 0, ANY); }
    if c.on(f, 9) { e.character_spacing = Sy::sy(&d.character_spacing, f == 0, ANY); }
    if c.on(f, 10) { e.offset_from_arc = Sy::sy(&d.offset_from_arc, f == 0, ANY); }
    if c.on(f, 11) { e.right_offset = Sy::sy(&d.right_offset, f == 0, ANY); }
    if c.on(f, 12) { e.left_offset = Sy::sy(&d.left_offset, f == 0, ANY); }
    if c.on(f, 13) { e.start_angle = Sy::sy(&d.start_angle, f == 0, ANY); }
    if c.on(f, 14) { e.end_angle = Sy::sy(&d.end_angle, f == 0, ANY); }
    if c.on(f, 15) { e.is_character_order_reversed = Sy::sy(&d.is_character_order_reversed, f == 0, ANY); }
    if c.on(f, 16) { e.direction_flag = Sy::sy(&d.direction_flag, f == 0, ANY); }
    if c.on(f, 17) { e.alignment_flag = Sy::sy(&d.alignment_flag, f == 0, ANY); }
    if c.on(f, 18) { e.side_flag = Sy::sy(&d.side_flag, f == 0, ANY); }
    if c.on(f, 19) { e.is_bold = Sy::sy(&d.is_bold, f == 0, ANY); }
    if c.on(f, 20) { e.is_italic = Sy::sy(&d.is_italic, f == 0, ANY); }
    if c.on(f, 21) { e.is_underline = Sy::sy(&d.is_underline, f == 0, ANY); }
    if c.on(f, 22) { e.character_set_value = Sy::sy(&d.character_set_value, f == 0, ANY); }
    if c.on(f, 23) { e.pitch_and_family_value = Sy::sy(&d.pitch_and_family_value, f == 0, ANY); }
    if c.on(f, 24) { e.font_type = Sy::sy(&d.font_type, f == 0, ANY); }
    if c.on(f, 25) { e.color_index = Sy::sy(&d.color_index, f == 0, ANY); }
    if c.on(f, 26) { e.extrusion_direction = Sy::sy(&d.extrusion_direction, f == 0, ANY); }
    if c.on(f, 27) { e.wizard_flag = Sy::sy(&d.wizard_flag, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "ArcAlignedText", EntityType::ArcAlignedText(e), v).and_then(|s| if let EntityType::ArcAlignedText(x) = s.specific { Some(x) } else { c.chk(false, "ArcAlignedText: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.text.same(&e0.text), "ArcAlignedText.text", v);
        c.chk(r.font_name.same(&e0.font_name), "ArcAlignedText.font_name", v);
        c.chk(r.bigfont_name.same(&e0.bigfont_name), "ArcAlignedText.bigfont_name", v);
        c.chk(r.text_style_name.same(&e0.text_style_name), "ArcAlignedText.text_style_name", v);
        c.chk(r.center_point.same(&e0.center_point), "ArcAlignedText.center_point", v);
        c.chk(r.arc_radius.same(&e0.arc_radius), "ArcAlignedText.arc_radius", v);
        c.chk(r.width_factor.same(&e0.width_factor), "ArcAlignedText.width_factor", v);
        c.chk(r.text_height.same(&e0.text_height), "ArcAlignedText.text_height", v);
        c.chk(r.character_spacing.same(&e0.character_spacing), "ArcAlignedText.character_spacing", v);
        c.chk(r.offset_from_arc.same(&e0.offset_from_arc), "ArcAlignedText.offset_from_arc", v);
        c.chk(r.right_offset.same(&e0.right_offset), "ArcAlignedText.right_offset", v);
        c.chk(r.left_offset.same(&e0.left_offset), "ArcAlignedText.left_offset", v);
        c.chk(r.start_angle.same(&e0.start_angle), "ArcAlignedText.start_angle", v);
        c.chk(r.end_angle.same(&e0.end_angle), "ArcAlignedText.end_angle", v);
        c.chk(r.is_character_order_reversed.same(&e0.is_character_order_reversed), "ArcAlignedText.is_character_order_reversed", v);
        c.chk(r.direction_flag.same(&e0.direction_flag), "ArcAlignedText.direction_flag", v);
        c.chk(r.alignment_flag.same(&e0.alignment_flag), "ArcAlignedText.alignment_flag", v);
        c.chk(r.side_flag.same(&e0.side_flag), "ArcAlignedText.side_flag", v);
        c.chk(r.is_bold.same(&e0.is_bold), "ArcAlignedText.is_bold", v);
        c.chk(r.is_italic.same(&e0.is_italic), "ArcAlignedText.is_italic", v);
        c.chk(r.is_underline.same(&e0.is_underline), "ArcAlignedText.is_underline", v);
        c.chk(r.character_set_value.same(&e0.character_set_value), "ArcAlignedText.character_set_value", v);
        c.chk(r.pitch_and_family_value.same(&e0.pitch_and_family_value), "ArcAlignedText.pitch_and_family_value", v);
        c.chk(r.font_type.same(&e0.font_type), "ArcAlignedText.font_type", v);
        c.chk(r.color_index.same(&e0.color_index), "ArcAlignedText.color_index", v);
        c.chk(r.extrusion_direction.same(&e0.extrusion_direction), "ArcAlignedText.extrusion_direction", v);
        c.chk(r.wizard_flag.same(&e0.wizard_flag), "ArcAlignedText.wizard_flag", v);
    }
}
fn rt_e_AttributeDefinition(c: &Cx) {
    let d = AttributeDefinition::default();
    let mut e = d.clone();
    let v = c.ver(0, 20); let f = c.field(26);
    if c.on(f, 1) { e.thickness = Sy::sy(&d.thickness, f == 0, ANY); }
    if c.on(f, 2) { e.location = Sy::sy(&d.location, f == 0, ANY); }
    if c.on(f, 3) { e.text_height = Sy::sy(&d.text_height, f == 0, ANY); }
    if c.on(f, 4) { e.value = Sy::sy(&d.value, f == 0, ANY); }
    if c.on(f, 5) { e.rotation = Sy::sy(&d.rotation, f == 0, ANY); }
    if c.on(f, 6) { e.relative_x_scale_factor = Sy::sy(&d.relative_x_scale_factor, f == 0, ANY); }
    if c.on(f, 7) { e.oblique_angle = Sy::sy(&d.oblique_angle, f == 0, ANY); }
    if c.on(f, 8) { e.text_style_name = Sy::sy(&d.text_style_name, f == 0, ANY); }
    if c.on(f, 9) { e.text_generation_flags = Sy::sy(&d.text_generation_flags, f == 0, I16); }
    if c.on(f, 10) { e.horizontal_text_justification = Sy::sy(&d.horizontal_text_justification, f == 0, ANY); }
    if c.on(f, 11) { e.second_alignment_point = Sy::sy(&d.second_alignment_point, f == 0, ANY); }
    if c.on(f, 12) { e.normal = Sy::sy(&d.normal, f == 0, ANY); }
    if c.on(f, 13) { e.version = Sy::sy(&d.version, f == 0, ANY); }
    if c.on(f, 14) { e.prompt = Sy::sy(&d.prompt, f == 0, ANY); }
    if c.on(f, 15) { e.text_tag = Sy::sy(&d.text_tag, f == 0, ANY); }
    if c.on(f, 16) { e.flags = Sy::sy(&d.flags, f == 0, I16); }
    if c.on(f, 17) { e.field_length = Sy::sy(&d.field_length, f == 0, ANY); }
    if c.on(f, 18) { e.vertical_text_justification = Sy::sy(&d.vertical_text_justification, f == 0, ANY); }
    if c.on(f, 19) { e.is_locked_in_block = Sy::sy(&d.is_locked_in_block, f == 0, ANY); }
    if c.on(f, 20) { e.keep_duplicate_records = Sy::sy(&d.keep_duplicate_records, f == 0, ANY); }
    if c.on(f, 21) { e.m_text_flag = Sy::sy(&d.m_text_flag, f == 0, ANY); }
    if c.on(f, 22) { e.is_really_locked = Sy::sy(&d.is_really_locked, f == 0, ANY); }
    if c.on(f, 23) { e.__secondary_attributes_handle = Sy::sy(&d.__secondary_attributes_handle, f == 0, ANY); }
    if c.on(f, 24) { e.alignment_point = Sy::sy(&d.alignment_point, f == 0, ANY); }
    if c.on(f, 25) { e.annotation_scale = Sy::sy(&d.annotation_scale, f == 0, ANY); }
    if c.on(f, 26) { e.x_record_tag = Sy::sy(&d.x_record_tag, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "AttributeDefinition", EntityType::AttributeDefinition(e), v).and_then(|s| if let EntityType::AttributeDefinition(x) = s.specific { Some(x) } else { c.chk(false, "AttributeDefinition: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.thickness.same(&e0.thickness), "AttributeDefinition.thickness", v);
        c.chk(r.location.same(&e0.location), "AttributeDefinition.location", v);
        c.chk(r.text_height.same(&e0.text_height), "AttributeDefinition.text_height", v);
        c.chk(r.value.same(&e0.value), "AttributeDefinition.value", v);
        c.chk(r.rotation.same(&e0.rotation), "AttributeDefinition.rotation", v);
        c.chk(r.relative_x_scale_factor.same(&e0.relative_x_scale_factor), "AttributeDefinition.relative_x_scale_factor", v);
        c.chk(r.oblique_angle.same(&e0.oblique_angle), "AttributeDefinition.oblique_angle", v);
        c.chk(r.text_style_name.same(&e0.text_style_name), "AttributeDefinition.text_style_name", v);
        c.chk(r.text_generation_flags.same(&e0.text_generation_flags), "AttributeDefinition.text_generation_flags", v);
        c.chk(r.horizontal_text_justification.same(&e0.horizontal_text_justification), "AttributeDefinition.horizontal_text_justification", v);
        c.chk(r.second_alignment_point.same(&e0.second_alignment_point), "AttributeDefinition.second_alignment_point", v);
        c.chk(r.normal.same(&e0.normal), "AttributeDefinition.normal", v);
        c.chk(r.version.same(if v >= 18 { &e0.version } else { &d.version }), "AttributeDefinition.version", v);
        c.chk(r.prompt.same(&e0.prompt), "AttributeDefinition.prompt", v);
        c.chk(r.text_tag.same(&e0.text_tag), "AttributeDefinition.text_tag", v);
        c.chk(r.flags.same(&e0.flags), "AttributeDefinition.flags", v);
        c.chk(r.field_length.same(&e0.field_length), "AttributeDefinition.field_length", v);
        c.chk(r.vertical_text_justification.same(if v >= 12 { &e0.vertical_text_justification } else { &d.vertical_text_justification }), "AttributeDefinition.vertical_text_justification", v);
        c.chk(r.is_locked_in_block.same(if v >= 17 { &e0.is_locked_in_block } else { &d.is_locked_in_block }), "AttributeDefinition.is_locked_in_block", v);
        c.chk(r.keep_duplicate_records.same(if v >= 17 { &e0.keep_duplicate_records } else { &d.keep_duplicate_records }), "AttributeDefinition.keep_duplicate_records", v);
        c.chk(r.m_text_flag.same(if v >= 17 { &e0.m_text_flag } else { &d.m_text_flag }), "AttributeDefinition.m_text_flag", v);
        c.chk(r.is_really_locked.same(if v >= 17 { &e0.is_really_locked } else { &d.is_really_locked }), "AttributeDefinition.is_really_locked", v);
        c.chk(r.__secondary_attributes_handle.same(if v >= 17 { &e0.__secondary_attributes_handle } else { &d.__secondary_attributes_handle }), "AttributeDefinition.secondary_attributes", v);
        c.chk(r.alignment_point.same(if v >= 17 { &e0.alignment_point } else { &d.alignment_point }), "AttributeDefinition.alignment_point", v);
        c.chk(r.annotation_scale.same(if v >= 17 { &e0.annotation_scale } else { &d.annotation_scale }), "AttributeDefinition.annotation_scale", v);
        c.chk(r.x_record_tag.same(if v >= 17 { &e0.x_record_tag } else { &d.x_record_tag }), "AttributeDefinition.x_record_tag", v);
    }
}
fn rt_e_Attribute(c: &Cx) {
    let d = Attribute::default();
    let mut e = d.clone();
    let v = c.ver(0, 20); let f = c.field(25);
    if c.on(f, 1) { e.thickness = Sy::sy(&d.thickness, f == 0, ANY); }
    if c.on(f, 2) { e.location = Sy::sy(&d.location, f == 0, ANY); }
    if c.on(f, 3) { e.text_height = Sy::sy(&d.text_height, f == 0, ANY); }
    if c.on(f, 4) { e.value = Sy::sy(&d.value, f == 0, ANY); }
    if c.on(f, 5) { e.version = Sy::sy(&d.version, f == 0, ANY); }
    if c.on(f, 6) { e.attribute_tag = Sy::sy(&d.attribute_tag, f == 0, ANY); }
    if c.on(f, 7) { e.flags = Sy::sy(&d.flags, f == 0, I16); }
    if c.on(f, 8) { e.field_length = Sy::sy(&d.field_length, f == 0, ANY); }
    if c.on(f, 9) { e.rotation = Sy::sy(&d.rotation, f == 0, ANY); }
    if c.on(f, 10) { e.relative_x_scale_factor = Sy::sy(&d.relative_x_scale_factor, f == 0, ANY); }
    if c.on(f, 11) { e.oblique_angle = Sy::sy(&d.oblique_angle, f == 0, ANY); }
    if c.on(f, 12) { e.text_style_name = Sy::sy(&d.text_style_name, f == 0, ANY); }
    if c.on(f, 13) { e.text_generation_flags = Sy::sy(&d.text_generation_flags, f == 0, I16); }
    if c.on(f, 14) { e.horizontal_text_justification = Sy::sy(&d.horizontal_text_justification, f == 0, ANY); }
    if c.on(f, 15) { e.vertical_text_justification = Sy::sy(&d.vertical_text_justification, f == 0, ANY); }
    if c.on(f, 16) { e.second_alignment_point = Sy::sy(&d.second_alignment_point, f == 0, ANY); }
    if c.on(f, 17) { e.normal = Sy::sy(&d.normal, f == 0, ANY); }
    if c.on(f, 18) { e.is_locked_in_block = Sy::sy(&d.is_locked_in_block, f == 0, ANY); }
    if c.on(f, 19) { e.keep_duplicate_records = Sy::sy(&d.keep_duplicate_records, f == 0, ANY); }
    if c.on(f, 20) { e.m_text_flag = Sy::sy(&d.m_text_flag, f == 0, ANY); }
    if c.on(f, 21) { e.is_really_locked = Sy::sy(&d.is_really_locked, f == 0, ANY); }
    if c.on(f, 22) { e.__secondary_attributes_handle = Sy::sy(&d.__secondary_attributes_handle, f == 0, ANY); }
    if c.on(f, 23) { e.alignment_point = Sy::sy(&d.alignment_point, f == 0, ANY); }
    if c.on(f, 24) { e.annotation_scale = Sy::sy(&d.annotation_scale, f == 0, ANY); }
    if c.on(f, 25) { e.x_record_tag = Sy::sy(&d.x_record_tag, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "Attribute", EntityType::Attribute(e), v).and_then(|s| if let EntityType::Attribute(x) = s.specific { Some(x) } else { c.chk(false, "Attribute: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.thickness.same(&e0.thickness), "Attribute.thickness", v);
        c.chk(r.location.same(&e0.location), "Attribute.location", v);
        c.chk(r.text_height.same(&e0.text_height), "Attribute.text_height", v);
        c.chk(r.value.same(&e0.value), "Attribute.value", v);
        c.chk(r.version.same(if v >= 18 { &e0.version } else { &d.version }), "Attribute.version", v);
        c.chk(r.attribute_tag.same(&e0.attribute_tag), "Attribute.attribute_tag", v);
        c.chk(r.flags.same(&e0.flags), "Attribute.flags", v);
        c.chk(r.field_length.same(&e0.field_length), "Attribute.field_length", v);
        c.chk(r.rotation.same(&e0.rotation), "Attribute.rotation", v);
        c.chk(r.relative_x_scale_factor.same(&e0.relative_x_scale_factor), "Attribute.relative_x_scale_factor", v);
        c.chk(r.oblique_angle.same(&e0.oblique_angle), "Attribute.oblique_angle", v);
        c.chk(r.text_style_name.same(&e0.text_style_name), "Attribute.text_style_name", v);
        c.chk(r.text_generation_flags.same(&e0.text_generation_flags), "Attribute.text_generation_flags", v);
        c.chk(r.horizontal_text_justification.same(&e0.horizontal_text_justification), "Attribute.horizontal_text_justification", v);
        c.chk(r.vertical_text_justification.same(if v >= 12 { &e0.vertical_text_justification } else { &d.vertical_text_justification }), "Attribute.vertical_text_justification", v);
        c.chk(r.second_alignment_point.same(&e0.second_alignment_point), "Attribute.second_alignment_point", v);
        c.chk(r.normal.same(&e0.normal), "Attribute.normal", v);
        c.chk(r.is_locked_in_block.same(if v >= 17 { &e0.is_locked_in_block } else { &d.is_locked_in_block }), "Attribute.is_locked_in_block", v);
        c.chk(r.keep_duplicate_records.same(if v >= 17 { &e0.keep_duplicate_records } else { &d.keep_duplicate_records }), "Attribute.keep_duplicate_records", v);
        c.chk(r.m_text_flag.same(if v >= 17 { &e0.m_text_flag } else { &d.m_text_flag }), "Attribute.m_text_flag", v);
        c.chk(r.is_really_locked.same(if v >= 17 { &e0.is_really_locked } else { &d.is_really_locked }), "Attribute.is_really_locked", v);
        c.chk(r.__secondary_attributes_handle.same(if v >= 17 { &e0.__secondary_attributes_handle } else { &d.__secondary_attributes_handle }), "Attribute.secondary_attributes", v);
        c.chk(r.alignment_point.same(if v >= 17 { &e0.alignment_point } else { &d.alignment_point }), "Attribute.alignment_point", v);
        c.chk(r.annotation_scale.same(if v >= 17 { &e0.annotation_scale } else { &d.annotation_scale }), "Attribute.annotation_scale", v);
        c.chk(r.x_record_tag.same(if v >= 17 { &e0.x_record_tag } else { &d.x_record_tag }), "Attribute.x_record_tag", v);
    }
}
fn rt_e_Body(c: &Cx) {
    let d = Body::default();
    let mut e = d.clone();
    let v = c.ver(13, 20); let f = c.field(3);
    if c.on(f, 1) { e.format_version_number = Sy::sy(&d.format_version_number, f == 0, ANY); }
    if c.on(f, 2) { e.custom_data = Sy::sy(&d.custom_data, f == 0, ANY); }
    if c.on(f, 3) { e.custom_data2 = Sy::sy(&d.custom_data2, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "Body", EntityType::Body(e), v).and_then(|s| if let EntityType::Body(x) = s.specific { Some(x) } else { c.chk(false, "Body: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.format_version_number.same(&e0.format_version_number), "Body.format_version_number", v);
        c.chk(r.custom_data.same(&e0.custom_data), "Body.custom_data", v);
        c.chk(r.custom_data2.same(&e0.custom_data2), "Body.custom_data2", v);
    }
}
fn rt_e_Circle(c: &Cx) {
    let d = Circle::default();
    let mut e = d.clone();
    let v = c.ver(0, 20); let f = c.field(4);
    if c.on(f, 1) { e.thickness = Sy::sy(&d.thickness, f == 0, ANY); }
    if c.on(f, 2) { e.center = Sy::sy(&d.center, f == 0, ANY); }
    if c.on(f, 3) { e.radius = Sy::sy(&d.radius, f == 0, ANY); }
    if c.on(f, 4) { e.normal = Sy::sy(&d.normal, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "Circle", EntityType::Circle(e), v).and_then(|s| if let EntityType::Circle(x) = s.specific { Some(x) } else { c.chk(false, "Circle: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.thickness.same(&e0.thickness), "Circle.thickness", v);
        c.chk(r.center.same(&e0.center), "Circle.center", v);
        c.chk(r.radius.same(&e0.radius), "Circle.radius", v);
        c.chk(r.normal.same(&e0.normal), "Circle.normal", v);
    }
}
fn rt_e_RotatedDimension(c: &Cx) {
    let d = RotatedDimension::default();
    let mut e = d.clone();
    let v = c.ver(0, 20); let f = c.field(21);
    if c.on(f, 1) { e.insertion_point = Sy::sy(&d.insertion_point, f == 0, ANY); }
    if c.on(f, 2) { e.definition_point_2 = Sy::sy(&d.definition_point_2, f == 0, ANY); }
    if c.on(f, 3) { e.definition_point_3 = Sy::sy(&d.definition_point_3, f == 0, ANY); }
    if c.on(f, 4) { e.rotation_angle = Sy::sy(&d.rotation_angle, f == 0, ANY); }
    if c.on(f, 5) { e.extension_line_angle = Sy::sy(&d.extension_line_angle, f == 0, ANY); }
    if c.on(f, 6) { e.dimension_base.version = Sy::sy(&d.dimension_base.version, f == 0, ANY); }
    if c.on(f, 7) { e.dimension_base.block_name = Sy::sy(&d.dimension_base.block_name, f == 0, ANY); }
    if c.on(f, 8) { e.dimension_base.definition_point_1 = Sy::sy(&d.dimension_base.definition_point_1, f == 0, ANY); }
    if c.on(f, 9) { e.dimension_base.text_mid_point = Sy::sy(&d.dimension_base.text_mid_point, f == 0, ANY); }
    if c.on(f, 10) { e.dimension_base.dimension_type = Sy::sy(&d.dimension_base.dimension_type, f == 0, ANY); }
    if c.on(f, 11) { e.dimension_base.attachment_point = Sy::sy(&d.dimension_base.attachment_point, f == 0, ANY); }
    if c.on(f, 12) { e.dimension_base.text_line_spacing_style = Sy::sy(&d.dimension_base.text_line_spacing_style, f == 0, ANY); }
    if c.on(f, 13) { e.dimension_base.text_line_spacing_factor = Sy::sy(&d.dimension_base.text_line_spacing_factor, f == 0, ANY); }
    if c.on(f, 14) { e.dimension_base.text = Sy::sy(&d.dimension_base.text, f == 0, ANY); }
    if c.on(f, 15) { e.dimension_base.text_rotation_angle = Sy::sy(&d.dimension_base.text_rotation_angle, f == 0, ANY); }
    if c.on(f, 16) { e.dimension_base.horizontal_direction_angle = Sy::sy(&d.dimension_base.horizontal_direction_angle, f == 0, ANY); }
    if c.on(f, 17) { e.dimension_base.normal = Sy::sy(&d.dimension_base.normal, f == 0, ANY); }
    if c.on(f, 18) { e.dimension_base.dimension_style_name = Sy::sy(&d.dimension_base.dimension_style_name, f == 0, ANY); }
    if c.on(f, 19) { e.dimension_base.is_block_reference_referenced_by_this_block_only = Sy::sy(&d.dimension_base.is_block_reference_referenced_by_this_block_only, f == 0, ANY); }
    if c.on(f, 20) { e.dimension_base.is_ordinate_x_type = Sy::sy(&d.dimension_base.is_ordinate_x_type, f == 0, ANY); }
    if c.on(f, 21) { e.dimension_base.is_at_user_defined_location = Sy::sy(&d.dimension_base.is_at_user_defined_location, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "RotatedDimension", EntityType::RotatedDimension(e), v).and_then(|s| if let EntityType::RotatedDimension(x) = s.specific { Some(x) } else { c.chk(false, "RotatedDimension: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.insertion_point.same(&e0.insertion_point), "RotatedDimension.insertion_point", v);
        c.chk(r.definition_point_2.same(&e0.definition_point_2), "RotatedDimension.definition_point_2", v);
        c.chk(r.definition_point_3.same(&e0.definition_point_3), "RotatedDimension.definition_point_3", v);
        c.chk(r.rotation_angle.same(&e0.rotation_angle), "RotatedDimension.rotation_angle", v);
        c.chk(r.extension_line_angle.same(&e0.extension_line_angle), "RotatedDimension.extension_line_angle", v);
        c.chk(r.dimension_base.version.same(if v >= 18 { &e0.dimension_base.version } else { &d.dimension_base.version }), "RotatedDimension.version", v);
        c.chk(r.dimension_base.block_name.same(&e0.dimension_base.block_name), "RotatedDimension.block_name", v);
        c.chk(r.dimension_base.definition_point_1.same(&e0.dimension_base.definition_point_1), "RotatedDimension.definition_point_1", v);
        c.chk(r.dimension_base.text_mid_point.same(&e0.dimension_base.text_mid_point), "RotatedDimension.text_mid_point", v);
        c.chk(r.dimension_base.dimension_type.same(&e0.dimension_base.dimension_type), "RotatedDimension.dimension_type", v);
        c.chk(r.dimension_base.attachment_point.same(if v >= 15 { &e0.dimension_base.attachment_point } else { &d.dimension_base.attachment_point }), "RotatedDimension.attachment_point", v);
        c.chk(r.dimension_base.text_line_spacing_style.same(if v >= 15 { &e0.dimension_base.text_line_spacing_style } else { &d.dimension_base.text_line_spacing_style }), "RotatedDimension.text_line_spacing_style", v);
        c.chk(r.dimension_base.text_line_spacing_factor.same(if v >= 15 { &e0.dimension_base.text_line_spacing_factor } else { &d.dimension_base.text_line_spacing_factor }), "RotatedDimension.text_line_spacing_factor", v);
        c.chk(r.dimension_base.text.same(&e0.dimension_base.text), "RotatedDimension.text", v);
        c.chk(r.dimension_base.text_rotation_angle.same(&e0.dimension_base.text_rotation_angle), "RotatedDimension.text_rotation_angle", v);
        c.chk(r.dimension_base.horizontal_direction_angle.same(&e0.dimension_base.horizontal_direction_angle), "RotatedDimension.horizontal_direction_angle", v);
        c.chk(r.dimension_base.normal.same(&e0.dimension_base.normal), "RotatedDimension.normal", v);
        c.chk(r.dimension_base.dimension_style_name.same(if v >= 12 { &e0.dimension_base.dimension_style_name } else { &d.dimension_base.dimension_style_name }), "RotatedDimension.dimension_style_name", v);
        c.chk(r.dimension_base.is_block_reference_referenced_by_this_block_only.same(&e0.dimension_base.is_block_reference_referenced_by_this_block_only), "RotatedDimension.is_block_reference_referenced_by_this_block_only", v);
        c.chk(r.dimension_base.is_ordinate_x_type.same(&e0.dimension_base.is_ordinate_x_type), "RotatedDimension.is_ordinate_x_type", v);
        c.chk(r.dimension_base.is_at_user_defined_location.same(&e0.dimension_base.is_at_user_defined_location), "RotatedDimension.is_at_user_defined_location", v);
    }
}
fn rt_e_RadialDimension(c: &Cx) {
    let d = RadialDimension::default();
    let mut e = d.clone();
    let v = c.ver(0, 20); let f = c.field(18);
    if c.on(f, 1) { e.definition_point_2 = Sy::sy(&d.definition_point_2, f == 0, ANY); }
    if c.on(f, 2) { e.leader_length = Sy::sy(&d.leader_length, f == 0, ANY); }
    if c.on(f, 3) { e.dimension_base.version = Sy::sy(&d.dimension_base.version, f == 0, ANY); }
    if c.on(f, 4) { e.dimension_base.block_name = Sy::sy(&d.dimension_base.block_name, f == 0, ANY); }
    if c.on(f, 5) { e.dimension_base.definition_point_1 = Sy::sy(&d.dimension_base.definition_point_1, f == 0, ANY); }
    if c.on(f, 6) { e.dimension_base.text_mid_point = Sy::sy(&d.dimension_base.text_mid_point, f == 0, ANY); }
    if c.on(f, 7) { e.dimension_base.dimension_type = Sy::sy(&d.dimension_base.dimension_type, f == 0, ANY); }
    if c.on(f, 8) { e.dimension_base.attachment_point = Sy::sy(&d.dimension_base.attachment_point, f == 0, ANY); }
    if c.on(f, 9) { e.dimension_base.text_line_spacing_style = Sy::sy(&d.dimension_base.text_line_spacing_style, f == 0, ANY); }
    if c.on(f, 10) { e.dimension_base.text_line_spacing_factor = Sy::sy(&d.dimension_base.text_line_spacing_factor, f == 0, ANY); }
    if c.on(f, 11) { e.dimension_base.text = Sy::sy(&d.dimension_base.text, f == 0, ANY); }
    if c.on(f, 12) { e.dimension_base.text_rotation_angle = Sy::sy(&d.dimension_base.text_rotation_angle, f == 0, ANY); }
    if c.on(f, 13) { e.dimension_base.horizontal_direction_angle = Sy::sy(&d.dimension_base.horizontal_direction_angle, f == 0, ANY); }
    if c.on(f, 14) { e.dimension_base.normal = Sy::sy(&d.dimension_base.normal, f == 0, ANY); }
    if c.on(f, 15) { e.dimension_base.dimension_style_name = Sy::sy(&d.dimension_base.dimension_style_name, f == 0, ANY); }
    if c.on(f, 16) { e.dimension_base.is_block_reference_referenced_by_this_block_only = Sy::sy(&d.dimension_base.is_block_reference_referenced_by_this_block_only, f == 0, ANY); }
    if c.on(f, 17) { e.dimension_base.is_ordinate_x_type = Sy::sy(&d.dimension_base.is_ordinate_x_type, f == 0, ANY); }
    if c.on(f, 18) { e.dimension_base.is_at_user_defined_location = Sy::sy(&d.dimension_base.is_at_user_defined_location, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "RadialDimension", EntityType::RadialDimension(e), v).and_then(|s| if let EntityType::RadialDimension(x) = s.specific { Some(x) } else { c.chk(false, "RadialDimension: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.definition_point_2.same(&e0.definition_point_2), "RadialDimension.definition_point_2", v);
        c.chk(r.leader_length.same(&e0.leader_length), "RadialDimension.leader_length", v);
        c.chk(r.dimension_base.version.same(if v >= 18 { &e0.dimension_base.version } else { &d.dimension_base.version }), "RadialDimension.version", v);
        c.chk(r.dimension_base.block_name.same(&e0.dimension_base.block_name), "RadialDimension.block_name", v);
        c.chk(r.dimension_base.definition_point_1.same(&e0.dimension_base.definition_point_1), "RadialDimension.definition_point_1", v);
        c.chk(r.dimension_base.text_mid_point.same(&e0.dimension_base.text_mid_point), "RadialDimension.text_mid_point", v);
        c.chk(r.dimension_base.dimension_type.same(&e0.dimension_base.dimension_type), "RadialDimension.dimension_type", v);
        c.chk(r.dimension_base.attachment_point.same(if v >= 15 { &e0.dimension_base.attachment_point } else { &d.dimension_base.attachment_point }), "RadialDimension.attachment_point", v);
        c.chk(r.dimension_base.text_line_spacing_style.same(if v >= 15 { &e0.dimension_base.text_line_spacing_style } else { &d.dimension_base.text_line_spacing_style }), "RadialDimension.text_line_spacing_style", v);
        c.chk(r.dimension_base.text_line_spacing_factor.same(if v >= 15 { &e0.dimension_base.text_line_spacing_factor } else { &d.dimension_base.text_line_spacing_factor }), "RadialDimension.text_line_spacing_factor", v);
        c.chk(r.dimension_base.text.same(&e0.dimension_base.text), "RadialDimension.text", v);
        c.chk(r.dimension_base.text_rotation_angle.same(&e0.dimension_base.text_rotation_angle), "RadialDimension.text_rotation_angle", v);
        c.chk(r.dimension_base.horizontal_direction_angle.same(&e0.dimension_base.horizontal_direction_angle), "RadialDimension.horizontal_direction_angle", v);
        c.chk(r.dimension_base.normal.same(&e0.dimension_base.normal), "RadialDimension.normal", v);
        c.chk(r.dimension_base.dimension_style_name.same(if v >= 12 { &e0.dimension_base.dimension_style_name } else { &d.dimension_base.dimension_style_name }), "RadialDimension.dimension_style_name", v);
        c.chk(r.dimension_base.is_block_reference_referenced_by_this_block_only.same(&e0.dimension_base.is_block_reference_referenced_by_this_block_only), "RadialDimension.is_block_reference_referenced_by_this_block_only", v);
        c.chk(r.dimension_base.is_ordinate_x_type.same(&e0.dimension_base.is_ordinate_x_type), "RadialDimension.is_ordinate_x_type", v);
        c.chk(r.dimension_base.is_at_user_defined_location.same(&e0.dimension_base.is_at_user_defined_location), "RadialDimension.is_at_user_defined_location", v);
    }
}
fn rt_e_DiameterDimension(c: &Cx) {
    let d = DiameterDimension::default();
    let mut e = d.clone();
    let v = c.ver(0, 20); let f = c.field(18);
    if c.on(f, 1) { e.definition_point_2 = Sy::sy(&d.definition_point_2, f == 0, ANY); }
    if c.on(f, 2) { e.leader_length = Sy::sy(&d.leader_length, f == 0, ANY); }
    if c.on(f, 3) { e.dimension_base.version = Sy::sy(&d.dimension_base.version, f == 0, ANY); }
    if c.on(f, 4) { e.dimension_base.block_name = Sy::sy(&d.dimension_base.block_name, f == 0, ANY); }
    if c.on(f, 5) { e.dimension_base.definition_point_1 = Sy::sy(&d.dimension_base.definition_point_1, f == 0, ANY); }
    if c.on(f, 6) { e.dimension_base.text_mid_point = Sy::sy(&d.dimension_base.text_mid_point, f == 0, ANY); }
    if c.on(f, 7) { e.dimension_base.dimension_type = Sy::sy(&d.dimension_base.dimension_type, f == 0, ANY); }
    if c.on(f, 8) { e.dimension_base.attachment_point = Sy::sy(&d.dimension_base.attachment_point, f == 0, ANY); }
    if c.on(f, 9) { e.dimension_base.text_line_spacing_style = Sy::sy(&d.dimension_base.text_line_spacing_style, f == 0, ANY); }
    if c.on(f, 10) { e.dimension_base.text_line_spacing_factor = Sy::sy(&d.dimension_base.text_line_spacing_factor, f == 0, ANY); }
    if c.on(f, 11) { e.dimension_base.text = Sy::sy(&d.dimension_base.text, f == 0, ANY); }
    if c.on(f, 12) { e.dimension_base.text_rotation_angle = Sy::sy(&d.dimension_base.text_rotation_angle, f == 0, ANY); }
    if c.on(f, 13) { e.dimension_base.horizontal_direction_angle = Sy::sy(&d.dimension_base.horizontal_direction_angle, f == 0, ANY); }
    if c.on(f, 14) { e.dimension_base.normal = Sy::sy(&d.dimension_base.normal, f == 0, ANY); }
    if c.on(f, 15) { e.dimension_base.dimension_style_name = Sy::sy(&d.dimension_base.dimension_style_name, f == 0, ANY); }
    if c.on(f, 16) { e.dimension_base.is_block_reference_referenced_by_this_block_only = Sy::sy(&d.dimension_base.is_block_reference_referenced_by_this_block_only, f == 0, ANY); }
    if c.on(f, 17) { e.dimension_base.is_ordinate_x_type = Sy::sy(&d.dimension_base.is_ordinate_x_type, f == 0, ANY); }
    if c.on(f, 18) { e.dimension_base.is_at_user_defined_location = Sy::sy(&d.dimension_base.is_at_user_defined_location, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "DiameterDimension", EntityType::DiameterDimension(e), v).and_then(|s| if let EntityType::DiameterDimension(x) = s.specific { Some(x) } else { c.chk(false, "DiameterDimension: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.definition_point_2.same(&e0.definition_point_2), "DiameterDimension.definition_point_2", v);
        c.chk(r.leader_length.same(&e0.leader_length), "DiameterDimension.leader_length", v);
        c.chk(r.dimension_base.version.same(if v >= 18 { &e0.dimension_base.version } else { &d.dimension_base.version }), "DiameterDimension.version", v);
        c.chk(r.dimension_base.block_name.same(&e0.dimension_base.block_name), "DiameterDimension.block_name", v);
        c.chk(r.dimension_base.definition_point_1.same(&e0.dimension_base.definition_point_1), "DiameterDimension.definition_point_1", v);
        c.chk(r.dimension_base.text_mid_point.same(&e0.dimension_base.text_mid_point), "DiameterDimension.text_mid_point", v);
        c.chk(r.dimension_base.dimension_type.same(&e0.dimension_base.dimension_type), "DiameterDimension.dimension_type", v);
        c.chk(r.dimension_base.attachment_point.same(if v >= 15 { &e0.dimension_base.attachment_point } else { &d.dimension_base.attachment_point }), "DiameterDimension.attachment_point", v);
        c.chk(r.dimension_base.text_line_spacing_style.same(if v >= 15 { &e0.dimension_base.text_line_spacing_style } else { &d.dimension_base.text_line_spacing_style }), "DiameterDimension.text_line_spacing_style", v);
        c.chk(r.dimension_base.text_line_spacing_factor.same(if v >= 15 { &e0.dimension_base.text_line_spacing_factor } else { &d.dimension_base.text_line_spacing_factor }), "DiameterDimension.text_line_spacing_factor", v);
        c.chk(r.dimension_base.text.same(&e0.dimension_base.text), "DiameterDimension.text", v);
        c.chk(r.dimension_base.text_rotation_angle.same(&e0.dimension_base.text_rotation_angle), "DiameterDimension.text_rotation_angle", v);
        c.chk(r.dimension_base.horizontal_direction_angle.same(&e0.dimension_base.horizontal_direction_angle), "DiameterDimension.horizontal_direction_angle", v);
        c.chk(r.dimension_base.normal.same(&e0.dimension_base.normal), "DiameterDimension.normal", v);
        c.chk(r.dimension_base.dimension_style_name.same(if v >= 12 { &e0.dimension_base.dimension_style_name } else { &d.dimension_base.dimension_style_name }), "DiameterDimension.dimension_style_name", v);
        c.chk(r.dimension_base.is_block_reference_referenced_by_this_block_only.same(&e0.dimension_base.is_block_reference_referenced_by_this_block_only), "DiameterDimension.is_block_reference_referenced_by_this_block_only", v);
        c.chk(r.dimension_base.is_ordinate_x_type.same(&e0.dimension_base.is_ordinate_x_type), "DiameterDimension.is_ordinate_x_type", v);
        c.chk(r.dimension_base.is_at_user_defined_location.same(&e0.dimension_base.is_at_user_defined_location), "DiameterDimension.is_at_user_defined_location", v);
    }
}
fn rt_e_AngularThreePointDimension(c: &Cx) {
    let d = AngularThreePointDimension::default();
    let mut e = d.clone();
    let v = c.ver(0, 20); let f = c.field(20);
    if c.on(f, 1) { e.definition_point_2 = Sy::sy(&d.definition_point_2, f == 0, ANY); }
    if c.on(f, 2) { e.definition_point_3 = Sy::sy(&d.definition_point_3, f == 0, ANY); }
    if c.on(f, 3) { e.definition_point_4 = Sy::sy(&d.definition_point_4, f == 0, ANY); }
    if c.on(f, 4) { e.definition_point_5 = Sy::sy(&d.definition_point_5, f == 0, ANY); }
    if c.on(f, 5) { e.dimension_base.version = Sy::sy(&d.dimension_base.version, f == 0, ANY); }
    if c.on(f, 6) { e.dimension_base.block_name = Sy::sy(&d.dimension_base.block_name, f == 0, ANY); }
    if c.on(f, 7) { e.dimension_base.definition_point_1 = Sy::sy(&d.dimension_base.definition_point_1, f == 0, ANY); }
    if c.on(f, 8) { e.dimension_base.text_mid_point = Sy::sy(&d.dimension_base.text_mid_point, f == 0, ANY); }
    if c.on(f, 9) { e.dimension_base.dimension_type = Sy::sy(&d.dimension_base.dimension_type, f == 0, ANY); }
    if c.on(f, 10) { e.dimension_base.attachment_point = Sy::sy(&d.dimension_base.attachment_point, f == 0, ANY); }
    if c.on(f, 11) { e.dimension_base.text_line_spacing_style = Sy::sy(&d.dimension_base.text_line_spacing_style, f == 0, ANY); }
    if c.on(f, 12) { e.dimension_base.text_line_spacing_factor = Sy::sy(&d.dimension_base.text_line_spacing_factor, f == 0, ANY); }
    if c.on(f, 13) { e.dimension_base.text = Sy::sy(&d.dimension_base.text, f == 0, ANY); }
    if c.on(f, 14) { e.dimension_base.text_rotation_angle = Sy::sy(&d.dimension_base.text_rotation_angle, f == 0, ANY); }
    if c.on(f, 15) { e.dimension_base.horizontal_direction_angle = Sy::sy(&d.dimension_base.horizontal_direction_angle, f == 0, ANY); }
    if c.on(f, 16) { e.dimension_base.normal = Sy::sy(&d.dimension_base.normal, f == 0, ANY); }
    if c.on(f, 17) { e.dimension_base.dimension_style_name = Sy::sy(&d.dimension_base.dimension_style_name, f == 0, ANY); }
    if c.on(f, 18) { e.dimension_base.is_block_reference_referenced_by_this_block_only = Sy::sy(&d.dimension_base.is_block_reference_referenced_by_this_block_only, f == 0, ANY); }
    if c.on(f, 19) { e.dimension_base.is_ordinate_x_type = Sy::sy(&d.dimension_base.is_ordinate_x_type, f == 0, ANY); }
    if c.on(f, 20) { e.dimension_base.is_at_user_defined_location = Sy::sy(&d.dimension_base.is_at_user_defined_location, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "AngularThreePointDimension", EntityType::AngularThreePointDimension(e), v).and_then(|s| if let EntityType::AngularThreePointDimension(x) = s.specific { Some(x) } else { c.chk(false, "AngularThreePointDimension: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.definition_point_2.same(&e0.definition_point_2), "AngularThreePointDimension.definition_point_2", v);
        c.chk(r.definition_point_3.same(&e0.definition_point_3), "AngularThreePointDimension.definition_point_3", v);
        c.chk(r.definition_point_4.same(&e0.definition_point_4), "AngularThreePointDimension.definition_point_4", v);
        c.chk(r.definition_point_5.same(&e0.definition_point_5), "AngularThreePointDimension.definition_point_5", v);
        c.chk(r.dimension_base.version.same(if v >= 18 { &e0.dimension_base.version } else { &d.dimension_base.version }), "AngularThreePointDimension.version", v);
        c.chk(r.dimension_base.block_name.same(&e0.dimension_base.block_name), "AngularThreePointDimension.block_name", v);
        c.chk(r.dimension_base.definition_point_1.same(&e0.dimension_base.definition_point_1), "AngularThreePointDimension.definition_point_1", v);
        c.chk(r.dimension_base.text_mid_point.same(&e0.dimension_base.text_mid_point), "AngularThreePointDimension.text_mid_point", v);
        c.chk(r.dimension_base.dimension_type.same(&e0.dimension_base.dimension_type), "AngularThreePointDimension.dimension_type", v);
        c.chk(r.dimension_base.attachment_point.same(if v >= 15 { &e0.dimension_base.attachment_point } else { &d.dimension_base.attachment_point }), "AngularThreePointDimension.attachment_point", v);
        c.chk(r.dimension_base.text_line_spacing_style.same(if v >= 15 { &e0.dimension_base.text_line_spacing_style } else { &d.dimension_base.text_line_spacing_style }), "AngularThreePointDimension.text_line_spacing_style", v);
        c.chk(r.dimension_base.text_line_spacing_factor.same(if v >= 15 { &e0.dimension_base.text_line_spacing_factor } else { &d.dimension_base.text_line_spacing_factor }), "AngularThreePointDimension.text_line_spacing_factor", v);
        c.chk(r.dimension_base.text.same(&e0.dimension_base.text), "AngularThreePointDimension.text", v);
        c.chk(r.dimension_base.text_rotation_angle.same(&e0.dimension_base.text_rotation_angle), "AngularThreePointDimension.text_rotation_angle", v);
        c.chk(r.dimension_base.horizontal_direction_angle.same(&e0.dimension_base.horizontal_direction_angle), "AngularThreePointDimension.horizontal_direction_angle", v);
        c.chk(r.dimension_base.normal.same(&e0.dimension_base.normal), "AngularThreePointDimension.normal", v);
        c.chk(r.dimension_base.dimension_style_name.same(if v >= 12 { &e0.dimension_base.dimension_style_name } else { &d.dimension_base.dimension_style_name }), "AngularThreePointDimension.dimension_style_name", v);
        c.chk(r.dimension_base.is_block_reference_referenced_by_this_block_only.same(&e0.dimension_base.is_block_reference_referenced_by_this_block_only), "AngularThreePointDimension.is_block_reference_referenced_by_this_block_only", v);
        c.chk(r.dimension_base.is_ordinate_x_type.same(&e0.dimension_base.is_ordinate_x_type), "AngularThreePointDimension.is_ordinate_x_type", v);
        c.chk(r.dimension_base.is_at_user_defined_location.same(&e0.dimension_base.is_at_user_defined_location), "AngularThreePointDimension.is_at_user_defined_location", v);
    }
}
fn rt_e_OrdinateDimension(c: &Cx) {
    let d = OrdinateDimension::default();
    let mut e = d.clone();
    let v = c.ver(0, 20); let f = c.field(18);
    if c.on(f, 1) { e.definition_point_2 = Sy::sy(&d.definition_point_2, f == 0, ANY); }
    if c.on(f, 2) { e.definition_point_3 = Sy::sy(&d.definition_point_3, f == 0, ANY); }
    if c.on(f, 3) { e.dimension_base.version = Sy::sy(&d.dimension_base.version, f == 0, ANY); }
    if c.on(f, 4) { e.dimension_base.block_name = Sy::sy(&d.dimension_base.block_name, f == 0, ANY); }
    if c.on(f, 5) { e.dimension_base.definition_point_1 = Sy::sy(&d.dimension_base.definition_point_1, f == 0, ANY); }
    if c.on(f, 6) { e.dimension_base.text_mid_point = Sy::sy(&d.dimension_base.text_mid_point, f == 0, ANY); }
    if c.on(f, 7) { e.dimension_base.dimension_type = Sy::sy(&d.dimension_base.dimension_type, f == 0, ANY); }
    if c.on(f, 8) { e.dimension_base.attachment_point = Sy::sy(&d.dimension_base.attachment_point, f == 0, ANY); }
    if c.on(f, 9) { e.dimension_base.text_line_spacing_style = Sy::sy(&d.dimension_base.text_line_spacing_style, f == 0, ANY); }
    if c.on(f, 10) { e.dimension_base.text_line_spacing_factor = Sy::sy(&d.dimension_base.text_line_spacing_factor, f == 0, ANY); }
    if c.on(f, 11) { e.dimension_base.text = Sy::sy(&d.dimension_base.text, f == 0, ANY); }
    if c.on(f, 12) { e.dimension_base.text_rotation_angle = Sy::sy(&d.dimension_base.text_rotation_angle, f == 0, ANY); }
    if c.on(f, 13) { e.dimension_base.horizontal_direction_angle = Sy::sy(&d.dimension_base.horizontal_direction_angle, f == 0, ANY); }
    if c.on(f, 14) { e.dimension_base.normal = Sy::sy(&d.dimension_base.normal, f == 0, ANY); }
    if c.on(f, 15) { e.dimension_base.dimension_style_name = Sy::sy(&d.dimension_base.dimension_style_name, f == 0, ANY); }
    if c.on(f, 16) { e.dimension_base.is_block_reference_referenced_by_this_block_only = Sy::sy(&d.dimension_base.is_block_reference_referenced_by_this_block_only, f == 0, ANY); }
    if c.on(f, 17) { e.dimension_base.is_ordinate_x_type = Sy::sy(&d.dimension_base.is_ordinate_x_type, f == 0, ANY); }
    if c.on(f, 18) { e.dimension_base.is_at_user_defined_location = Sy::sy(&d.dimension_base.is_at_user_defined_location, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "OrdinateDimension", EntityType::OrdinateDimension(e), v).and_then(|s| if let EntityType::OrdinateDimension(x) = s.specific { Some(x) } else { c.chk(false, "OrdinateDimension: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.definition_point_2.same(&e0.definition_point_2), "OrdinateDimension.definition_point_2", v);
        c.chk(r.definition_point_3.same(&e0.definition_point_3), "OrdinateDimension.definition_point_3", v);
        c.chk(r.dimension_base.version.same(if v >= 18 { &e0.dimension_base.version } else { &d.dimension_base.version }), "OrdinateDimension.version", v);
        c.chk(r.dimension_base.block_name.same(&e0.dimension_base.block_name), "OrdinateDimension.block_name", v);
        c.chk(r.dimension_base.definition_point_1.same(&e0.dimension_base.definition_point_1), "OrdinateDimension.definition_point_1", v);
        c.chk(r.dimension_base.text_mid_point.same(&e0.dimension_base.text_mid_point), "OrdinateDimension.text_mid_point", v);
        c.chk(r.dimension_base.dimension_type.same(&e0.dimension_base.dimension_type), "OrdinateDimension.dimension_type", v);
        c.chk(r.dimension_base.attachment_point.same(if v >= 15 { &e0.dimension_base.attachment_point } else { &d.dimension_base.attachment_point }), "OrdinateDimension.attachment_point", v);
        c.chk(r.dimension_base.text_line_spacing_style.same(if v >= 15 { &e0.dimension_base.text_line_spacing_style } else { &d.dimension_base.text_line_spacing_style }), "OrdinateDimension.text_line_spacing_style", v);
        c.chk(r.dimension_base.text_line_spacing_factor.same(if v >= 15 { &e0.dimension_base.text_line_spacing_factor } else { &d.dimension_base.text_line_spacing_factor }), "OrdinateDimension.text_line_spacing_factor", v);
        c.chk(r.dimension_base.text.same(&e0.dimension_base.text), "OrdinateDimension.text", v);
        c.chk(r.dimension_base.text_rotation_angle.same(&e0.dimension_base.text_rotation_angle), "OrdinateDimension.text_rotation_angle", v);
        c.chk(r.dimension_base.horizontal_direction_angle.same(&e0.dimension_base.horizontal_direction_angle), "OrdinateDimension.horizontal_direction_angle", v);
        c.chk(r.dimension_base.normal.same(&e0.dimension_base.normal), "OrdinateDimension.normal", v);
        c.chk(r.dimension_base.dimension_style_name.same(if v >= 12 { &e0.dimension_base.dimension_style_name } else { &d.dimension_base.dimension_style_name }), "OrdinateDimension.dimension_style_name", v);
        c.chk(r.dimension_base.is_block_reference_referenced_by_this_block_only.same(&e0.dimension_base.is_block_reference_referenced_by_this_block_only), "OrdinateDimension.is_block_reference_referenced_by_this_block_only", v);
        c.chk(r.dimension_base.is_ordinate_x_type.same(&e0.dimension_base.is_ordinate_x_type), "OrdinateDimension.is_ordinate_x_type", v);
        c.chk(r.dimension_base.is_at_user_defined_location.same(&e0.dimension_base.is_at_user_defined_location), "OrdinateDimension.is_at_user_defined_location", v);
    }
}
fn rt_e_Ellipse(c: &Cx) {
    let d = Ellipse::default();
    let mut e = d.clone();
    let v = c.ver(13, 20); let f = c.field(6);
    if c.on(f, 1) { e.center = Sy::sy(&d.center, f == 0, ANY); }
    if c.on(f, 2) { e.major_axis = Sy::sy(&d.major_axis, f == 0, ANY); }
    if c.on(f, 3) { e.normal = Sy::sy(&d.normal, f == 0, ANY); }
    if c.on(f, 4) { e.minor_axis_ratio = Sy::sy(&d.minor_axis_ratio, f == 0, ANY); }
    if c.on(f, 5) { e.start_parameter = Sy::sy(&d.start_parameter, f == 0, ANY); }
    if c.on(f, 6) { e.end_parameter = Sy::sy(&d.end_parameter, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "Ellipse", EntityType::Ellipse(e), v).and_then(|s| if let EntityType::Ellipse(x) = s.specific { Some(x) } else { c.chk(false, "Ellipse: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.center.same(&e0.center), "Ellipse.center", v);
        c.chk(r.major_axis.same(&e0.major_axis), "Ellipse.major_axis", v);
        c.chk(r.normal.same(&e0.normal), "Ellipse.normal", v);
        c.chk(r.minor_axis_ratio.same(&e0.minor_axis_ratio), "Ellipse.minor_axis_ratio", v);
        c.chk(r.start_parameter.same(&e0.start_parameter), "Ellipse.start_parameter", v);
        c.chk(r.end_parameter.same(&e0.end_parameter), "Ellipse.end_parameter", v);
    }
}
fn rt_e_Helix(c: &Cx) {
    let d = Helix::default();
    let mut e = d.clone();
    let v = c.ver(17, 20); let f = c.field(10);
    if c.on(f, 1) { e.major_release_number = Sy::sy(&d.major_release_number, f == 0, ANY); }
    if c.on(f, 2) { e.maintainence_release_number = Sy::sy(&d.maintainence_release_number, f == 0, ANY); }
    if c.on(f, 3) { e.axis_base_point = Sy::sy(&d.axis_base_point, f == 0, ANY); }
    if c.on(f, 4) { e.start_point = Sy::sy(&d.start_point, f == 0, ANY); }
    if c.on(f, 5) { e.axis_vector = Sy::sy(&d.axis_vector, f == 0, ANY); }
    if c.on(f, 6) { e.radius = Sy::sy(&d.radius, f == 0, ANY); }
    if c.on(f, 7) { e.number_of_turns = Sy::sy(&d.number_of_turns, f == 0, ANY); }
    if c.on(f, 8) { e.turn_height = Sy::sy(&d.turn_height, f == 0, ANY); }
    if c.on(f, 9) { e.is_right_handed = Sy::sy(&d.is_right_handed, f == 0, ANY); }
    if c.on(f, 10) { e.constraint = Sy::sy(&d.constraint, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "Helix", EntityType::Helix(e), v).and_then(|s| if let EntityType::Helix(x) = s.specific { Some(x) } else { c.chk(false, "Helix: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.major_release_number.same(&e0.major_release_number), "Helix.major_release_number", v);
        c.chk(r.maintainence_release_number.same(&e0.maintainence_release_number), "Helix.maintainence_release_number", v);
        c.chk(r.axis_base_point.same(&e0.axis_base_point), "Helix.axis_base_point", v);
        c.chk(r.start_point.same(&e0.start_point), "Helix.start_point", v);
        c.chk(r.axis_vector.same(&e0.axis_vector), "Helix.axis_vector", v);
        c.chk(r.radius.same(&e0.radius), "Helix.radius", v);
        c.chk(r.number_of_turns.same(&e0.number_of_turns), "Helix.number_of_turns", v);
        c.chk(r.turn_height.same(&e0.turn_height), "Helix.turn_height", v);
        c.chk(r.is_right_handed.same(&e0.is_right_handed), "Helix.is_right_handed", v);
        c.chk(r.constraint.same(&e0.constraint), "Helix.constraint", v);
    }
}
fn rt_e_Image(c: &Cx) {
    let d = Image::default();
    let mut e = d.clone();
    let v = c.ver(14, 20); let f = c.field(16);
    if c.on(f, 1) { e.class_version = Sy::sy(&d.class_version, f == 0, ANY); }
    if c.on(f, 2) { e.location = Sy::sy(&d.location, f == 0, ANY); }
    if c.on(f, 3) { e.u_vector = Sy::sy(&d.u_vector, f == 0, ANY); }
    if c.on(f, 4) { e.v_vector = Sy::sy(&d.v_vector, f == 0, ANY); }
    if c.on(f, 5) { e.image_size = Sy::sy(&d.image_size, f == 0, XY); }
    if c.on(f, 6) { e.image_def_reference = Sy::sy(&d.image_def_reference, f == 0, ANY); }
    if c.on(f, 7) { e.display_options_flags = Sy::sy(&d.display_options_flags, f == 0, I16); }
    if c.on(f, 8) { e.use_clipping = Sy::sy(&d.use_clipping, f == 0, ANY); }
    if c.on(f, 9) { e.brightness = Sy::sy(&d.brightness, f == 0, ANY); }
    if c.on(f, 10) { e.contrast = Sy::sy(&d.contrast, f == 0, ANY); }
    if c.on(f, 11) { e.fade = Sy::sy(&d.fade, f == 0, ANY); }
    if c.on(f, 12) { e.image_def_reactor_reference = Sy::sy(&d.image_def_reactor_reference, f == 0, ANY); }
    if c.on(f, 13) { e.clipping_type = Sy::sy(&d.clipping_type, f == 0, ANY); }
    if c.on(f, 14) { e.clipping_vertex_count = Sy::sy(&d.clipping_vertex_count, f == 0, ANY); }
    if c.on(f, 15) { e.clipping_vertices = Sy::sy(&d.clipping_vertices, f == 0, XY); }
    if c.on(f, 16) { e.is_inside_clipping = Sy::sy(&d.is_inside_clipping, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "Image", EntityType::Image(e), v).and_then(|s| if let EntityType::Image(x) = s.specific { Some(x) } else { c.chk(false, "Image: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.class_version.same(&e0.class_version), "Image.class_version", v);
        c.chk(r.location.same(&e0.location), "Image.location", v);
        c.chk(r.u_vector.same(&e0.u_vector), "Image.u_vector", v);
        c.chk(r.v_vector.same(&e0.v_vector), "Image.v_vector", v);
        c.chk(r.image_size.same(&e0.image_size), "Image.image_size", v);
        c.chk(r.image_def_reference.same(&e0.image_def_reference), "Image.image_def_reference", v);
        c.chk(r.display_options_flags.same(&e0.display_options_flags), "Image.display_options_flags", v);
        c.chk(r.use_clipping.same(&e0.use_clipping), "Image.use_clipping", v);
        c.chk(r.brightness.same(&e0.brightness), "Image.brightness", v);
        c.chk(r.contrast.same(&e0.contrast), "Image.contrast", v);
        c.chk(r.fade.same(&e0.fade), "Image.fade", v);
        c.chk(r.image_def_reactor_reference.same(&e0.image_def_reactor_reference), "Image.image_def_reactor_reference", v);
        c.chk(r.clipping_type.same(&e0.clipping_type), "Image.clipping_type", v);
        c.chk(r.clipping_vertex_count.same(&(e0.clipping_vertices.len() as i32)), "Image.clipping_vertex_count", v);
        c.chk(r.clipping_vertices.same(&e0.clipping_vertices), "Image.clipping_vertices", v);
        c.chk(r.is_inside_clipping.same(if v >= 18 { &e0.is_inside_clipping } else { &d.is_inside_clipping }), "Image.is_inside_clipping", v);
    }
}
fn rt_e_Insert(c: &Cx) {
    let d = Insert::default();
    let mut e = d.clone();
    let v = c.ver(0, 20); let f = c.field(11);
    if c.on(f, 1) { e.name = Sy::sy(&d.name, f == 0, ANY); }
    if c.on(f, 2) { e.location = Sy::sy(&d.location, f == 0, ANY); }
    if c.on(f, 3) { e.x_scale_factor = Sy::sy(&d.x_scale_factor, f == 0, ANY); }
    if c.on(f, 4) { e.y_scale_factor = Sy::sy(&d.y_scale_factor, f == 0, ANY); }
    if c.on(f, 5) { e.z_scale_factor = Sy::sy(&d.z_scale_factor, f == 0, ANY); }
    if c.on(f, 6) { e.rotation = Sy::sy(&d.rotation, f == 0, ANY); }
    if c.on(f, 7) { e.column_count = Sy::sy(&d.column_count, f == 0, ANY); }
    if c.on(f, 8) { e.row_count = Sy::sy(&d.row_count, f == 0, ANY); }
    if c.on(f, 9) { e.column_spacing = Sy::sy(&d.column_spacing, f == 0, ANY); }
    if c.on(f, 10) { e.row_spacing = Sy::sy(&d.row_spacing, f == 0, ANY); }
    if c.on(f, 11) { e.extrusion_direction = Sy::sy(&d.extrusion_direction, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "Insert", EntityType::Insert(e), v).and_then(|s| if let EntityType::Insert(x) = s.specific { Some(x) } else { c.chk(false, "Insert: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.name.same(&e0.name), "Insert.name", v);
        c.chk(r.location.same(&e0.location), "Insert.location", v);
        c.chk(r.x_scale_factor.same(&e0.x_scale_factor), "Insert.x_scale_factor", v);
        c.chk(r.y_scale_factor.same(&e0.y_scale_factor), "Insert.y_scale_factor", v);
        c.chk(r.z_scale_factor.same(&e0.z_scale_factor), "Insert.z_scale_factor", v);
        c.chk(r.rotation.same(&e0.rotation), "Insert.rotation", v);
        c.chk(r.column_count.same(&e0.column_count), "Insert.column_count", v);
        c.chk(r.row_count.same(&e0.row_count), "Insert.row_count", v);
        c.chk(r.column_spacing.same(&e0.column_spacing), "Insert.column_spacing", v);
        c.chk(r.row_spacing.same(&e0.row_spacing), "Insert.row_spacing", v);
        c.chk(r.extrusion_direction.same(if v >= 12 { &e0.extrusion_direction } else { &d.extrusion_direction }), "Insert.extrusion_direction", v);
    }
}
fn rt_e_Leader(c: &Cx) {
    let d = Leader::default();
    let mut e = d.clone();
    let v = c.ver(13, 20); let f = c.field(16);
    if c.on(f, 1) { e.dimension_style_name = Sy::sy(&d.dimension_style_name, f == 0, ANY); }
    if c.on(f, 2) { e.use_arrowheads = Sy::sy(&d.use_arrowheads, f == 0, ANY); }
    if c.on(f, 3) { e.path_type = Sy::sy(&d.path_type, f == 0, ANY); }
    if c.on(f, 4) { e.annotation_type = Sy::sy(&d.annotation_type, f == 0, ANY); }
    if c.on(f, 5) { e.hookline_direction = Sy::sy(&d.hookline_direction, f == 0, ANY); }
    if c.on(f, 6) { e.use_hookline = Sy::sy(&d.use_hookline, f == 0, ANY); }
    if c.on(f, 7) { e.text_annotation_height = Sy::sy(&d.text_annotation_height, f == 0, ANY); }
    if c.on(f, 8) { e.text_annotation_width = Sy::sy(&d.text_annotation_width, f == 0, ANY); }
    if c.on(f, 9) { e.vertex_count = Sy::sy(&d.vertex_count, f == 0, I16); }
    if c.on(f, 10) { e.vertices = Sy::sy(&d.vertices, f == 0, ANY); }
    if c.on(f, 11) { e.override_color = Sy::sy(&d.override_color, f == 0, ANY); }
    if c.on(f, 12) { e.associated_annotation_reference = Sy::sy(&d.associated_annotation_reference, f == 0, ANY); }
    if c.on(f, 13) { e.normal = Sy::sy(&d.normal, f == 0, ANY); }
    if c.on(f, 14) { e.right = Sy::sy(&d.right, f == 0, ANY); }
    if c.on(f, 15) { e.block_offset = Sy::sy(&d.block_offset, f == 0, ANY); }
    if c.on(f, 16) { e.annotation_offset = Sy::sy(&d.annotation_offset, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "Leader", EntityType::Leader(e), v).and_then(|s| if let EntityType::Leader(x) = s.specific { Some(x) } else { c.chk(false, "Leader: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.dimension_style_name.same(&e0.dimension_style_name), "Leader.dimension_style_name", v);
        c.chk(r.use_arrowheads.same(&e0.use_arrowheads), "Leader.use_arrowheads", v);
        c.chk(r.path_type.same(&e0.path_type), "Leader.path_type", v);
        c.chk(r.annotation_type.same(&e0.annotation_type), "Leader.annotation_type", v);
        c.chk(r.hookline_direction.same(&e0.hookline_direction), "Leader.hookline_direction", v);
        c.chk(r.use_hookline.same(&e0.use_hookline), "Leader.use_hookline", v);
        c.chk(r.text_annotation_height.same(&e0.text_annotation_height), "Leader.text_annotation_height", v);
        c.chk(r.text_annotation_width.same(&e0.text_annotation_width), "Leader.text_annotation_width", v);
        c.chk(r.vertex_count.same(&(e0.vertices.len() as i32)), "Leader.vertex_count", v);
        c.chk(r.vertices.same(&e0.vertices), "Leader.vertices", v);
        c.chk(r.override_color.same(&e0.override_color), "Leader.override_color", v);
        c.chk(r.associated_annotation_reference.same(&e0.associated_annotation_reference), "Leader.associated_annotation_reference", v);
        c.chk(r.normal.same(&e0.normal), "Leader.normal", v);
        c.chk(r.right.same(&e0.right), "Leader.right", v);
        c.chk(r.block_offset.same(&e0.block_offset), "Leader.block_offset", v);
        c.chk(r.annotation_offset.same(if v >= 14 { &e0.annotation_offset } else { &d.annotation_offset }), "Leader.annotation_offset", v);
    }
}
fn rt_e_Light(c: &Cx) {
    let d = Light::default();
    let mut e = d.clone();
    let v = c.ver(17, 20); let f = c.field(18);
    if c.on(f, 1) { e.version_number = Sy::sy(&d.version_number, f == 0, ANY); }
    if c.on(f, 2) { e.name = Sy::sy(&d.name, f == 0, ANY); }
    if c.on(f, 3) { e.light_type = Sy::sy(&d.light_type, f == 0, ANY); }
    if c.on(f, 4) { e.is_active = Sy::sy(&d.is_active, f == 0, ANY); }
    if c.on(f, 5) { e.plot_glyph = Sy::sy(&d.plot_glyph, f == 0, ANY); }
    if c.on(f, 6) { e.intensity = Sy::sy(&d.intensity, f == 0, ANY); }
    if c.on(f, 7) { e.position = Sy::sy(&d.position, f == 0, ANY); }
    if c.on(f, 8) { e.target_location = Sy::sy(&d.target_location, f == 0, ANY); }
    if c.on(f, 9) { e.attentuation_type = Sy::sy(&d.attentuation_type, f == 0, ANY); }
    if c.on(f, 10) { e.use_attenuation_limits = Sy::sy(&d.use_attenuation_limits, f == 0, ANY); }
    if c.on(f, 11) { e.attenuation_start_limit = Sy::sy(&d.attenuation_start_limit, f == 0, ANY); }
    if c.on(f, 12) { e.attenuation_end_limit = Sy::sy(&d.attenuation_end_limit, f == 0, ANY); }
    if c.on(f, 13) { e.hotspot_angle = Sy::sy(&d.hotspot_angle, f == 0, ANY); }
    if c.on(f, 14) { e.falloff_angle = Sy::sy(&d.falloff_angle, f == 0, ANY); }
    if c.on(f, 15) { e.cast_shadows = Sy::sy(&d.cast_shadows, f == 0, ANY); }
    if c.on(f, 16) { e.shadow_type = Sy::sy(&d.shadow_type, f == 0, ANY); }
    if c.on(f, 17) { e.shadow_map_size = Sy::sy(&d.shadow_map_size, f == 0, ANY); }
    if c.on(f, 18) { e.shadow_map_softness = Sy::sy(&d.shadow_map_softness, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "Light", EntityType::Light(e), v).and_then(|s| if let EntityType::Light(x) = s.specific { Some(x) } else { c.chk(false, "Light: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.version_number.same(&e0.version_number), "Light.version_number", v);
        c.chk(r.name.same(&e0.name), "Light.name", v);
        c.chk(r.light_type.same(&e0.light_type), "Light.light_type", v);
        c.chk(r.is_active.same(&e0.is_active), "Light.is_active", v);
        c.chk(r.plot_glyph.same(&e0.plot_glyph), "Light.plot_glyph", v);
        c.chk(r.intensity.same(&e0.intensity), "Light.intensity", v);
        c.chk(r.position.same(&e0.position), "Light.position", v);
        c.chk(r.target_location.same(&e0.target_location), "Light.target_location", v);
        c.chk(r.attentuation_type.same(&e0.attentuation_type), "Light.attentuation_type", v);
        c.chk(r.use_attenuation_limits.same(&e0.use_attenuation_limits), "Light.use_attenuation_limits", v);
        c.chk(r.attenuation_start_limit.same(&e0.attenuation_start_limit), "Light.attenuation_start_limit", v);
        c.chk(r.attenuation_end_limit.same(&e0.attenuation_end_limit), "Light.attenuation_end_limit", v);
        c.chk(r.hotspot_angle.same(&e0.hotspot_angle), "Light.hotspot_angle", v);
        c.chk(r.falloff_angle.same(&e0.falloff_angle), "Light.falloff_angle", v);
        c.chk(r.cast_shadows.same(&e0.cast_shadows), "Light.cast_shadows", v);
        c.chk(r.shadow_type.same(&e0.shadow_type), "Light.shadow_type", v);
        c.chk(r.shadow_map_size.same(&e0.shadow_map_size), "Light.shadow_map_size", v);
        c.chk(r.shadow_map_softness.same(&e0.shadow_map_softness), "Light.shadow_map_softness", v);
    }
}
fn rt_e_Line(c: &Cx) {
    let d = Line::default();
    let mut e = d.clone();
    let v = c.ver(0, 20); let f = c.field(4);
    if c.on(f, 1) { e.thickness = Sy::sy(&d.thickness, f == 0, ANY); }
    if c.on(f, 2) { e.p1 = Sy::sy(&d.p1, f == 0, ANY); }
    if c.on(f, 3) { e.p2 = Sy::sy(&d.p2, f == 0, ANY); }
    if c.on(f, 4) { e.extrusion_direction = Sy::sy(&d.extrusion_direction, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "Line", EntityType::Line(e), v).and_then(|s| if let EntityType::Line(x) = s.specific { Some(x) } else { c.chk(false, "Line: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.thickness.same(&e0.thickness), "Line.thickness", v);
        c.chk(r.p1.same(&e0.p1), "Line.p1", v);
        c.chk(r.p2.same(&e0.p2), "Line.p2", v);
        c.chk(r.extrusion_direction.same(&e0.extrusion_direction), "Line.extrusion_direction", v);
    }
}
fn rt_e_LwPolyline(c: &Cx) {
    let d = LwPolyline::default();
    let mut e = d.clone();
    let v = c.ver(14, 20); let f = c.field(5);
    if c.on(f, 1) { e.flags = Sy::sy(&d.flags, f == 0, I16); }
    if c.on(f, 2) { e.constant_width = Sy::sy(&d.constant_width, f == 0, ANY); }
    if c.on(f, 3) { e.thickness = Sy::sy(&d.thickness, f == 0, ANY); }
    if c.on(f, 4) { e.vertices = Sy::sy(&d.vertices, f == 0, ANY); }
    if c.on(f, 5) { e.extrusion_direction = Sy::sy(&d.extrusion_direction, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "LwPolyline", EntityType::LwPolyline(e), v).and_then(|s| if let EntityType::LwPolyline(x) = s.specific { Some(x) } else { c.chk(false, "LwPolyline: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.flags.same(&e0.flags), "LwPolyline.flags", v);
        c.chk(r.constant_width.same(&e0.constant_width), "LwPolyline.constant_width", v);
        c.chk(r.thickness.same(&e0.thickness), "LwPolyline.thickness", v);
        c.chk(r.vertices.same(&lw_ids(&e0.vertices, v)), "LwPolyline.vertices", v);
        c.chk(r.extrusion_direction.same(&e0.extrusion_direction), "LwPolyline.extrusion_direction", v);
    }
}
fn rt_e_MLine(c: &Cx) {
    let d = MLine::default();
    let mut e = d.clone();
    let v = c.ver(13, 20); let f = c.field(13);
    if c.on(f, 1) { e.style_name = Sy::sy(&d.style_name, f == 0, ANY); }
    if c.on(f, 2) { e.__style_handle = Sy::sy(&d.__style_handle, f == 0, ANY); }
    if c.on(f, 3) { e.scale_factor = Sy::sy(&d.scale_factor, f == 0, ANY); }
    if c.on(f, 4) { e.justification = Sy::sy(&d.justification, f == 0, ANY); }
    if c.on(f, 5) { e.flags = Sy::sy(&d.flags, f == 0, I16); }
    if c.on(f, 6) { e.style_element_count = Sy::sy(&d.style_element_count, f == 0, I16); }
    if c.on(f, 7) { e.start_point = Sy::sy(&d.start_point, f == 0, ANY); }
    if c.on(f, 8) { e.normal = Sy::sy(&d.normal, f == 0, ANY); }
    if c.on(f, 9) { e.vertices = Sy::sy(&d.vertices, f == 0, ANY); }
    if c.on(f, 10) { e.segment_directions = Sy::sy(&d.segment_directions, f == 0, ANY); }
    if c.on(f, 11) { e.miter_directions = Sy::sy(&d.miter_directions, f == 0, ANY); }
    if c.on(f, 12) { e.parameters = Sy::sy(&d.parameters, f == 0, ANY); }
    if c.on(f, 13) { e.area_fill_parameters = Sy::sy(&d.area_fill_parameters, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "MLine", EntityType::MLine(e), v).and_then(|s| if let EntityType::MLine(x) = s.specific { Some(x) } else { c.chk(false, "MLine: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.style_name.same(&e0.style_name), "MLine.style_name", v);
        c.chk(r.__style_handle.same(&e0.__style_handle), "MLine.style", v);
        c.chk(r.scale_factor.same(&e0.scale_factor), "MLine.scale_factor", v);
        c.chk(r.justification.same(&e0.justification), "MLine.justification", v);
        c.chk(r.flags.same(&e0.flags), "MLine.flags", v);
        c.chk(r.style_element_count.same(&e0.style_element_count), "MLine.style_element_count", v);
        c.chk(r.start_point.same(&e0.start_point), "MLine.start_point", v);
        c.chk(r.normal.same(&e0.normal), "MLine.normal", v);
        c.chk(r.vertices.same(&e0.vertices), "MLine.vertices", v);
        c.chk(r.segment_directions.same(&e0.segment_directions), "MLine.segment_directions", v);
        c.chk(r.miter_directions.same(&e0.miter_directions), "MLine.miter_directions", v);
        c.chk(r.parameters.same(&e0.parameters), "MLine.parameters", v);
        c.chk(r.area_fill_parameters.same(&e0.area_fill_parameters), "MLine.area_fill_parameters", v);
    }
}
fn rt_e_MText(c: &Cx) {
    let d = MText::default();
    let mut e = d.clone();
    let v = c.ver(13, 20); let f = c.field(28);
    if c.on(f, 1) { e.insertion_point = Sy::sy(&d.insertion_point, f == 0, ANY); }
    if c.on(f, 2) { e.initial_text_height = Sy::sy(&d.initial_text_height, f == 0, ANY); }
    if c.on(f, 3) { e.reference_rectangle_width = Sy::sy(&d.reference_rectangle_width, f == 0, ANY); }
    if c.on(f, 4) { e.attachment_point = Sy::sy(&d.attachment_point, f == 0, ANY); }
    if c.on(f, 5) { e.drawing_direction = Sy::sy(&d.drawing_direction, f == 0, ANY); }
    if c.on(f, 6) { e.extended_text = Sy::sy(&d.extended_text, f == 0, ANY); }
    if c.on(f, 7) { e.text = Sy::sy(&d.text, f == 0, ANY); }
    if c.on(f, 8) { e.text_style_name = Sy::sy(&d.text_style_name, f == 0, ANY); }
    if c.on(f, 9) { e.extrusion_direction = Sy::sy(&d.extrusion_direction, f == 0, ANY); }
    if c.on(f, 10) { e.x_axis_direction = Sy::sy(&d.x_axis_direction, f == 0, ANY); }
    if c.on(f, 11) { e.horizontal_width = Sy::sy(&d.horizontal_width, f == 0, ANY); }
    if c.on(f, 12) { e.vertical_height = Sy::sy(&d.vertical_height, f == 0, ANY); }
    if c.on(f, 13) { e.rotation_angle = Sy::sy(&d.rotation_angle, f == 0, ANY); }
    if c.on(f, 14) { e.line_spacing_style = Sy::sy(&d.line_spacing_style, f == 0, ANY); }
    if c.on(f, 15) { e.line_spacing_factor = Sy::sy(&d.line_spacing_factor, f == 0, ANY); }
    if c.on(f, 16) { e.background_fill_setting = Sy::sy(&d.background_fill_setting, f == 0, ANY); }
    if c.on(f, 17) { e.background_color_rgb = Sy::sy(&d.background_color_rgb, f == 0, ANY); }
    if c.on(f, 18) { e.background_color_name = Sy::sy(&d.background_color_name, f == 0, ANY); }
    if c.on(f, 19) { e.fill_box_scale = Sy::sy(&d.fill_box_scale, f == 0, ANY); }
    if c.on(f, 20) { e.background_fill_color = Sy::sy(&d.background_fill_color, f == 0, ANY); }
    if c.on(f, 21) { e.background_fill_color_transparency = Sy::sy(&d.background_fill_color_transparency, f == 0, ANY); }
    if c.on(f, 22) { e.column_type = Sy::sy(&d.column_type, f == 0, ANY); }
    if c.on(f, 23) { e.column_count = Sy::sy(&d.column_count, f == 0, I16); }
    if c.on(f, 24) { e.is_column_flow_reversed = Sy::sy(&d.is_column_flow_reversed, f == 0, ANY); }
    if c.on(f, 25) { e.is_column_auto_height = Sy::sy(&d.is_column_auto_height, f == 0, ANY); }
    if c.on(f, 26) { e.column_width = Sy::sy(&d.column_width, f == 0, ANY); }
    if c.on(f, 27) { e.column_gutter = Sy::sy(&d.column_gutter, f == 0, ANY); }
    if c.on(f, 28) { e.column_heights = Sy::sy(&d.column_heights, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "MText", EntityType::MText(e), v).and_then(|s| if let EntityType::MText(x) = s.specific { Some(x) } else { c.chk(false, "MText: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.insertion_point.same(&e0.insertion_point), "MText.insertion_point", v);
        c.chk(r.initial_text_height.same(&e0.initial_text_height), "MText.initial_text_height", v);
        c.chk(r.reference_rectangle_width.same(&e0.reference_rectangle_width), "MText.reference_rectangle_width", v);
        c.chk(r.attachment_point.same(&e0.attachment_point), "MText.attachment_point", v);
        c.chk(r.drawing_direction.same(&e0.drawing_direction), "MText.drawing_direction", v);
        c.chk(r.extended_text.same(&e0.extended_text), "MText.extended_text", v);
        c.chk(r.text.same(&e0.text), "MText.text", v);
        c.chk(r.text_style_name.same(&e0.text_style_name), "MText.text_style_name", v);
        c.chk(r.extrusion_direction.same(&e0.extrusion_direction), "MText.extrusion_direction", v);
        c.chk(r.x_axis_direction.same(&e0.x_axis_direction), "MText.x_axis_direction", v);
        c.chk(r.horizontal_width.same(&e0.horizontal_width), "MText.horizontal_width", v);
        c.chk(r.vertical_height.same(&e0.vertical_height), "MText.vertical_height", v);
        c.chk(r.rotation_angle.same(&e0.rotation_angle), "MText.rotation_angle", v);
        c.chk(r.line_spacing_style.same(&e0.line_spacing_style), "MText.line_spacing_style", v);
        c.chk(r.line_spacing_factor.same(&e0.line_spacing_factor), "MText.line_spacing_factor", v);
        c.chk(r.background_fill_setting.same(&e0.background_fill_setting), "MText.background_fill_setting", v);
        c.chk(r.background_color_rgb.same(&e0.background_color_rgb), "MText.background_color_rgb", v);
        c.chk(r.background_color_name.same(&e0.background_color_name), "MText.background_color_name", v);
        c.chk(r.fill_box_scale.same(&e0.fill_box_scale), "MText.fill_box_scale", v);
        c.chk(r.background_fill_color.same(&e0.background_fill_color), "MText.background_fill_color", v);
        c.chk(r.background_fill_color_transparency.same(&e0.background_fill_color_transparency), "MText.background_fill_color_transparency", v);
        c.chk(r.column_type.same(&e0.column_type), "MText.column_type", v);
        c.chk(r.column_count.same(&e0.column_count), "MText.column_count", v);
        c.chk(r.is_column_flow_reversed.same(&e0.is_column_flow_reversed), "MText.is_column_flow_reversed", v);
        c.chk(r.is_column_auto_height.same(&e0.is_column_auto_height), "MText.is_column_auto_height", v);
        c.chk(r.column_width.same(&e0.column_width), "MText.column_width", v);
        c.chk(r.column_gutter.same(&e0.column_gutter), "MText.column_gutter", v);
        c.chk(r.column_heights.same(&e0.column_heights), "MText.column_heights", v);
    }
}
fn rt_e_OleFrame(c: &Cx) {
    let d = OleFrame::default();
    let mut e = d.clone();
    let v = c.ver(13, 20); let f = c.field(3);
    if c.on(f, 1) { e.version_number = Sy::sy(&d.version_number, f == 0, I16); }
    if c.on(f, 2) { e.binary_data_length = Sy::sy(&d.binary_data_length, f == 0, ANY); }
    if c.on(f, 3) { e.binary_data_strings = Sy::sy(&d.binary_data_strings, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "OleFrame", EntityType::OleFrame(e), v).and_then(|s| if let EntityType::OleFrame(x) = s.specific { Some(x) } else { c.chk(false, "OleFrame: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.version_number.same(&e0.version_number), "OleFrame.version_number", v);
        c.chk(r.binary_data_length.same(&e0.binary_data_length), "OleFrame.binary_data_length", v);
        c.chk(r.binary_data_strings.same(&e0.binary_data_strings), "OleFrame.binary_data_strings", v);
    }
}
fn rt_e_Ole2Frame(c: &Cx) {
    let d = Ole2Frame::default();
    let mut e = d.clone();
    let v = c.ver(14, 20); let f = c.field(8);
    if c.on(f, 1) { e.version_number = Sy::sy(&d.version_number, f == 0, I16); }
    if c.on(f, 2) { e.description = Sy::sy(&d.description, f == 0, ANY); }
    if c.on(f, 3) { e.upper_left_corner = Sy::sy(&d.upper_left_corner, f == 0, ANY); }
    if c.on(f, 4) { e.lower_right_corner = Sy::sy(&d.lower_right_corner, f == 0, ANY); }
    if c.on(f, 5) { e.object_type = Sy::sy(&d.object_type, f == 0, ANY); }
    if c.on(f, 6) { e.tile_mode = Sy::sy(&d.tile_mode, f == 0, ANY); }
    if c.on(f, 7) { e.binary_data_length = Sy::sy(&d.binary_data_length, f == 0, ANY); }
    if c.on(f, 8) { e.binary_data_strings = Sy::sy(&d.binary_data_strings, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "Ole2Frame", EntityType::Ole2Frame(e), v).and_then(|s| if let EntityType::Ole2Frame(x) = s.specific { Some(x) } else { c.chk(false, "Ole2Frame: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.version_number.same(&e0.version_number), "Ole2Frame.version_number", v);
        c.chk(r.description.same(&e0.description), "Ole2Frame.description", v);
        c.chk(r.upper_left_corner.same(&e0.upper_left_corner), "Ole2Frame.upper_left_corner", v);
        c.chk(r.lower_right_corner.same(&e0.lower_right_corner), "Ole2Frame.lower_right_corner", v);
        c.chk(r.object_type.same(&e0.object_type), "Ole2Frame.object_type", v);
        c.chk(r.tile_mode.same(&e0.tile_mode), "Ole2Frame.tile_mode", v);
        c.chk(r.binary_data_length.same(&e0.binary_data_length), "Ole2Frame.binary_data_length", v);
        c.chk(r.binary_data_strings.same(&e0.binary_data_strings), "Ole2Frame.binary_data_strings", v);
    }
}
fn rt_e_ModelPoint(c: &Cx) {
    let d = ModelPoint::default();
    let mut e = d.clone();
    let v = c.ver(0, 20); let f = c.field(4);
    if c.on(f, 1) { e.location = Sy::sy(&d.location, f == 0, ANY); }
    if c.on(f, 2) { e.thickness = Sy::sy(&d.thickness, f == 0, ANY); }
    if c.on(f, 3) { e.extrusion_direction = Sy::sy(&d.extrusion_direction, f == 0, ANY); }
    if c.on(f, 4) { e.angle = Sy::sy(&d.angle, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "ModelPoint", EntityType::ModelPoint(e), v).and_then(|s| if let EntityType::ModelPoint(x) = s.specific { Some(x) } else { c.chk(false, "ModelPoint: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.location.same(&e0.location), "ModelPoint.location", v);
        c.chk(r.thickness.same(&e0.thickness), "ModelPoint.thickness", v);
        c.chk(r.extrusion_direction.same(&e0.extrusion_direction), "ModelPoint.extrusion_direction", v);
        c.chk(r.angle.same(&e0.angle), "ModelPoint.angle", v);
    }
}
fn rt_e_Polyline(c: &Cx) {
    let d = Polyline::default();
    let mut e = d.clone();
    let v = c.ver(0, 20); let f = c.field(12);
    if c.on(f, 1) { e.contains_vertices = Sy::sy(&d.contains_vertices, f == 0, ANY); }
    if c.on(f, 2) { e.location = Sy::sy(&d.location, f == 0, ANY); }
    if c.on(f, 3) { e.thickness = Sy::sy(&d.thickness, f == 0, ANY); }
    if c.on(f, 4) { e.flags = Sy::sy(&d.flags, f == 0, I16); }
    if c.on(f, 5) { e.default_starting_width = Sy::sy(&d.default_starting_width, f == 0, ANY); }
    if c.on(f, 6) { e.default_ending_width = Sy::sy(&d.default_ending_width, f == 0, ANY); }
    if c.on(f, 7) { e.polygon_mesh_m_vertex_count = Sy::sy(&d.polygon_mesh_m_vertex_count, f == 0, I16); }
    if c.on(f, 8) { e.polygon_mesh_n_vertex_count = Sy::sy(&d.polygon_mesh_n_vertex_count, f == 0, I16); }
    if c.on(f, 9) { e.smooth_surface_m_density = Sy::sy(&d.smooth_surface_m_density, f == 0, I16); }
    if c.on(f, 10) { e.smooth_surface_n_density = Sy::sy(&d.smooth_surface_n_density, f == 0, I16); }
    if c.on(f, 11) { e.surface_type = Sy::sy(&d.surface_type, f == 0, ANY); }
    if c.on(f, 12) { e.normal = Sy::sy(&d.normal, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "Polyline", EntityType::Polyline(e), v).and_then(|s| if let EntityType::Polyline(x) = s.specific { Some(x) } else { c.chk(false, "Polyline: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.contains_vertices.same(if v <= 13 { &e0.contains_vertices } else { &d.contains_vertices }), "Polyline.contains_vertices", v);
        c.chk(r.location.same(if v >= 12 { &e0.location } else { &d.location }), "Polyline.location", v);
        c.chk(r.thickness.same(&e0.thickness), "Polyline.thickness", v);
        c.chk(r.flags.same(&e0.flags), "Polyline.flags", v);
        c.chk(r.default_starting_width.same(&e0.default_starting_width), "Polyline.default_starting_width", v);
        c.chk(r.default_ending_width.same(&e0.default_ending_width), "Polyline.default_ending_width", v);
        c.chk(r.polygon_mesh_m_vertex_count.same(&e0.polygon_mesh_m_vertex_count), "Polyline.polygon_mesh_m_vertex_count", v);
        c.chk(r.polygon_mesh_n_vertex_count.same(&e0.polygon_mesh_n_vertex_count), "Polyline.polygon_mesh_n_vertex_count", v);
        c.chk(r.smooth_surface_m_density.same(&e0.smooth_surface_m_density), "Polyline.smooth_surface_m_density", v);
        c.chk(r.smooth_surface_n_density.same(&e0.smooth_surface_n_density), "Polyline.smooth_surface_n_density", v);
        c.chk(r.surface_type.same(&e0.surface_type), "Polyline.surface_type", v);
        c.chk(r.normal.same(&e0.normal), "Polyline.normal", v);
    }
}
fn rt_e_Ray(c: &Cx) {
    let d = Ray::default();
    let mut e = d.clone();
    let v = c.ver(13, 20); let f = c.field(2);
    if c.on(f, 1) { e.start_point = Sy::sy(&d.start_point, f == 0, ANY); }
    if c.on(f, 2) { e.unit_direction_vector = Sy::sy(&d.unit_direction_vector, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "Ray", EntityType::Ray(e), v).and_then(|s| if let EntityType::Ray(x) = s.specific { Some(x) } else { c.chk(false, "Ray: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.start_point.same(&e0.start_point), "Ray.start_point", v);
        c.chk(r.unit_direction_vector.same(&e0.unit_direction_vector), "Ray.unit_direction_vector", v);
    }
}
fn rt_e_Region(c: &Cx) {
    let d = Region::default();
    let mut e = d.clone();
    let v = c.ver(13, 20); let f = c.field(3);
    if c.on(f, 1) { e.format_version_number = Sy::sy(&d.format_version_number, f == 0, ANY); }
    if c.on(f, 2) { e.custom_data = Sy::sy(&d.custom_data, f == 0, ANY); }
    if c.on(f, 3) { e.custom_data2 = Sy::sy(&d.custom_data2, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "Region", EntityType::Region(e), v).and_then(|s| if let EntityType::Region(x) = s.specific { Some(x) } else { c.chk(false, "Region: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.format_version_number.same(&e0.format_version_number), "Region.format_version_number", v);
        c.chk(r.custom_data.same(&e0.custom_data), "Region.custom_data", v);
        c.chk(r.custom_data2.same(&e0.custom_data2), "Region.custom_data2", v);
    }
}
fn rt_e_RText(c: &Cx) {
    let d = RText::default();
    let mut e = d.clone();
    let v = c.ver(15, 15); let f = c.field(7);
    if c.on(f, 1) { e.insertion_point = Sy::sy(&d.insertion_point, f == 0, ANY); }
    if c.on(f, 2) { e.extrusion_direction = Sy::sy(&d.extrusion_direction, f == 0, ANY); }
    if c.on(f, 3) { e.rotation_angle = Sy::sy(&d.rotation_angle, f == 0, ANY); }
    if c.on(f, 4) { e.text_height = Sy::sy(&d.text_height, f == 0, ANY); }
    if c.on(f, 5) { e.text_style = Sy::sy(&d.text_style, f == 0, ANY); }
    if c.on(f, 6) { e.type_flags = Sy::sy(&d.type_flags, f == 0, I16); }
    if c.on(f, 7) { e.contents = Sy::sy(&d.contents, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "RText", EntityType::RText(e), v).and_then(|s| if let EntityType::RText(x) = s.specific { Some(x) } else { c.chk(false, "RText: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.insertion_point.same(&e0.insertion_point), "RText.insertion_point", v);
        c.chk(r.extrusion_direction.same(&e0.extrusion_direction), "RText.extrusion_direction", v);
        c.chk(r.rotation_angle.same(&e0.rotation_angle), "RText.rotation_angle", v);
        c.chk(r.text_height.same(&e0.text_height), "RText.text_height", v);
        c.chk(r.text_style.same(&e0.text_style), "RText.text_style", v);
        c.chk(r.type_flags.same(&e0.type_flags), "RText.type_flags", v);
        c.chk(r.contents.same(&e0.contents), "RText.contents", v);
    }
}
fn rt_e_Section(c: &Cx) {
    let d = Section::default();
    let mut e = d.clone();
    let v = c.ver(17, 20); let f = c.field(12);
    if c.on(f, 1) { e.state = Sy::sy(&d.state, f == 0, ANY); }
    if c.on(f, 2) { e.flags = Sy::sy(&d.flags, f == 0, ANY); }
    if c.on(f, 3) { e.name = Sy::sy(&d.name, f == 0, ANY); }
    if c.on(f, 4) { e.vertical_direction = Sy::sy(&d.vertical_direction, f == 0, ANY); }
    if c.on(f, 5) { e.top_height = Sy::sy(&d.top_height, f == 0, ANY); }
    if c.on(f, 6) { e.bottom_height = Sy::sy(&d.bottom_height, f == 0, ANY); }
    if c.on(f, 7) { e.indicator_transparency = Sy::sy(&d.indicator_transparency, f == 0, ANY); }
    if c.on(f, 8) { e.indicator_color = Sy::sy(&d.indicator_color, f == 0, ANY); }
    if c.on(f, 9) { e.indicator_color_name = Sy::sy(&d.indicator_color_name, f == 0, ANY); }
    if c.on(f, 10) { e.vertices = Sy::sy(&d.vertices, f == 0, ANY); }
    if c.on(f, 11) { e.back_line_vertices = Sy::sy(&d.back_line_vertices, f == 0, ANY); }
    if c.on(f, 12) { e.__geometry_settings_handle = Sy::sy(&d.__geometry_settings_handle, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "Section", EntityType::Section(e), v).and_then(|s| if let EntityType::Section(x) = s.specific { Some(x) } else { c.chk(false, "Section: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.state.same(&e0.state), "Section.state", v);
        c.chk(r.flags.same(&e0.flags), "Section.flags", v);
        c.chk(r.name.same(&e0.name), "Section.name", v);
        c.chk(r.vertical_direction.same(&e0.vertical_direction), "Section.vertical_direction", v);
        c.chk(r.top_height.same(&e0.top_height), "Section.top_height", v);
        c.chk(r.bottom_height.same(&e0.bottom_height), "Section.bottom_height", v);
        c.chk(r.indicator_transparency.same(&e0.indicator_transparency), "Section.indicator_transparency", v);
        c.chk(r.indicator_color.same(&e0.indicator_color), "Section.indicator_color", v);
        c.chk(r.indicator_color_name.same(&e0.indicator_color_name), "Section.indicator_color_name", v);
        c.chk(r.vertices.same(&e0.vertices), "Section.vertices", v);
        c.chk(r.back_line_vertices.same(&e0.back_line_vertices), "Section.back_line_vertices", v);
        c.chk(r.__geometry_settings_handle.same(&e0.__geometry_settings_handle), "Section.geometry_settings", v);
    }
}
fn rt_e_Shape(c: &Cx) {
    let d = Shape::default();
    let mut e = d.clone();
    let v = c.ver(0, 20); let f = c.field(8);
    if c.on(f, 1) { e.thickness = Sy::sy(&d.thickness, f == 0, ANY); }
    if c.on(f, 2) { e.location = Sy::sy(&d.location, f == 0, ANY); }
    if c.on(f, 3) { e.size = Sy::sy(&d.size, f == 0, ANY); }
    if c.on(f, 4) { e.name = Sy::sy(&d.name, f == 0, ANY); }
    if c.on(f, 5) { e.rotation_angle = Sy::sy(&d.rotation_angle, f == 0, ANY); }
    if c.on(f, 6) { e.relative_x_scale_factor = Sy::sy(&d.relative_x_scale_factor, f == 0, ANY); }
    if c.on(f, 7) { e.oblique_angle = Sy::sy(&d.oblique_angle, f == 0, ANY); }
    if c.on(f, 8) { e.extrusion_direction = Sy::sy(&d.extrusion_direction, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "Shape", EntityType::Shape(e), v).and_then(|s| if let EntityType::Shape(x) = s.specific { Some(x) } else { c.chk(false, "Shape: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.thickness.same(&e0.thickness), "Shape.thickness", v);
        c.chk(r.location.same(&e0.location), "Shape.location", v);
        c.chk(r.size.same(&e0.size), "Shape.size", v);
        c.chk(r.name.same(&e0.name), "Shape.name", v);
        c.chk(r.rotation_angle.same(&e0.rotation_angle), "Shape.rotation_angle", v);
        c.chk(r.relative_x_scale_factor.same(&e0.relative_x_scale_factor), "Shape.relative_x_scale_factor", v);
        c.chk(r.oblique_angle.same(&e0.oblique_angle), "Shape.oblique_angle", v);
        c.chk(r.extrusion_direction.same(&e0.extrusion_direction), "Shape.extrusion_direction", v);
    }
}
fn rt_e_Solid(c: &Cx) {
    let d = Solid::default();
    let mut e = d.clone();
    let v = c.ver(0, 20); let f = c.field(6);
    if c.on(f, 1) { e.first_corner = Sy::sy(&d.first_corner, f == 0, ANY); }
    if c.on(f, 2) { e.second_corner = Sy::sy(&d.second_corner, f == 0, ANY); }
    if c.on(f, 3) { e.third_corner = Sy::sy(&d.third_corner, f == 0, ANY); }
    if c.on(f, 4) { e.fourth_corner = Sy::sy(&d.fourth_corner, f == 0, ANY); }
    if c.on(f, 5) { e.thickness = Sy::sy(&d.thickness, f == 0, ANY); }
    if c.on(f, 6) { e.extrusion_direction = Sy::sy(&d.extrusion_direction, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "Solid", EntityType::Solid(e), v).and_then(|s| if let EntityType::Solid(x) = s.specific { Some(x) } else { c.chk(false, "Solid: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.first_corner.same(&e0.first_corner), "Solid.first_corner", v);
        c.chk(r.second_corner.same(&e0.second_corner), "Solid.second_corner", v);
        c.chk(r.third_corner.same(&e0.third_corner), "Solid.third_corner", v);
        c.chk(r.fourth_corner.same(&e0.fourth_corner), "Solid.fourth_corner", v);
        c.chk(r.thickness.same(&e0.thickness), "Solid.thickness", v);
        c.chk(r.extrusion_direction.same(&e0.extrusion_direction), "Solid.extrusion_direction", v);
    }
}
fn rt_e_Spline(c: &Cx) {
    let d = Spline::default();
    let mut e = d.clone();
    let v = c.ver(13, 20); let f = c.field(12);
    if c.on(f, 1) { e.normal = Sy::sy(&d.normal, f == 0, ANY); }
    if c.on(f, 2) { e.flags = Sy::sy(&d.flags, f == 0, I16); }
    if c.on(f, 3) { e.degree_of_curve = Sy::sy(&d.degree_of_curve, f == 0, I16); }
    if c.on(f, 4) { e.knot_tolerance = Sy::sy(&d.knot_tolerance, f == 0, ANY); }
    if c.on(f, 5) { e.control_point_tolerance = Sy::sy(&d.control_point_tolerance, f == 0, ANY); }
    if c.on(f, 6) { e.fit_tolerance = Sy::sy(&d.fit_tolerance, f == 0, ANY); }
    if c.on(f, 7) { e.start_tangent = Sy::sy(&d.start_tangent, f == 0, ANY); }
    if c.on(f, 8) { e.end_tangent = Sy::sy(&d.end_tangent, f == 0, ANY); }
    if c.on(f, 9) { e.knot_values = Sy::sy(&d.knot_values, f == 0, ANY); }
    if c.on(f, 10) { e.weight_values = Sy::sy(&d.weight_values, f == 0, ANY); }
    if c.on(f, 11) { e.control_points = Sy::sy(&d.control_points, f == 0, ANY); }
    if c.on(f, 12) { e.fit_points = Sy::sy(&d.fit_points, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "Spline", EntityType::Spline(e), v).and_then(|s| if let EntityType::Spline(x) = s.specific { Some(x) } else { c.chk(false, "Spline: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.normal.same(&e0.normal), "Spline.normal", v);
        c.chk(r.flags.same(&e0.flags), "Spline.flags", v);
        c.chk(r.degree_of_curve.same(&e0.degree_of_curve), "Spline.degree_of_curve", v);
        c.chk(r.knot_tolerance.same(&e0.knot_tolerance), "Spline.knot_tolerance", v);
        c.chk(r.control_point_tolerance.same(&e0.control_point_tolerance), "Spline.control_point_tolerance", v);
        c.chk(r.fit_tolerance.same(&e0.fit_tolerance), "Spline.fit_tolerance", v);
        c.chk(r.start_tangent.same(&e0.start_tangent), "Spline.start_tangent", v);
        c.chk(r.end_tangent.same(&e0.end_tangent), "Spline.end_tangent", v);
        c.chk(r.knot_values.same(&e0.knot_values), "Spline.knot_values", v);
        c.chk(r.weight_values.same(&e0.weight_values), "Spline.weight_values", v);
        c.chk(r.control_points.same(&e0.control_points), "Spline.control_points", v);
        c.chk(r.fit_points.same(&e0.fit_points), "Spline.fit_points", v);
    }
}
fn rt_e_Text(c: &Cx) {
    let d = Text::default();
    let mut e = d.clone();
    let v = c.ver(0, 20); let f = c.field(13);
    if c.on(f, 1) { e.thickness = Sy::sy(&d.thickness, f == 0, ANY); }
    if c.on(f, 2) { e.location = Sy::sy(&d.location, f == 0, ANY); }
    if c.on(f, 3) { e.text_height = Sy::sy(&d.text_height, f == 0, ANY); }
    if c.on(f, 4) { e.value = Sy::sy(&d.value, f == 0, ANY); }
    if c.on(f, 5) { e.rotation = Sy::sy(&d.rotation, f == 0, ANY); }
    if c.on(f, 6) { e.relative_x_scale_factor = Sy::sy(&d.relative_x_scale_factor, f == 0, ANY); }
    if c.on(f, 7) { e.oblique_angle = Sy::sy(&d.oblique_angle, f == 0, ANY); }
    if c.on(f, 8) { e.text_style_name = Sy::sy(&d.text_style_name, f == 0, ANY); }
    if c.on(f, 9) { e.text_generation_flags = Sy::sy(&d.text_generation_flags, f == 0, I16); }
    if c.on(f, 10) { e.horizontal_text_justification = Sy::sy(&d.horizontal_text_justification, f == 0, ANY); }
    if c.on(f, 11) { e.second_alignment_point = Sy::sy(&d.second_alignment_point, f == 0, ANY); }
    if c.on(f, 12) { e.normal = Sy::sy(&d.normal, f == 0, ANY); }
    if c.on(f, 13) { e.vertical_text_justification = Sy::sy(&d.vertical_text_justification, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "Text", EntityType::Text(e), v).and_then(|s| if let EntityType::Text(x) = s.specific { Some(x) } else { c.chk(false, "Text: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.thickness.same(&e0.thickness), "Text.thickness", v);
        c.chk(r.location.same(&e0.location), "Text.location", v);
        c.chk(r.text_height.same(&e0.text_height), "Text.text_height", v);
        c.chk(r.value.same(&e0.value), "Text.value", v);
        c.chk(r.rotation.same(&e0.rotation), "Text.rotation", v);
        c.chk(r.relative_x_scale_factor.same(&e0.relative_x_scale_factor), "Text.relative_x_scale_factor", v);
        c.chk(r.oblique_angle.same(&e0.oblique_angle), "Text.oblique_angle", v);
        c.chk(r.text_style_name.same(&e0.text_style_name), "Text.text_style_name", v);
        c.chk(r.text_generation_flags.same(&e0.text_generation_flags), "Text.text_generation_flags", v);
        c.chk(r.horizontal_text_justification.same(&e0.horizontal_text_justification), "Text.horizontal_text_justification", v);
        c.chk(r.second_alignment_point.same(&e0.second_alignment_point), "Text.second_alignment_point", v);
        c.chk(r.normal.same(&e0.normal), "Text.normal", v);
        c.chk(r.vertical_text_justification.same(&e0.vertical_text_justification), "Text.vertical_text_justification", v);
    }
}
fn rt_e_Tolerance(c: &Cx) {
    let d = Tolerance::default();
    let mut e = d.clone();
    let v = c.ver(13, 20); let f = c.field(5);
    if c.on(f, 1) { e.dimension_style_name = Sy::sy(&d.dimension_style_name, f == 0, ANY); }
    if c.on(f, 2) { e.insertion_point = Sy::sy(&d.insertion_point, f == 0, ANY); }
    if c.on(f, 3) { e.display_text = Sy::sy(&d.display_text, f == 0, ANY); }
    if c.on(f, 4) { e.extrusion_direction = Sy::sy(&d.extrusion_direction, f == 0, ANY); }
    if c.on(f, 5) { e.direction_vector = Sy::sy(&d.direction_vector, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "Tolerance", EntityType::Tolerance(e), v).and_then(|s| if let EntityType::Tolerance(x) = s.specific { Some(x) } else { c.chk(false, "Tolerance: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.dimension_style_name.same(&e0.dimension_style_name), "Tolerance.dimension_style_name", v);
        c.chk(r.insertion_point.same(&e0.insertion_point), "Tolerance.insertion_point", v);
        c.chk(r.display_text.same(if v >= 15 { &e0.display_text } else { &d.display_text }), "Tolerance.display_text", v);
        c.chk(r.extrusion_direction.same(&e0.extrusion_direction), "Tolerance.extrusion_direction", v);
        c.chk(r.direction_vector.same(&e0.direction_vector), "Tolerance.direction_vector", v);
    }
}
fn rt_e_Trace(c: &Cx) {
    let d = Trace::default();
    let mut e = d.clone();
    let v = c.ver(0, 20); let f = c.field(6);
    if c.on(f, 1) { e.first_corner = Sy::sy(&d.first_corner, f == 0, ANY); }
    if c.on(f, 2) { e.second_corner = Sy::sy(&d.second_corner, f == 0, ANY); }
    if c.on(f, 3) { e.third_corner = Sy::sy(&d.third_corner, f == 0, ANY); }
    if c.on(f, 4) { e.fourth_corner = Sy::sy(&d.fourth_corner, f == 0, ANY); }
    if c.on(f, 5) { e.thickness = Sy::sy(&d.thickness, f == 0, ANY); }
    if c.on(f, 6) { e.extrusion_direction = Sy::sy(&d.extrusion_direction, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "Trace", EntityType::Trace(e), v).and_then(|s| if let EntityType::Trace(x) = s.specific { Some(x) } else { c.chk(false, "Trace: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.first_corner.same(&e0.first_corner), "Trace.first_corner", v);
        c.chk(r.second_corner.same(&e0.second_corner), "Trace.second_corner", v);
        c.chk(r.third_corner.same(&e0.third_corner), "Trace.third_corner", v);
        c.chk(r.fourth_corner.same(&e0.fourth_corner), "Trace.fourth_corner", v);
        c.chk(r.thickness.same(&e0.thickness), "Trace.thickness", v);
        c.chk(r.extrusion_direction.same(&e0.extrusion_direction), "Trace.extrusion_direction", v);
    }
}
fn rt_e_DgnUnderlay(c: &Cx) {
    let d = DgnUnderlay::default();
    let mut e = d.clone();
    let v = c.ver(17, 20); let f = c.field(11);
    if c.on(f, 1) { e.__object_handle = Sy::sy(&d.__object_handle, f == 0, ANY); }
    if c.on(f, 2) { e.insertion_point = Sy::sy(&d.insertion_point, f == 0, ANY); }
    if c.on(f, 3) { e.x_scale = Sy::sy(&d.x_scale, f == 0, ANY); }
    if c.on(f, 4) { e.y_scale = Sy::sy(&d.y_scale, f == 0, ANY); }
    if c.on(f, 5) { e.z_scale = Sy::sy(&d.z_scale, f == 0, ANY); }
    if c.on(f, 6) { e.rotation_angle = Sy::sy(&d.rotation_angle, f == 0, ANY); }
    if c.on(f, 7) { e.normal = Sy::sy(&d.normal, f == 0, ANY); }
    if c.on(f, 8) { e.flags = Sy::sy(&d.flags, f == 0, I16); }
    if c.on(f, 9) { e.contrast = Sy::sy(&d.contrast, f == 0, ANY); }
    if c.on(f, 10) { e.fade = Sy::sy(&d.fade, f == 0, ANY); }
    if c.on(f, 11) { e.points = Sy::sy(&d.points, f == 0, XY); }
    let e0 = e.clone();
    let r = rt_ent(c, "DgnUnderlay", EntityType::DgnUnderlay(e), v).and_then(|s| if let EntityType::DgnUnderlay(x) = s.specific { Some(x) } else { c.chk(false, "DgnUnderlay: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.__object_handle.same(&e0.__object_handle), "DgnUnderlay.object", v);
        c.chk(r.insertion_point.same(&e0.insertion_point), "DgnUnderlay.insertion_point", v);
        c.chk(r.x_scale.same(&e0.x_scale), "DgnUnderlay.x_scale", v);
        c.chk(r.y_scale.same(&e0.y_scale), "DgnUnderlay.y_scale", v);
        c.chk(r.z_scale.same(&e0.z_scale), "DgnUnderlay.z_scale", v);
        c.chk(r.rotation_angle.same(&e0.rotation_angle), "DgnUnderlay.rotation_angle", v);
        c.chk(r.normal.same(&e0.normal), "DgnUnderlay.normal", v);
        c.chk(r.flags.same(&e0.flags), "DgnUnderlay.flags", v);
        c.chk(r.contrast.same(&e0.contrast), "DgnUnderlay.contrast", v);
        c.chk(r.fade.same(&e0.fade), "DgnUnderlay.fade", v);
        c.chk(r.points.same(&e0.points), "DgnUnderlay.points", v);
    }
}
fn rt_e_DwfUnderlay(c: &Cx) {
    let d = DwfUnderlay::default();
    let mut e = d.clone();
    let v = c.ver(17, 20); let f = c.field(11);
    if c.on(f, 1) { e.__object_handle = Sy::sy(&d.__object_handle, f == 0, ANY); }
    if c.on(f, 2) { e.insertion_point = Sy::sy(&d.insertion_point, f == 0, ANY); }
    if c.on(f, 3) { e.x_scale = Sy::sy(&d.x_scale, f == 0, ANY); }
    if c.on(f, 4) { e.y_scale = Sy::sy(&d.y_scale, f == 0, ANY); }
    if c.on(f, 5) { e.z_scale = Sy::sy(&d.z_scale, f == 0, ANY); }
    if c.on(f, 6) { e.rotation_angle = Sy::sy(&d.rotation_angle, f == 0, ANY); }
    if c.on(f, 7) { e.normal = Sy::sy(&d.normal, f == 0, ANY); }
    if c.on(f, 8) { e.flags = Sy::sy(&d.flags, f == 0, I16); }
    if c.on(f, 9) { e.contrast = Sy::sy(&d.contrast, f == 0, ANY); }
    if c.on(f, 10) { e.fade = Sy::sy(&d.fade, f == 0, ANY); }
    if c.on(f, 11) { e.points = Sy::sy(&d.points, f == 0, XY); }
    let e0 = e.clone();
    let r = rt_ent(c, "DwfUnderlay", EntityType::DwfUnderlay(e), v).and_then(|s| if let EntityType::DwfUnderlay(x) = s.specific { Some(x) } else { c.chk(false, "DwfUnderlay: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.__object_handle.same(&e0.__object_handle), "DwfUnderlay.object", v);
        c.chk(r.insertion_point.same(&e0.insertion_point), "DwfUnderlay.insertion_point", v);
        c.chk(r.x_scale.same(&e0.x_scale), "DwfUnderlay.x_scale", v);
        c.chk(r.y_scale.same(&e0.y_scale), "DwfUnderlay.y_scale", v);
        c.chk(r.z_scale.same(&e0.z_scale), "DwfUnderlay.z_scale", v);
        c.chk(r.rotation_angle.same(&e0.rotation_angle), "DwfUnderlay.rotation_angle", v);
        c.chk(r.normal.same(&e0.normal), "DwfUnderlay.normal", v);
        c.chk(r.flags.same(&e0.flags), "DwfUnderlay.flags", v);
        c.chk(r.contrast.same(&e0.contrast), "DwfUnderlay.contrast", v);
        c.chk(r.fade.same(&e0.fade), "DwfUnderlay.fade", v);
        c.chk(r.points.same(&e0.points), "DwfUnderlay.points", v);
    }
}
fn rt_e_PdfUnderlay(c: &Cx) {
    let d = PdfUnderlay::default();
    let mut e = d.clone();
    let v = c.ver(17, 20); let f = c.field(11);
    if c.on(f, 1) { e.__object_handle = Sy::sy(&d.__object_handle, f == 0, ANY); }
    if c.on(f, 2) { e.insertion_point = Sy::sy(&d.insertion_point, f == 0, ANY); }
    if c.on(f, 3) { e.x_scale = Sy::sy(&d.x_scale, f == 0, ANY); }
    if c.on(f, 4) { e.y_scale = Sy::sy(&d.y_scale, f == 0, ANY); }
    if c.on(f, 5) { e.z_scale = Sy::sy(&d.z_scale, f == 0, ANY); }
    if c.on(f, 6) { e.rotation_angle = Sy::sy(&d.rotation_angle, f == 0, ANY); }
    if c.on(f, 7) { e.normal = Sy::sy(&d.normal, f == 0, ANY); }
    if c.on(f, 8) { e.flags = Sy::sy(&d.flags, f == 0, I16); }
    if c.on(f, 9) { e.contrast = Sy::sy(&d.contrast, f == 0, ANY); }
    if c.on(f, 10) { e.fade = Sy::sy(&d.fade, f == 0, ANY); }
    if c.on(f, 11) { e.points = Sy::sy(&d.points, f == 0, XY); }
    let e0 = e.clone();
    let r = rt_ent(c, "PdfUnderlay", EntityType::PdfUnderlay(e), v).and_then(|s| if let EntityType::PdfUnderlay(x) = s.specific { Some(x) } else { c.chk(false, "PdfUnderlay: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.__object_handle.same(&e0.__object_handle), "PdfUnderlay.object", v);
        c.chk(r.insertion_point.same(&e0.insertion_point), "PdfUnderlay.insertion_point", v);
        c.chk(r.x_scale.same(&e0.x_scale), "PdfUnderlay.x_scale", v);
        c.chk(r.y_scale.same(&e0.y_scale), "PdfUnderlay.y_scale", v);
        c.chk(r.z_scale.same(&e0.z_scale), "PdfUnderlay.z_scale", v);
        c.chk(r.rotation_angle.same(&e0.rotation_angle), "PdfUnderlay.rotation_angle", v);
        c.chk(r.normal.same(&e0.normal), "PdfUnderlay.normal", v);
        c.chk(r.flags.same(&e0.flags), "PdfUnderlay.flags", v);
        c.chk(r.contrast.same(&e0.contrast), "PdfUnderlay.contrast", v);
        c.chk(r.fade.same(&e0.fade), "PdfUnderlay.fade", v);
        c.chk(r.points.same(&e0.points), "PdfUnderlay.points", v);
    }
}
fn rt_e_Wipeout(c: &Cx) {
    let d = Wipeout::default();
    let mut e = d.clone();
    let v = c.ver(15, 20); let f = c.field(16);
    if c.on(f, 1) { e.class_version = Sy::sy(&d.class_version, f == 0, ANY); }
    if c.on(f, 2) { e.location = Sy::sy(&d.location, f == 0, ANY); }
    if c.on(f, 3) { e.u_vector = Sy::sy(&d.u_vector, f == 0, ANY); }
    if c.on(f, 4) { e.v_vector = Sy::sy(&d.v_vector, f == 0, ANY); }
    if c.on(f, 5) { e.image_size = Sy::sy(&d.image_size, f == 0, XY); }
    if c.on(f, 6) { e.image_def_reference = Sy::sy(&d.image_def_reference, f == 0, ANY); }
    if c.on(f, 7) { e.display_options_flags = Sy::sy(&d.display_options_flags, f == 0, I16); }
    if c.on(f, 8) { e.use_clipping = Sy::sy(&d.use_clipping, f == 0, ANY); }
    if c.on(f, 9) { e.brightness = Sy::sy(&d.brightness, f == 0, ANY); }
    if c.on(f, 10) { e.contrast = Sy::sy(&d.contrast, f == 0, ANY); }
    if c.on(f, 11) { e.fade = Sy::sy(&d.fade, f == 0, ANY); }
    if c.on(f, 12) { e.image_def_reactor_reference = Sy::sy(&d.image_def_reactor_reference, f == 0, ANY); }
    if c.on(f, 13) { e.clipping_type = Sy::sy(&d.clipping_type, f == 0, ANY); }
    if c.on(f, 14) { e.clipping_vertex_count = Sy::sy(&d.clipping_vertex_count, f == 0, ANY); }
    if c.on(f, 15) { e.clipping_vertices = Sy::sy(&d.clipping_vertices, f == 0, XY); }
    if c.on(f, 16) { e.is_inside_clipping = Sy::sy(&d.is_inside_clipping, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "Wipeout", EntityType::Wipeout(e), v).and_then(|s| if let EntityType::Wipeout(x) = s.specific { Some(x) } else { c.chk(false, "Wipeout: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.class_version.same(&e0.class_version), "Wipeout.class_version", v);
        c.chk(r.location.same(&e0.location), "Wipeout.location", v);
        c.chk(r.u_vector.same(&e0.u_vector), "Wipeout.u_vector", v);
        c.chk(r.v_vector.same(&e0.v_vector), "Wipeout.v_vector", v);
        c.chk(r.image_size.same(&e0.image_size), "Wipeout.image_size", v);
        c.chk(r.image_def_reference.same(&e0.image_def_reference), "Wipeout.image_def_reference", v);
        c.chk(r.display_options_flags.same(&e0.display_options_flags), "Wipeout.display_options_flags", v);
        c.chk(r.use_clipping.same(&e0.use_clipping), "Wipeout.use_clipping", v);
        c.chk(r.brightness.same(&e0.brightness), "Wipeout.brightness", v);
        c.chk(r.contrast.same(&e0.contrast), "Wipeout.contrast", v);
        c.chk(r.fade.same(&e0.fade), "Wipeout.fade", v);
        c.chk(r.image_def_reactor_reference.same(&e0.image_def_reactor_reference), "Wipeout.image_def_reactor_reference", v);
        c.chk(r.clipping_type.same(&e0.clipping_type), "Wipeout.clipping_type", v);
        c.chk(r.clipping_vertex_count.same(&(e0.clipping_vertices.len() as i32)), "Wipeout.clipping_vertex_count", v);
        c.chk(r.clipping_vertices.same(&e0.clipping_vertices), "Wipeout.clipping_vertices", v);
        c.chk(r.is_inside_clipping.same(if v >= 18 { &e0.is_inside_clipping } else { &d.is_inside_clipping }), "Wipeout.is_inside_clipping", v);
    }
}
fn rt_e_XLine(c: &Cx) {
    let d = XLine::default();
    let mut e = d.clone();
    let v = c.ver(13, 20); let f = c.field(2);
    if c.on(f, 1) { e.first_point = Sy::sy(&d.first_point, f == 0, ANY); }
    if c.on(f, 2) { e.unit_direction_vector = Sy::sy(&d.unit_direction_vector, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_ent(c, "XLine", EntityType::XLine(e), v).and_then(|s| if let EntityType::XLine(x) = s.specific { Some(x) } else { c.chk(false, "XLine: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.first_point.same(&e0.first_point), "XLine.first_point", v);
        c.chk(r.unit_direction_vector.same(&e0.unit_direction_vector), "XLine.unit_direction_vector", v);
    }
}
fn rt_e_EntityCommon(c: &Cx) {
    let d = EntityCommon::default();
    let mut e = d.clone();
    let v = c.ver(0, 20); let f = c.field(16);
    if c.on(f, 1) { e.is_in_paper_space = Sy::sy(&d.is_in_paper_space, f == 0, ANY); }
    if c.on(f, 2) { e.layer = Sy::sy(&d.layer, f == 0, ANY); }
    if c.on(f, 3) { e.line_type_name = Sy::sy(&d.line_type_name, f == 0, ANY); }
    if c.on(f, 4) { e.elevation = Sy::sy(&d.elevation, f == 0, ANY); }
    if c.on(f, 5) { e.__material_handle = Sy::sy(&d.__material_handle, f == 0, ANY); }
    if c.on(f, 6) { e.color = Sy::sy(&d.color, f == 0, ANY); }
    if c.on(f, 7) { e.lineweight_enum_value = Sy::sy(&d.lineweight_enum_value, f == 0, ANY); }
    if c.on(f, 8) { e.line_type_scale = Sy::sy(&d.line_type_scale, f == 0, ANY); }
    if c.on(f, 9) { e.is_visible = Sy::sy(&d.is_visible, f == 0, ANY); }
    if c.on(f, 10) { e.image_byte_count = Sy::sy(&d.image_byte_count, f == 0, ANY); }
    if c.on(f, 11) { e.preview_image_data = Sy::sy(&d.preview_image_data, f == 0, ANY); }
    if c.on(f, 12) { e.color_24_bit = Sy::sy(&d.color_24_bit, f == 0, ANY); }
    if c.on(f, 13) { e.color_name = Sy::sy(&d.color_name, f == 0, ANY); }
    if c.on(f, 14) { e.transparency = Sy::sy(&d.transparency, f == 0, ANY); }
    if c.on(f, 15) { e.__plot_style_handle = Sy::sy(&d.__plot_style_handle, f == 0, ANY); }
    if c.on(f, 16) { e.shadow_mode = Sy::sy(&d.shadow_mode, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_common(c, e, v);
    if let Some(r) = r {
        c.chk(r.is_in_paper_space.same(if v >= 12 { &e0.is_in_paper_space } else { &d.is_in_paper_space }), "EntityCommon.is_in_paper_space", v);
        c.chk(r.layer.same(&e0.layer), "EntityCommon.layer", v);
        c.chk(r.line_type_name.same(&e0.line_type_name), "EntityCommon.line_type_name", v);
        c.chk(r.elevation.same(if v <= 12 { &e0.elevation } else { &d.elevation }), "EntityCommon.elevation", v);
        c.chk(r.__material_handle.same(if v >= 17 { &e0.__material_handle } else { &d.__material_handle }), "EntityCommon.material", v);
        c.chk(r.color.same(&e0.color), "EntityCommon.color", v);
        c.chk(r.lineweight_enum_value.same(if v >= 15 { &e0.lineweight_enum_value } else { &d.lineweight_enum_value }), "EntityCommon.lineweight_enum_value", v);
        c.chk(r.line_type_scale.same(if v >= 13 { &e0.line_type_scale } else { &d.line_type_scale }), "EntityCommon.line_type_scale", v);
        c.chk(r.is_visible.same(if v >= 13 { &e0.is_visible } else { &d.is_visible }), "EntityCommon.is_visible", v);
        c.chk(r.image_byte_count.same(if v >= 15 { &e0.image_byte_count } else { &d.image_byte_count }), "EntityCommon.image_byte_count", v);
        c.chk(r.preview_image_data.same(if v >= 15 { &e0.preview_image_data } else { &d.preview_image_data }), "EntityCommon.preview_image_data", v);
        c.chk(r.color_24_bit.same(if v >= 16 { &e0.color_24_bit } else { &d.color_24_bit }), "EntityCommon.color_24_bit", v);
        c.chk(r.color_name.same(if v >= 16 { &e0.color_name } else { &d.color_name }), "EntityCommon.color_name", v);
        c.chk(r.transparency.same(if v >= 16 { &e0.transparency } else { &d.transparency }), "EntityCommon.transparency", v);
        c.chk(r.__plot_style_handle.same(if v >= 17 { &e0.__plot_style_handle } else { &d.__plot_style_handle }), "EntityCommon.plot_style", v);
        c.chk(r.shadow_mode.same(if v >= 17 { &e0.shadow_mode } else { &d.shadow_mode }), "EntityCommon.shadow_mode", v);
    }
}
pub static TAB: &[(&str, fn(&Cx), u32)] = &[
    ("Face3D", rt_e_Face3D, 5),
    ("Solid3D", rt_e_Solid3D, 4),
    ("ProxyEntity", rt_e_ProxyEntity, 12),
    ("Arc", rt_e_Arc, 6),
    ("ArcAlignedText", rt_e_ArcAlignedText, 27),
    ("AttributeDefinition", rt_e_AttributeDefinition, 26),
    ("Attribute", rt_e_Attribute, 25),
    ("Body", rt_e_Body, 3),
    ("Circle", rt_e_Circle, 4),
    ("RotatedDimension", rt_e_RotatedDimension, 21),
    ("RadialDimension", rt_e_RadialDimension, 18),
    ("DiameterDimension", rt_e_DiameterDimension, 18),
    ("AngularThreePointDimension", rt_e_AngularThreePointDimension, 20),
    ("OrdinateDimension", rt_e_OrdinateDimension, 18),
    ("Ellipse", rt_e_Ellipse, 6),
    ("Helix", rt_e_Helix, 10),
    ("Image", rt_e_Image, 16),
    ("Insert", rt_e_Insert, 11),
    ("Leader", rt_e_Leader, 16),
    ("Light", rt_e_Light, 18),
    ("Line", rt_e_Line, 4),
    ("LwPolyline", rt_e_LwPolyline, 5),
    ("MLine", rt_e_MLine, 13),
    ("MText", rt_e_MText, 28),
    ("OleFrame", rt_e_OleFrame, 3),
    ("Ole2Frame", rt_e_Ole2Frame, 8),
    ("ModelPoint", rt_e_ModelPoint, 4),
    ("Polyline", rt_e_Polyline, 12),
    ("Ray", rt_e_Ray, 2),
    ("Region", rt_e_Region, 3),
    ("RText", rt_e_RText, 7),
    ("Section", rt_e_Section, 12),
    ("Shape", rt_e_Shape, 8),
    ("Solid", rt_e_Solid, 6),
    ("Spline", rt_e_Spline, 12),
    ("Text", rt_e_Text, 13),
    ("Tolerance", rt_e_Tolerance, 5),
    ("Trace", rt_e_Trace, 6),
    ("DgnUnderlay", rt_e_DgnUnderlay, 11),
    ("DwfUnderlay", rt_e_DwfUnderlay, 11),
    ("PdfUnderlay", rt_e_PdfUnderlay, 11),
    ("Wipeout", rt_e_Wipeout, 16),
    ("XLine", rt_e_XLine, 2),
    ("EntityCommon", rt_e_EntityCommon, 16),
];
