// Generated by tools/gen_harness.py; do not edit.
#![allow(non_snake_case, clippy::all)]
use crate::sym::*;
use crate::rt::*;
use dxf::objects::*;
use dxf::enums::*;
use dxf::*;

fn rt_o_AcadProxyObject(c: &Cx) {
    let d = AcadProxyObject::default();
    let mut e = d.clone();
    let v = c.ver(15, 20); let f = c.field(6);
    if c.on(f, 1) { e.proxy_object_class_id = Sy::sy(&d.proxy_object_class_id, f == 0, ANY); }
    if c.on(f, 2) { e.application_object_class_id = Sy::sy(&d.application_object_class_id, f == 0, ANY); }
    if c.on(f, 3) { e.size_in_bits = Sy::sy(&d.size_in_bits, f == 0, ANY); }
    if c.on(f, 4) { e.binary_object_data = Sy::sy(&d.binary_object_data, f == 0, ANY); }
    if c.on(f, 5) { e.object_ids = Sy::sy(&d.object_ids, f == 0, ANY); }
    if c.on(f, 6) { e.is_original_object_format = Sy::sy(&d.is_original_object_format, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "AcadProxyObject", ObjectType::AcadProxyObject(e), v).and_then(|s| if let ObjectType::AcadProxyObject(x) = s.specific { Some(x) } else { c.chk(false, "AcadProxyObject: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.proxy_object_class_id.same(&e0.proxy_object_class_id), "AcadProxyObject.proxy_object_class_id", v);
        c.chk(r.application_object_class_id.same(&e0.application_object_class_id), "AcadProxyObject.application_object_class_id", v);
        c.chk(r.size_in_bits.same(&e0.size_in_bits), "AcadProxyObject.size_in_bits", v);
        c.chk(r.binary_object_data.same(&e0.binary_object_data), "AcadProxyObject.binary_object_data", v);
        c.chk(r.object_ids.same(&e0.object_ids), "AcadProxyObject.object_ids", v);
        c.chk(r.is_original_object_format.same(&e0.is_original_object_format), "AcadProxyObject.is_original_object_format", v);
    }
}
fn rt_o_DictionaryWithDefault(c: &Cx) {
    let d = DictionaryWithDefault::default();
    let mut e = d.clone();
    let v = c.ver(15, 20); let f = c.field(3);
    if c.on(f, 1) { e.duplicate_record_handling = Sy::sy(&d.duplicate_record_handling, f == 0, ANY); }
    if c.on(f, 2) { e.default_handle = Sy::sy(&d.default_handle, f == 0, ANY); }
    if c.on(f, 3) { e.value_handles = Sy::sy(&d.value_handles, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "DictionaryWithDefault", ObjectType::DictionaryWithDefault(e), v).and_then(|s| if let ObjectType::DictionaryWithDefault(x) = s.specific { Some(x) } else { c.chk(false, "DictionaryWithDefault: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.duplicate_record_handling.same(&e0.duplicate_record_handling), "DictionaryWithDefault.duplicate_record_handling", v);
        c.chk(r.default_handle.same(&e0.default_handle), "DictionaryWithDefault.default_handle", v);
        c.chk(r.value_handles.same(&e0.value_handles), "DictionaryWithDefault.value_handles", v);
    }
}
fn rt_o_PlaceHolder(c: &Cx) {
    let d = PlaceHolder::default();
    let mut e = d.clone();
    let v = c.ver(15, 20); let f = c.field(0);
    let e0 = e.clone();
    let r = rt_obj(c, "PlaceHolder", ObjectType::PlaceHolder(e), v).and_then(|s| if let ObjectType::PlaceHolder(x) = s.specific { Some(x) } else { c.chk(false, "PlaceHolder: loaded as another type", v); None });
    if let Some(r) = r {
    }
}
fn rt_o_NavisWorksModelDefinition(c: &Cx) {
    let d = NavisWorksModelDefinition::default();
    let mut e = d.clone();
    let v = c.ver(20, 20); let f = c.field(5);
    if c.on(f, 1) { e.model_path = Sy::sy(&d.model_path, f == 0, ANY); }
    if c.on(f, 2) { e.is_model_loaded_on_drawing_open = Sy::sy(&d.is_model_loaded_on_drawing_open, f == 0, ANY); }
    if c.on(f, 3) { e.minimum_extent = Sy::sy(&d.minimum_extent, f == 0, ANY); }
    if c.on(f, 4) { e.maximum_extent = Sy::sy(&d.maximum_extent, f == 0, ANY); }
    if c.on(f, 5) { e.is_host_geometry_drawn = Sy::sy(&d.is_host_geometry_drawn, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "NavisWorksModelDefinition", ObjectType::NavisWorksModelDefinition(e), v).and_then(|s| if let ObjectType::NavisWorksModelDefinition(x) = s.specific { Some(x) } else { c.chk(false, "NavisWorksModelDefinition: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.model_path.same(&e0.model_path), "NavisWorksModelDefinition.model_path", v);
        c.chk(r.is_model_loaded_on_drawing_open.same(&e0.is_model_loaded_on_drawing_open), "NavisWorksModelDefinition.is_model_loaded_on_drawing_open", v);
        c.chk(r.minimum_extent.same(&e0.minimum_extent), "NavisWorksModelDefinition.minimum_extent", v);
        c.chk(r.maximum_extent.same(&e0.maximum_extent), "NavisWorksModelDefinition.maximum_extent", v);
        c.chk(r.is_host_geometry_drawn.same(&e0.is_host_geometry_drawn), "NavisWorksModelDefinition.is_host_geometry_drawn", v);
    }
}
fn rt_o_Dictionary(c: &Cx) {
    let d = Dictionary::default();
    let mut e = d.clone();
    let v = c.ver(13, 20); let f = c.field(3);
    if c.on(f, 1) { e.is_hard_owner = Sy::sy(&d.is_hard_owner, f == 0, ANY); }
    if c.on(f, 2) { e.duplicate_record_handling = Sy::sy(&d.duplicate_record_handling, f == 0, ANY); }
    if c.on(f, 3) { e.value_handles = Sy::sy(&d.value_handles, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "Dictionary", ObjectType::Dictionary(e), v).and_then(|s| if let ObjectType::Dictionary(x) = s.specific { Some(x) } else { c.chk(false, "Dictionary: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.is_hard_owner.same(if v >= 15 { &e0.is_hard_owner } else { &d.is_hard_owner }), "Dictionary.is_hard_owner", v);
        c.chk(r.duplicate_record_handling.same(if v >= 15 { &e0.duplicate_record_handling } else { &d.duplicate_record_handling }), "Dictionary.duplicate_record_handling", v);
        c.chk(r.value_handles.same(&e0.value_handles), "Dictionary.value_handles", v);
    }
}
fn rt_o_DictionaryVariable(c: &Cx) {
    let d = DictionaryVariable::default();
    let mut e = d.clone();
    let v = c.ver(13, 20); let f = c.field(2);
    if c.on(f, 1) { e.object_schema_number = Sy::sy(&d.object_schema_number, f == 0, ANY); }
    if c.on(f, 2) { e.value = Sy::sy(&d.value, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "DictionaryVariable", ObjectType::DictionaryVariable(e), v).and_then(|s| if let ObjectType::DictionaryVariable(x) = s.specific { Some(x) } else { c.chk(false, "DictionaryVariable: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.object_schema_number.same(&e0.object_schema_number), "DictionaryVariable.object_schema_number", v);
        c.chk(r.value.same(&e0.value), "DictionaryVariable.value", v);
    }
}
fn rt_o_DimensionAssoc(c: &Cx) {
    let d = DimensionAssoc::default();
    let mut e = d.clone();
    let v = c.ver(16, 20); let f = c.field(17);
    if c.on(f, 1) { e.__dimension_handle = Sy::sy(&d.__dimension_handle, f == 0, ANY); }
    if c.on(f, 2) { e.associativity_flags = Sy::sy(&d.associativity_flags, f == 0, ANY); }
    if c.on(f, 3) { e.is_trans_space = Sy::sy(&d.is_trans_space, f == 0, ANY); }
    if c.on(f, 4) { e.rotated_dimension_type = Sy::sy(&d.rotated_dimension_type, f == 0, ANY); }
    if c.on(f, 5) { e.class_name = Sy::sy(&d.class_name, f == 0, ANY); }
    if c.on(f, 6) { e.object_osnap_type = Sy::sy(&d.object_osnap_type, f == 0, ANY); }
    if c.on(f, 7) { e.__main_object_handle = Sy::sy(&d.__main_object_handle, f == 0, ANY); }
    if c.on(f, 8) { e.main_object_subentity_type = Sy::sy(&d.main_object_subentity_type, f == 0, ANY); }
    if c.on(f, 9) { e.main_object_gs_marker_index = Sy::sy(&d.main_object_gs_marker_index, f == 0, ANY); }
    if c.on(f, 10) { e.__main_object_xref_handle = Sy::sy(&d.__main_object_xref_handle, f == 0, ANY); }
    if c.on(f, 11) { e.near_osnap_geometry_parameter = Sy::sy(&d.near_osnap_geometry_parameter, f == 0, ANY); }
    if c.on(f, 12) { e.osnap_point = Sy::sy(&d.osnap_point, f == 0, ANY); }
    if c.on(f, 13) { e.__intersection_object_handle = Sy::sy(&d.__intersection_object_handle, f == 0, ANY); }
    if c.on(f, 14) { e.intersection_subentity_type = Sy::sy(&d.intersection_subentity_type, f == 0, ANY); }
    if c.on(f, 15) { e.intersection_object_gs_marker_index = Sy::sy(&d.intersection_object_gs_marker_index, f == 0, ANY); }
    if c.on(f, 16) { e.__insertion_object_xref_handle = Sy::sy(&d.__insertion_object_xref_handle, f == 0, ANY); }
    if c.on(f, 17) { e.has_last_point_reference = Sy::sy(&d.has_last_point_reference, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "DimensionAssoc", ObjectType::DimensionAssoc(e), v).and_then(|s| if let ObjectType::DimensionAssoc(x) = s.specific { Some(x) } else { c.chk(false, "DimensionAssoc: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.__dimension_handle.same(&e0.__dimension_handle), "DimensionAssoc.dimension", v);
        c.chk(r.associativity_flags.same(&e0.associativity_flags), "DimensionAssoc.associativity_flags", v);
        c.chk(r.is_trans_space.same(&e0.is_trans_space), "DimensionAssoc.is_trans_space", v);
        c.chk(r.rotated_dimension_type.same(&e0.rotated_dimension_type), "DimensionAssoc.rotated_dimension_type", v);
        c.chk(r.class_name.same(&e0.class_name), "DimensionAssoc.class_name", v);
        c.chk(r.object_osnap_type.same(&e0.object_osnap_type), "DimensionAssoc.object_osnap_type", v);
        c.chk(r.__main_object_handle.same(&e0.__main_object_handle), "DimensionAssoc.main_object", v);
        c.chk(r.main_object_subentity_type.same(&e0.main_object_subentity_type), "DimensionAssoc.main_object_subentity_type", v);
        c.chk(r.main_object_gs_marker_index.same(&e0.main_object_gs_marker_index), "DimensionAssoc.main_object_gs_marker_index", v);
        c.chk(r.__main_object_xref_handle.same(&e0.__main_object_xref_handle), "DimensionAssoc.main_object_xref", v);
        c.chk(r.near_osnap_geometry_parameter.same(&e0.near_osnap_geometry_parameter), "DimensionAssoc.near_osnap_geometry_parameter", v);
        c.chk(r.osnap_point.same(&e0.osnap_point), "DimensionAssoc.osnap_point", v);
        c.chk(r.__intersection_object_handle.same(&e0.__intersection_object_handle), "DimensionAssoc.intersection_object", v);
        c.chk(r.intersection_subentity_type.same(&e0.intersection_subentity_type), "DimensionAssoc.intersection_subentity_type", v);
        c.chk(r.intersection_object_gs_marker_index.same(&e0.intersection_object_gs_marker_index), "DimensionAssoc.intersection_object_gs_marker_index", v);
        c.chk(r.__insertion_object_xref_handle.same(&e0.__insertion_object_xref_handle), "DimensionAssoc.insertion_object_xref", v);
        c.chk(r.has_last_point_reference.same(&e0.has_last_point_reference), "DimensionAssoc.has_last_point_reference", v);
    }
}
fn rt_o_Field(c: &Cx) {
    let d = Field::default();
    let mut e = d.clone();
    let v = c.ver(16, 20); let f = c.field(13);
    if c.on(f, 1) { e.evaluator_id = Sy::sy(&d.evaluator_id, f == 0, ANY); }
    if c.on(f, 2) { e.field_code_string = Sy::sy(&d.field_code_string, f == 0, ANY); }
    if c.on(f, 3) { e.field_code_string_overflow = Sy::sy(&d.field_code_string_overflow, f == 0, ANY); }
    if c.on(f, 4) { e.evaluation_error_message = Sy::sy(&d.evaluation_error_message, f == 0, ANY); }
    if c.on(f, 5) { e.__child_fields_handle = Sy::sy(&d.__child_fields_handle, f == 0, ANY); }
    if c.on(f, 6) { e.evaluation_option = Sy::sy(&d.evaluation_option, f == 0, ANY); }
    if c.on(f, 7) { e.filling_option = Sy::sy(&d.filling_option, f == 0, ANY); }
    if c.on(f, 8) { e.field_state = Sy::sy(&d.field_state, f == 0, ANY); }
    if c.on(f, 9) { e.evaluation_status = Sy::sy(&d.evaluation_status, f == 0, ANY); }
    if c.on(f, 10) { e.evaluation_error_code = Sy::sy(&d.evaluation_error_code, f == 0, ANY); }
    if c.on(f, 11) { e.__objects_handle = Sy::sy(&d.__objects_handle, f == 0, ANY); }
    if c.on(f, 12) { e.field_data_keys = Sy::sy(&d.field_data_keys, f == 0, ANY); }
    if c.on(f, 13) { e.evaluated_cache_key = Sy::sy(&d.evaluated_cache_key, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "Field", ObjectType::Field(e), v).and_then(|s| if let ObjectType::Field(x) = s.specific { Some(x) } else { c.chk(false, "Field: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.evaluator_id.same(&e0.evaluator_id), "Field.evaluator_id", v);
        c.chk(r.field_code_string.same(&e0.field_code_string), "Field.field_code_string", v);
        c.chk(r.field_code_string_overflow.same(&e0.field_code_string_overflow), "Field.field_code_string_overflow", v);
        c.chk(r.evaluation_error_message.same(if v <= 17 { &e0.evaluation_error_message } else { &d.evaluation_error_message }), "Field.evaluation_error_message", v);
        c.chk(r.__child_fields_handle.same(&e0.__child_fields_handle), "Field.child_fields", v);
        c.chk(r.evaluation_option.same(if v <= 17 { &e0.evaluation_option } else { &d.evaluation_option }), "Field.evaluation_option", v);
        c.chk(r.filling_option.same(if v <= 17 { &e0.filling_option } else { &d.filling_option }), "Field.filling_option", v);
        c.chk(r.field_state.same(if v <= 17 { &e0.field_state } else { &d.field_state }), "Field.field_state", v);
        c.chk(r.evaluation_status.same(if v <= 17 { &e0.evaluation_status } else { &d.evaluation_status }), "Field.evaluation_status", v);
        c.chk(r.evaluation_error_code.same(if v <= 17 { &e0.evaluation_error_code } else { &d.evaluation_error_code }), "Field.evaluation_error_code", v);
        c.chk(r.__objects_handle.same(&e0.__objects_handle), "Field.objects", v);
        c.chk(r.field_data_keys.same(&e0.field_data_keys), "Field.field_data_keys", v);
        c.chk(r.evaluated_cache_key.same(&e0.evaluated_cache_key), "Field.evaluated_cache_key", v);
    }
}
fn rt_o_GeoData(c: &Cx) {
    let d = GeoData::default();
    let mut e = d.clone();
    let v = c.ver(18, 20); let f = c.field(22);
    if c.on(f, 1) { e.version = Sy::sy(&d.version, f == 0, ANY); }
    if c.on(f, 2) { e.coordinate_type = Sy::sy(&d.coordinate_type, f == 0, ANY); }
    if c.on(f, 3) { e.design_point = Sy::sy(&d.design_point, f == 0, ANY); }
    if c.on(f, 4) { e.reference_point = Sy::sy(&d.reference_point, f == 0, ANY); }
    if c.on(f, 5) { e.north_vector = Sy::sy(&d.north_vector, f == 0, XY); }
    if c.on(f, 6) { e.horizontal_unit_scale = Sy::sy(&d.horizontal_unit_scale, f == 0, ANY); }
    if c.on(f, 7) { e.vertical_unit_scale = Sy::sy(&d.vertical_unit_scale, f == 0, ANY); }
    if c.on(f, 8) { e.horizontal_units = Sy::sy(&d.horizontal_units, f == 0, ANY); }
    if c.on(f, 9) { e.vertical_units = Sy::sy(&d.vertical_units, f == 0, ANY); }
    if c.on(f, 10) { e.up_direction = Sy::sy(&d.up_direction, f == 0, ANY); }
    if c.on(f, 11) { e.scale_estimation_method = Sy::sy(&d.scale_estimation_method, f == 0, ANY); }
    if c.on(f, 12) { e.use_sea_level_correction = Sy::sy(&d.use_sea_level_correction, f == 0, ANY); }
    if c.on(f, 13) { e.user_specified_scale_factor = Sy::sy(&d.user_specified_scale_factor, f == 0, ANY); }
    if c.on(f, 14) { e.sea_level_elevation = Sy::sy(&d.sea_level_elevation, f == 0, ANY); }
    if c.on(f, 15) { e.coordinate_projection_radius = Sy::sy(&d.coordinate_projection_radius, f == 0, ANY); }
    if c.on(f, 16) { e.coordinate_system_definition = Sy::sy(&d.coordinate_system_definition, f == 0, ANY); }
    if c.on(f, 17) { e.geo_rss_tag = Sy::sy(&d.geo_rss_tag, f == 0, ANY); }
    if c.on(f, 18) { e.observation_from_tag = Sy::sy(&d.observation_from_tag, f == 0, ANY); }
    if c.on(f, 19) { e.observation_to_tag = Sy::sy(&d.observation_to_tag, f == 0, ANY); }
    if c.on(f, 20) { e.observation_coverage_tag = Sy::sy(&d.observation_coverage_tag, f == 0, ANY); }
    if c.on(f, 21) { e.geo_mesh_points = Sy::sy(&d.geo_mesh_points, f == 0, ANY); }
    if c.on(f, 22) { e.face_indices = Sy::sy(&d.face_indices, f == 0, INT); }
    let e0 = e.clone();
    let r = rt_obj(c, "GeoData", ObjectType::GeoData(e), v).and_then(|s| if let ObjectType::GeoData(x) = s.specific { Some(x) } else { c.chk(false, "GeoData: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.version.same(&e0.version), "GeoData.version", v);
        c.chk(r.coordinate_type.same(&e0.coordinate_type), "GeoData.coordinate_type", v);
        c.chk(r.design_point.same(&e0.design_point), "GeoData.design_point", v);
        c.chk(r.reference_point.same(&e0.reference_point), "GeoData.reference_point", v);
        c.chk(r.north_vector.same(&e0.north_vector), "GeoData.north_vector", v);
        c.chk(r.horizontal_unit_scale.same(&e0.horizontal_unit_scale), "GeoData.horizontal_unit_scale", v);
        c.chk(r.vertical_unit_scale.same(&e0.vertical_unit_scale), "GeoData.vertical_unit_scale", v);
        c.chk(r.horizontal_units.same(&e0.horizontal_units), "GeoData.horizontal_units", v);
        c.chk(r.vertical_units.same(&e0.vertical_units), "GeoData.vertical_units", v);
        c.chk(r.up_direction.same(&e0.up_direction), "GeoData.up_direction", v);
        c.chk(r.scale_estimation_method.same(&e0.scale_estimation_method), "GeoData.scale_estimation_method", v);
        c.chk(r.use_sea_level_correction.same(&e0.use_sea_level_correction), "GeoData.use_sea_level_correction", v);
        c.chk(r.user_specified_scale_factor.same(&e0.user_specified_scale_factor), "GeoData.user_specified_scale_factor", v);
        c.chk(r.sea_level_elevation.same(&e0.sea_level_elevation), "GeoData.sea_level_elevation", v);
        c.chk(r.coordinate_projection_radius.same(&e0.coordinate_projection_radius), "GeoData.coordinate_projection_radius", v);
        c.chk(r.coordinate_system_definition.same(&e0.coordinate_system_definition), "GeoData.coordinate_system_definition", v);
        c.chk(r.geo_rss_tag.same(&e0.geo_rss_tag), "GeoData.geo_rss_tag", v);
        c.chk(r.observation_from_tag.same(&e0.observation_from_tag), "GeoData.observation_from_tag", v);
        c.chk(r.observation_to_tag.same(&e0.observation_to_tag), "GeoData.observation_to_tag", v);
        c.chk(r.observation_coverage_tag.same(&e0.observation_coverage_tag), "GeoData.observation_coverage_tag", v);
        c.chk(r.geo_mesh_points.same(&e0.geo_mesh_points), "GeoData.geo_mesh_points", v);
        c.chk(r.face_indices.same(&e0.face_indices), "GeoData.face_indices", v);
    }
}
fn rt_o_Group(c: &Cx) {
    let d = Group::default();
    let mut e = d.clone();
    let v = c.ver(13, 20); let f = c.field(4);
    if c.on(f, 1) { e.description = Sy::sy(&d.description, f == 0, ANY); }
    if c.on(f, 2) { e.is_named = Sy::sy(&d.is_named, f == 0, ANY); }
    if c.on(f, 3) { e.is_selectable = Sy::sy(&d.is_selectable, f == 0, ANY); }
    if c.on(f, 4) { e.__entities_handle = Sy::sy(&d.__entities_handle, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "Group", ObjectType::Group(e), v).and_then(|s| if let ObjectType::Group(x) = s.specific { Some(x) } else { c.chk(false, "Group: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.description.same(&e0.description), "Group.description", v);
        c.chk(r.is_named.same(&e0.is_named), "Group.is_named", v);
        c.chk(r.is_selectable.same(&e0.is_selectable), "Group.is_selectable", v);
        c.chk(r.__entities_handle.same(&e0.__entities_handle), "Group.entities", v);
    }
}
fn rt_o_IdBuffer(c: &Cx) {
    let d = IdBuffer::default();
    let mut e = d.clone();
    let v = c.ver(14, 20); let f = c.field(1);
    if c.on(f, 1) { e.__entities_handle = Sy::sy(&d.__entities_handle, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "IdBuffer", ObjectType::IdBuffer(e), v).and_then(|s| if let ObjectType::IdBuffer(x) = s.specific { Some(x) } else { c.chk(false, "IdBuffer: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.__entities_handle.same(&e0.__entities_handle), "IdBuffer.entities", v);
    }
}
fn rt_o_ImageDefinition(c: &Cx) {
    let d = ImageDefinition::default();
    let mut e = d.clone();
    let v = c.ver(14, 20); let f = c.field(8);
    if c.on(f, 1) { e.class_version = Sy::sy(&d.class_version, f == 0, ANY); }
    if c.on(f, 2) { e.file_path = Sy::sy(&d.file_path, f == 0, ANY); }
    if c.on(f, 3) { e.image_width = Sy::sy(&d.image_width, f == 0, I32); }
    if c.on(f, 4) { e.image_height = Sy::sy(&d.image_height, f == 0, I32); }
    if c.on(f, 5) { e.pixel_width = Sy::sy(&d.pixel_width, f == 0, ANY); }
    if c.on(f, 6) { e.pixel_height = Sy::sy(&d.pixel_height, f == 0, ANY); }
    if c.on(f, 7) { e.is_image_loaded = Sy::sy(&d.is_image_loaded, f == 0, ANY); }
    if c.on(f, 8) { e.resolution_units = Sy::sy(&d.resolution_units, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "ImageDefinition", ObjectType::ImageDefinition(e), v).and_then(|s| if let ObjectType::ImageDefinition(x) = s.specific { Some(x) } else { c.chk(false, "ImageDefinition: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.class_version.same(&e0.class_version), "ImageDefinition.class_version", v);
        c.chk(r.file_path.same(&e0.file_path), "ImageDefinition.file_path", v);
        c.chk(r.image_width.same(&e0.image_width), "ImageDefinition.image_width", v);
        c.chk(r.image_height.same(&e0.image_height), "ImageDefinition.image_height", v);
        c.chk(r.pixel_width.same(&e0.pixel_width), "ImageDefinition.pixel_width", v);
        c.chk(r.pixel_height.same(&e0.pixel_height), "ImageDefinition.pixel_height", v);
        c.chk(r.is_image_loaded.same(&e0.is_image_loaded), "ImageDefinition.is_image_loaded", v);
        c.chk(r.resolution_units.same(&e0.resolution_units), "ImageDefinition.resolution_units", v);
    }
}
fn rt_o_ImageDefinitionReactor(c: &Cx) {
    let d = ImageDefinitionReactor::default();
    let mut e = d.clone();
    let v = c.ver(14, 20); let f = c.field(1);
    if c.on(f, 1) { e.class_version = Sy::sy(&d.class_version, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "ImageDefinitionReactor", ObjectType::ImageDefinitionReactor(e), v).and_then(|s| if let ObjectType::ImageDefinitionReactor(x) = s.specific { Some(x) } else { c.chk(false, "ImageDefinitionReactor: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.class_version.same(&e0.class_version), "ImageDefinitionReactor.class_version", v);
    }
}
fn rt_o_LayerFilter(c: &Cx) {
    let d = LayerFilter::default();
    let mut e = d.clone();
    let v = c.ver(16, 20); let f = c.field(1);
    if c.on(f, 1) { e.layer_names = Sy::sy(&d.layer_names, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "LayerFilter", ObjectType::LayerFilter(e), v).and_then(|s| if let ObjectType::LayerFilter(x) = s.specific { Some(x) } else { c.chk(false, "LayerFilter: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.layer_names.same(&e0.layer_names), "LayerFilter.layer_names", v);
    }
}
fn rt_o_LayerIndex(c: &Cx) {
    let d = LayerIndex::default();
    let mut e = d.clone();
    let v = c.ver(14, 20); let f = c.field(3);
    if c.on(f, 1) { e.layer_names = Sy::sy(&d.layer_names, f == 0, ANY); }
    if c.on(f, 2) { e.__id_buffers_handle = Sy::sy(&d.__id_buffers_handle, f == 0, ANY); }
    if c.on(f, 3) { e.id_buffer_counts = Sy::sy(&d.id_buffer_counts, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "LayerIndex", ObjectType::LayerIndex(e), v).and_then(|s| if let ObjectType::LayerIndex(x) = s.specific { Some(x) } else { c.chk(false, "LayerIndex: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.layer_names.same(&e0.layer_names), "LayerIndex.layer_names", v);
        c.chk(r.__id_buffers_handle.same(&e0.__id_buffers_handle), "LayerIndex.id_buffers", v);
        c.chk(r.id_buffer_counts.same(&e0.id_buffer_counts), "LayerIndex.id_buffer_counts", v);
    }
}
fn rt_o_Layout(c: &Cx) {
    let d = Layout::default();
    let mut e = d.clone();
    let v = c.ver(15, 20); let f = c.field(16);
    if c.on(f, 1) { e.layout_name = Sy::sy(&d.layout_name, f == 0, ANY); }
    if c.on(f, 2) { e.layout_flags = Sy::sy(&d.layout_flags, f == 0, I16); }
    if c.on(f, 3) { e.tab_order = Sy::sy(&d.tab_order, f == 0, I16); }
    if c.on(f, 4) { e.minimum_limits = Sy::sy(&d.minimum_limits, f == 0, XY); }
    if c.on(f, 5) { e.maximum_limits = Sy::sy(&d.maximum_limits, f == 0, XY); }
    if c.on(f, 6) { e.insertion_base_point = Sy::sy(&d.insertion_base_point, f == 0, ANY); }
    if c.on(f, 7) { e.minimum_extents = Sy::sy(&d.minimum_extents, f == 0, ANY); }
    if c.on(f, 8) { e.maximum_extents = Sy::sy(&d.maximum_extents, f == 0, ANY); }
    if c.on(f, 9) { e.elevation = Sy::sy(&d.elevation, f == 0, ANY); }
    if c.on(f, 10) { e.ucs_origin = Sy::sy(&d.ucs_origin, f == 0, ANY); }
    if c.on(f, 11) { e.ucs_x_axis = Sy::sy(&d.ucs_x_axis, f == 0, ANY); }
    if c.on(f, 12) { e.ucs_y_axis = Sy::sy(&d.ucs_y_axis, f == 0, ANY); }
    if c.on(f, 13) { e.ucs_orthographic_type = Sy::sy(&d.ucs_orthographic_type, f == 0, ANY); }
    if c.on(f, 14) { e.__viewport_handle = Sy::sy(&d.__viewport_handle, f == 0, ANY); }
    if c.on(f, 15) { e.__table_record_handle = Sy::sy(&d.__table_record_handle, f == 0, ANY); }
    if c.on(f, 16) { e.__table_record_base_handle = Sy::sy(&d.__table_record_base_handle, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "Layout", ObjectType::Layout(e), v).and_then(|s| if let ObjectType::Layout(x) = s.specific { Some(x) } else { c.chk(false, "Layout: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.layout_name.same(&e0.layout_name), "Layout.layout_name", v);
        c.chk(r.layout_flags.same(&e0.layout_flags), "Layout.layout_flags", v);
        c.chk(r.tab_order.same(&e0.tab_order), "Layout.tab_order", v);
        c.chk(r.minimum_limits.same(&e0.minimum_limits), "Layout.minimum_limits", v);
        c.chk(r.maximum_limits.same(&e0.maximum_limits), "Layout.maximum_limits", v);
        c.chk(r.insertion_base_point.same(&e0.insertion_base_point), "Layout.insertion_base_point", v);
        c.chk(r.minimum_extents.same(&e0.minimum_extents), "Layout.minimum_extents", v);
        c.chk(r.maximum_extents.same(&e0.maximum_extents), "Layout.maximum_extents", v);
        c.chk(r.elevation.same(&e0.elevation), "Layout.elevation", v);
        c.chk(r.ucs_origin.same(&e0.ucs_origin), "Layout.ucs_origin", v);
        c.chk(r.ucs_x_axis.same(&e0.ucs_x_axis), "Layout.ucs_x_axis", v);
        c.chk(r.ucs_y_axis.same(&e0.ucs_y_axis), "Layout.ucs_y_axis", v);
        c.chk(r.ucs_orthographic_type.same(&e0.ucs_orthographic_type), "Layout.ucs_orthographic_type", v);
        c.chk(r.__viewport_handle.same(&e0.__viewport_handle), "Layout.viewport", v);
        c.chk(r.__table_record_handle.same(&e0.__table_record_handle), "Layout.table_record", v);
        c.chk(r.__table_record_base_handle.same(&e0.__table_record_base_handle), "Layout.table_record_base", v);
    }
}
fn rt_o_LightList(c: &Cx) {
    let d = LightList::default();
    let mut e = d.clone();
    let v = c.ver(17, 20); let f = c.field(2);
    if c.on(f, 1) { e.version = Sy::sy(&d.version, f == 0, ANY); }
    if c.on(f, 2) { e.__lights_handle = Sy::sy(&d.__lights_handle, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "LightList", ObjectType::LightList(e), v).and_then(|s| if let ObjectType::LightList(x) = s.specific { Some(x) } else { c.chk(false, "LightList: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.version.same(&e0.version), "LightList.version", v);
        c.chk(r.__lights_handle.same(&e0.__lights_handle), "LightList.lights", v);
    }
}
fn rt_o_Material(c: &Cx) {
    let d = Material::default();
    let mut e = d.clone();
    let v = c.ver(16, 20); let f = c.field(91);
    if c.on(f, 1) { e.name = Sy::sy(&d.name, f == 0, ANY); }
    if c.on(f, 2) { e.description = Sy::sy(&d.description, f == 0, ANY); }
    if c.on(f, 3) { e.override_ambient_color = Sy::sy(&d.override_ambient_color, f == 0, ANY); }
    if c.on(f, 4) { e.ambient_color_factor = Sy::sy(&d.ambient_color_factor, f == 0, ANY); }
    if c.on(f, 5) { e.ambient_color_value = Sy::sy(&d.ambient_color_value, f == 0, ANY); }
    if c.on(f, 6) { e.override_diffuse_color = Sy::sy(&d.override_diffuse_color, f == 0, ANY); }
    if c.on(f, 7) { e.diffuse_color_factor = Sy::sy(&d.diffuse_color_factor, f == 0, ANY); }
    if c.on(f, 8) { e.diffuse_color_value = Sy::sy(&d.diffuse_color_value, f == 0, ANY); }
    if c.on(f, 9) { e.diffuse_map_blend_factor = Sy::sy(&d.diffuse_map_blend_factor, f == 0, ANY); }
    if c.on(f, 10) { e.use_image_file_for_diffuse_map = Sy::sy(&d.use_image_file_for_diffuse_map, f == 0, ANY); }
    if c.on(f, 11) { e.diffuse_map_file_name = Sy::sy(&d.diffuse_map_file_name, f == 0, ANY); }
    if c.on(f, 12) { e.diffuse_map_projection_method = Sy::sy(&d.diffuse_map_projection_method, f == 0, ANY); }
    if c.on(f, 13) { e.diffuse_map_tiling_method = Sy::sy(&d.diffuse_map_tiling_method, f == 0, ANY); }
    if c.on(f, 14) { e.diffuse_map_auto_transform_method = Sy::sy(&d.diffuse_map_auto_transform_method, f == 0, ANY); }
    if c.on(f, 15) { e.diffuse_map_transformation_matrix = Sy::sy(&d.diffuse_map_transformation_matrix, f == 0, ANY); }
    if c.on(f, 16) { e.specular_gloss_factor = Sy::sy(&d.specular_gloss_factor, f == 0, ANY); }
    if c.on(f, 17) { e.override_specular_color = Sy::sy(&d.override_specular_color, f == 0, ANY); }
    if c.on(f, 18) { e.specular_color_factor = Sy::sy(&d.specular_color_factor, f == 0, ANY); }
    if c.on(f, 19) { e.specular_color_value = Sy::sy(&d.specular_color_value, f == 0, ANY); }
    if c.on(f, 20) { e.specular_map_blend_factor = Sy::sy(&d.specular_map_blend_factor, f == 0, ANY); }
    if c.on(f, 21) { e.use_image_file_for_specular_map = Sy::sy(&d.use_image_file_for_specular_map, f == 0, ANY); }
    if c.on(f, 22) { e.specular_map_file_name = Sy::sy(&d.specular_map_file_name, f == 0, ANY); }
    if c.on(f, 23) { e.specular_map_projection_method = Sy::sy(&d.specular_map_projection_method, f == 0, ANY); }
    if c.on(f, 24) { e.specular_map_tiling_method = Sy::sy(&d.specular_map_tiling_method, f == 0, ANY); }
    if c.on(f, 25) { e.specular_map_auto_transform_method = Sy::sy(&d.specular_map_auto_transform_method, f == 0, ANY); }
    if c.on(f, 26) { e.specular_map_transformation_matrix = Sy::sy(&d.specular_map_transformation_matrix, f == 0, ANY); }
    if c.on(f, 27) { e.reflection_map_blend_factor = Sy::sy(&d.reflection_map_blend_factor, f == 0, ANY); }
    if c.on(f, 28) { e.use_image_file_for_reflection_map = Sy::sy(&d.use_image_file_for_reflection_map, f == 0, ANY); }
    if c.on(f, 29) { e.reflection_map_file_name = Sy::sy(&d.reflection_map_file_name, f == 0, ANY); }
    if c.on(f, 30) { e.reflection_map_projection_method = Sy::sy(&d.reflection_map_projection_method, f == 0, ANY); }
    if c.on(f, 31) { e.reflection_map_tiling_method = Sy::sy(&d.reflection_map_tiling_method, f == 0, ANY); }
    if c.on(f, 32) { e.reflection_map_auto_transform_method = Sy::sy(&d.reflection_map_auto_transform_method, f == 0, ANY); }
    if c.on(f, 33) { e.reflection_map_transformation_matrix = Sy::sy(&d.reflection_map_transformation_matrix, f == 0, ANY); }
    if c.on(f, 34) { e.opacity_factor = Sy::sy(&d.opacity_factor, f == 0, ANY); }
    if c.on(f, 35) { e.opacity_map_blend_factor = Sy::sy(&d.opacity_map_blend_factor, f == 0, ANY); }
    if c.on(f, 36) { e.use_image_file_for_opacity_map = Sy::sy(&d.use_image_file_for_opacity_map, f == 0, ANY); }
    if c.on(f, 37) { e.opacity_map_file_name = Sy::sy(&d.opacity_map_file_name, f == 0, ANY); }
    if c.on(f, 38) { e.opacity_map_projection_method = Sy::sy(&d.opacity_map_projection_method, f == 0, ANY); }
    if c.on(f, 39) { e.opacity_map_tiling_method = Sy::sy(&d.opacity_map_tiling_method, f == 0, ANY); }
    if c.on(f, 40) { e.opacity_map_auto_transform_method = Sy::sy(&d.opacity_map_auto_transform_method, f == 0, ANY); }
    if c.on(f, 41) { e.opacity_map_transformation_matrix = Sy::sy(&d.opacity_map_transformation_matrix, f == 0, ANY); }
    if c.on(f, 42) { e.bump_map_blend_factor = Sy::sy(&d.bump_map_blend_factor, f == 0, ANY); }
    if c.on(f, 43) { e.use_image_file_for_bump_map = Sy::sy(&d.use_image_file_for_bump_map, f == 0, ANY); }
    if c.on(f, 44) { e.bump_map_file_name = Sy::sy(&d.bump_map_file_name, f == 0, ANY); }
    if c.on(f, 45) { e.bump_map_projection_method = Sy::sy(&d.bump_map_projection_method, f == 0, ANY); }
    if c.on(f, 46) { e.bump_map_tiling_method = Sy::sy(&d.bump_map_tiling_method, f == 0, ANY); }
    if c.on(f, 47) { e.bump_map_auto_transform_method = Sy::sy(&d.bump_map_auto_transform_method, f == 0, ANY); }
    if c.on(f, 48) { e.bump_map_transformation_matrix = Sy::sy(&d.bump_map_transformation_matrix, f == 0, ANY); }
    if c.on(f, 49) { e.refraction_index = Sy::sy(&d.refraction_index, f == 0, ANY); }
    if c.on(f, 50) { e.refraction_map_blend_factor = Sy::sy(&d.refraction_map_blend_factor, f == 0, ANY); }
    if c.on(f, 51) { e.use_image_file_for_refraction_map = Sy::sy(&d.use_image_file_for_refraction_map, f == 0, ANY); }
    if c.on(f, 52) { e.refraction_map_file_name = Sy::sy(&d.refraction_map_file_name, f == 0, ANY); }
    if c.on(f, 53) { e.refraction_map_projection_method = Sy::sy(&d.refraction_map_projection_method, f == 0, ANY); }
    if c.on(f, 54) { e.refraction_map_tiling_method = Sy::sy(&d.refraction_map_tiling_method, f == 0, ANY); }
    if c.on(f, 55) { e.refraction_map_auto_transform_method = Sy::sy(&d.refraction_map_auto_transform_method, f == 0, ANY); }
    if c.on(f, 56) { e.refraction_map_transformation_matrix = Sy::sy(&d.refraction_map_transformation_matrix, f == 0, ANY); }
    if c.on(f, 57) { e.color_bleed_scale = Sy::sy(&d.color_bleed_scale, f == 0, ANY); }
    if c.on(f, 58) { e.indirect_dump_scale = Sy::sy(&d.indirect_dump_scale, f == 0, ANY); }
    if c.on(f, 59) { e.reflectance_scale = Sy::sy(&d.reflectance_scale, f == 0, ANY); }
    if c.on(f, 60) { e.transmittance_scale = Sy::sy(&d.transmittance_scale, f == 0, ANY); }
    if c.on(f, 61) { e.is_two_sided = Sy::sy(&d.is_two_sided, f == 0, ANY); }
    if c.on(f, 62) { e.luminance = Sy::sy(&d.luminance, f == 0, ANY); }
    if c.on(f, 63) { e.luminance_mode = Sy::sy(&d.luminance_mode, f == 0, ANY); }
    if c.on(f, 64) { e.normal_map_method = Sy::sy(&d.normal_map_method, f == 0, ANY); }
    if c.on(f, 65) { e.normal_map_strength = Sy::sy(&d.normal_map_strength, f == 0, ANY); }
    if c.on(f, 66) { e.normal_map_blend_factor = Sy::sy(&d.normal_map_blend_factor, f == 0, ANY); }
    if c.on(f, 67) { e.use_image_file_for_normal_map = Sy::sy(&d.use_image_file_for_normal_map, f == 0, ANY); }
    if c.on(f, 68) { e.normal_map_file_name = Sy::sy(&d.normal_map_file_name, f == 0, ANY); }
    if c.on(f, 69) { e.normal_map_projection_method = Sy::sy(&d.normal_map_projection_method, f == 0, ANY); }
    if c.on(f, 70) { e.normal_map_tiling_method = Sy::sy(&d.normal_map_tiling_method, f == 0, ANY); }
    if c.on(f, 71) { e.normal_map_auto_transform_method = Sy::sy(&d.normal_map_auto_transform_method, f == 0, ANY); }
    if c.on(f, 72) { e.normal_map_transformation_matrix = Sy::sy(&d.normal_map_transformation_matrix, f == 0, ANY); }
    if c.on(f, 73) { e.is_anonymous = Sy::sy(&d.is_anonymous, f == 0, ANY); }
    if c.on(f, 74) { e.global_illumination_mode = Sy::sy(&d.global_illumination_mode, f == 0, ANY); }
    if c.on(f, 75) { e.final_gather_mode = Sy::sy(&d.final_gather_mode, f == 0, ANY); }
    if c.on(f, 76) { e.gen_proc_name = Sy::sy(&d.gen_proc_name, f == 0, ANY); }
    if c.on(f, 77) { e.gen_proc_boolean_value = Sy::sy(&d.gen_proc_boolean_value, f == 0, ANY); }
    if c.on(f, 78) { e.gen_proc_integer_value = Sy::sy(&d.gen_proc_integer_value, f == 0, ANY); }
    if c.on(f, 79) { e.gen_proc_real_value = Sy::sy(&d.gen_proc_real_value, f == 0, ANY); }
    if c.on(f, 80) { e.gen_proc_text_value = Sy::sy(&d.gen_proc_text_value, f == 0, ANY); }
    if c.on(f, 81) { e.gen_proc_table_end = Sy::sy(&d.gen_proc_table_end, f == 0, ANY); }
    if c.on(f, 82) { e.gen_proc_color_index_value = Sy::sy(&d.gen_proc_color_index_value, f == 0, ANY); }
    if c.on(f, 83) { e.gen_proc_color_rgb_value = Sy::sy(&d.gen_proc_color_rgb_value, f == 0, ANY); }
    if c.on(f, 84) { e.gen_proc_color_name = Sy::sy(&d.gen_proc_color_name, f == 0, ANY); }
    if c.on(f, 85) { e.map_u_tile = Sy::sy(&d.map_u_tile, f == 0, ANY); }
    if c.on(f, 86) { e.map_v_tile = Sy::sy(&d.map_v_tile, f == 0, ANY); }
    if c.on(f, 87) { e.translucence = Sy::sy(&d.translucence, f == 0, ANY); }
    if c.on(f, 88) { e.self_illumination = Sy::sy(&d.self_illumination, f == 0, ANY); }
    if c.on(f, 89) { e.reflectivity = Sy::sy(&d.reflectivity, f == 0, ANY); }
    if c.on(f, 90) { e.illumination_model = Sy::sy(&d.illumination_model, f == 0, ANY); }
    if c.on(f, 91) { e.channel_flags = Sy::sy(&d.channel_flags, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "Material", ObjectType::Material(e), v).and_then(|s| if let ObjectType::Material(x) = s.specific { Some(x) } else { c.chk(false, "Material: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.name.same(&e0.name), "Material.name", v);
        c.chk(r.description.same(&e0.description), "Material.description", v);
        c.chk(r.override_ambient_color.same(&e0.override_ambient_color), "Material.override_ambient_color", v);
        c.chk(r.ambient_color_factor.same(&e0.ambient_color_factor), "Material.ambient_color_factor", v);
        c.chk(r.ambient_color_value.same(&e0.ambient_color_value), "Material.ambient_color_value", v);
        c.chk(r.override_diffuse_color.same(&e0.override_diffuse_color), "Material.override_diffuse_color", v);
        c.chk(r.diffuse_color_factor.same(&e0.diffuse_color_factor), "Material.diffuse_color_factor", v);
        c.chk(r.diffuse_color_value.same(&e0.diffuse_color_value), "Material.diffuse_color_value", v);
        c.chk(r.diffuse_map_blend_factor.same(&e0.diffuse_map_blend_factor), "Material.diffuse_map_blend_factor", v);
        c.chk(r.use_image_file_for_diffuse_map.same(&e0.use_image_file_for_diffuse_map), "Material.use_image_file_for_diffuse_map", v);
        c.chk(r.diffuse_map_file_name.same(&e0.diffuse_map_file_name), "Material.diffuse_map_file_name", v);
        c.chk(r.diffuse_map_projection_method.same(&e0.diffuse_map_projection_method), "Material.diffuse_map_projection_method", v);
        c.chk(r.diffuse_map_tiling_method.same(&e0.diffuse_map_tiling_method), "Material.diffuse_map_tiling_method", v);
        c.chk(r.diffuse_map_auto_transform_method.same(&e0.diffuse_map_auto_transform_method), "Material.diffuse_map_auto_transform_method", v);
        c.chk(r.diffuse_map_transformation_matrix.same(&e0.diffuse_map_transformation_matrix), "Material.diffuse_map_transformation_matrix", v);
        c.chk(r.specular_gloss_factor.same(&e0.specular_gloss_factor), "Material.specular_gloss_factor", v);
        c.chk(r.override_specular_color.same(&e0.override_specular_color), "Material.override_specular_color", v);
        c.chk(r.specular_color_factor.same(&e0.specular_color_factor), "Material.specular_color_factor", v);
        c.chk(r.specular_color_value.same(&e0.specular_color_value), "Material.specular_color_value", v);
        c.chk(r.specular_map_blend_factor.same(&e0.specular_map_blend_factor), "Material.specular_map_blend_factor", v);
        c.chk(r.use_image_file_for_specular_map.same(&e0.use_image_file_for_specular_map), "Material.use_image_file_for_specular_map", v);
        c.chk(r.specular_map_file_name.same(&e0.specular_map_file_name), "Material.specular_map_file_name", v);
        c.chk(r.specular_map_projection_method.same(&e0.specular_map_projection_method), "Material.specular_map_projection_method", v);
        c.chk(r.specular_map_tiling_method.same(&e0.specular_map_tiling_method), "Material.specular_map_tiling_method", v);
        c.chk(r.specular_map_auto_transform_method.same(&e0.specular_map_auto_transform_method), "Material.specular_map_auto_transform_method", v);
        c.chk(r.specular_map_transformation_matrix.same(&e0.specular_map_transformation_matrix), "Material.specular_map_transformation_matrix", v);
        c.chk(r.reflection_map_blend_factor.same(&e0.reflection_map_blend_factor), "Material.reflection_map_blend_factor", v);
        c.chk(r.use_image_file_for_reflection_map.same(&e0.use_image_file_for_reflection_map), "Material.use_image_file_for_reflection_map", v);
        c.chk(r.reflection_map_file_name.same(&e0.reflection_map_file_name), "Material.reflection_map_file_name", v);
        c.chk(r.reflection_map_projection_method.same(&e0.reflection_map_projection_method), "Material.reflection_map_projection_method", v);
        c.chk(r.reflection_map_tiling_method.same(&e0.reflection_map_tiling_method), "Material.reflection_map_tiling_method", v);
        c.chk(r.reflection_map_auto_transform_method.same(&e0.reflection_map_auto_transform_method), "Material.reflection_map_auto_transform_method", v);
        c.chk(r.reflection_map_transformation_matrix.same(&e0.reflection_map_transformation_matrix), "Material.reflection_map_transformation_matrix", v);
        c.chk(r.opacity_factor.same(&e0.opacity_factor), "Material.opacity_factor", v);
        c.chk(r.opacity_map_blend_factor.same(&e0.opacity_map_blend_factor), "Material.opacity_map_blend_factor", v);
        c.chk(r.use_image_file_for_opacity_map.same(&e0.use_image_file_for_opacity_map), "Material.use_image_file_for_opacity_map", v);
        c.chk(r.opacity_map_file_name.same(&e0.opacity_map_file_name), "Material.opacity_map_file_name", v);
        c.chk(r.opacity_map_projection_method.same(&e0.opacity_map_projection_method), "Material.opacity_map_projection_method", v);
        c.chk(r.opacity_map_tiling_method.same(&e0.opacity_map_tiling_method), "Material.opacity_map_tiling_method", v);
        c.chk(r.opacity_map_auto_transform_method.same(&e0.opacity_map_auto_transform_method), "Material.opacity_map_auto_transform_method", v);
        c.chk(r.opacity_map_transformation_matrix.same(&e0.opacity_map_transformation_matrix), "Material.opacity_map_transformation_matrix", v);
        c.chk(r.bump_map_blend_factor.same(&e0.bump_map_blend_factor), "Material.bump_map_blend_factor", v);
        c.chk(r.use_image_file_for_bump_map.same(&e0.use_image_file_for_bump_map), "Material.use_image_file_for_bump_map", v);
        c.chk(r.bump_map_file_name.same(&e0.bump_map_file_name), "Material.bump_map_file_name", v);
        c.chk(r.bump_map_projection_method.same(&e0.bump_map_projection_method), "Material.bump_map_projection_method", v);
        c.chk(r.bump_map_tiling_method.same(&e0.bump_map_tiling_method), "Material.bump_map_tiling_method", v);
        c.chk(r.bump_map_auto_transform_method.same(&e0.bump_map_auto_transform_method), "Material.bump_map_auto_transform_method", v);
        c.chk(r.bump_map_transformation_matrix.same(&e0.bump_map_transformation_matrix), "Material.bump_map_transformation_matrix", v);
        c.chk(r.refraction_index.same(&e0.refraction_index), "Material.refraction_index", v);
        c.chk(r.refraction_map_blend_factor.same(&e0.refraction_map_blend_factor), "Material.refraction_map_blend_factor", v);
        c.chk(r.use_image_file_for_refraction_map.same(&e0.use_image_file_for_refraction_map), "Material.use_image_file_for_refraction_map", v);
        c.chk(r.refraction_map_file_name.same(&e0.refraction_map_file_name), "Material.refraction_map_file_name", v);
        c.chk(r.refraction_map_projection_method.same(&e0.refraction_map_projection_method), "Material.refraction_map_projection_method", v);
        c.chk(r.refraction_map_tiling_method.same(&e0.refraction_map_tiling_method), "Material.refraction_map_tiling_method", v);
        c.chk(r.refraction_map_auto_transform_method.same(&e0.refraction_map_auto_transform_method), "Material.refraction_map_auto_transform_method", v);
        c.chk(r.refraction_map_transformation_matrix.same(&e0.refraction_map_transformation_matrix), "Material.refraction_map_transformation_matrix", v);
        c.chk(r.color_bleed_scale.same(if v >= 17 { &e0.color_bleed_scale } else { &d.color_bleed_scale }), "Material.color_bleed_scale", v);
        c.chk(r.indirect_dump_scale.same(if v >= 17 { &e0.indirect_dump_scale } else { &d.indirect_dump_scale }), "Material.indirect_dump_scale", v);
        c.chk(r.reflectance_scale.same(if v >= 17 { &e0.reflectance_scale } else { &d.reflectance_scale }), "Material.reflectance_scale", v);
        c.chk(r.transmittance_scale.same(if v >= 17 { &e0.transmittance_scale } else { &d.transmittance_scale }), "Material.transmittance_scale", v);
        c.chk(r.is_two_sided.same(if v >= 17 { &e0.is_two_sided } else { &d.is_two_sided }), "Material.is_two_sided", v);
        c.chk(r.luminance.same(if v >= 17 { &e0.luminance } else { &d.luminance }), "Material.luminance", v);
        c.chk(r.luminance_mode.same(if v >= 17 { &e0.luminance_mode } else { &d.luminance_mode }), "Material.luminance_mode", v);
        c.chk(r.normal_map_method.same(if v >= 17 { &e0.normal_map_method } else { &d.normal_map_method }), "Material.normal_map_method", v);
        c.chk(r.normal_map_strength.same(if v >= 17 { &e0.normal_map_strength } else { &d.normal_map_strength }), "Material.normal_map_strength", v);
        c.chk(r.normal_map_blend_factor.same(if v >= 17 { &e0.normal_map_blend_factor } else { &d.normal_map_blend_factor }), "Material.normal_map_blend_factor", v);
        c.chk(r.use_image_file_for_normal_map.same(if v >= 17 { &e0.use_image_file_for_normal_map } else { &d.use_image_file_for_normal_map }), "Material.use_image_file_for_normal_map", v);
        c.chk(r.normal_map_file_name.same(if v >= 17 { &e0.normal_map_file_name } else { &d.normal_map_file_name }), "Material.normal_map_file_name", v);
        c.chk(r.normal_map_projection_method.same(if v >= 17 { &e0.normal_map_projection_method } else { &d.normal_map_projection_method }), "Material.normal_map_projection_method", v);
        c.chk(r.normal_map_tiling_method.same(if v >= 17 { &e0.normal_map_tiling_method } else { &d.normal_map_tiling_method }), "Material.normal_map_tiling_method", v);
        c.chk(r.normal_map_auto_transform_method.same(if v >= 17 { &e0.normal_map_auto_transform_method } else { &d.normal_map_auto_transform_method }), "Material.normal_map_auto_transform_method", v);
        c.chk(r.normal_map_transformation_matrix.same(if v >= 17 { &e0.normal_map_transformation_matrix } else { &d.normal_map_transformation_matrix }), "Material.normal_map_transformation_matrix", v);
        c.chk(r.is_anonymous.same(if v >= 17 { &e0.is_anonymous } else { &d.is_anonymous }), "Material.is_anonymous", v);
        c.chk(r.global_illumination_mode.same(if v >= 17 { &e0.global_illumination_mode } else { &d.global_illumination_mode }), "Material.global_illumination_mode", v);
        c.chk(r.final_gather_mode.same(if v >= 17 { &e0.final_gather_mode } else { &d.final_gather_mode }), "Material.final_gather_mode", v);
        c.chk(r.gen_proc_name.same(if v >= 17 { &e0.gen_proc_name } else { &d.gen_proc_name }), "Material.gen_proc_name", v);
        c.chk(r.gen_proc_boolean_value.same(if v >= 17 { &e0.gen_proc_boolean_value } else { &d.gen_proc_boolean_value }), "Material.gen_proc_boolean_value", v);
        c.chk(r.gen_proc_integer_value.same(if v >= 17 { &e0.gen_proc_integer_value } else { &d.gen_proc_integer_value }), "Material.gen_proc_integer_value", v);
        c.chk(r.gen_proc_real_value.same(if v >= 17 { &e0.gen_proc_real_value } else { &d.gen_proc_real_value }), "Material.gen_proc_real_value", v);
        c.chk(r.gen_proc_text_value.same(if v >= 17 { &e0.gen_proc_text_value } else { &d.gen_proc_text_value }), "Material.gen_proc_text_value", v);
        c.chk(r.gen_proc_table_end.same(if v >= 17 { &e0.gen_proc_table_end } else { &d.gen_proc_table_end }), "Material.gen_proc_table_end", v);
        c.chk(r.gen_proc_color_index_value.same(if v >= 17 { &e0.gen_proc_color_index_value } else { &d.gen_proc_color_index_value }), "Material.gen_proc_color_index_value", v);
        c.chk(r.gen_proc_color_rgb_value.same(if v >= 17 { &e0.gen_proc_color_rgb_value } else { &d.gen_proc_color_rgb_value }), "Material.gen_proc_color_rgb_value", v);
        c.chk(r.gen_proc_color_name.same(if v >= 17 { &e0.gen_proc_color_name } else { &d.gen_proc_color_name }), "Material.gen_proc_color_name", v);
        c.chk(r.map_u_tile.same(if v >= 17 { &e0.map_u_tile } else { &d.map_u_tile }), "Material.map_u_tile", v);
        c.chk(r.map_v_tile.same(if v >= 17 { &e0.map_v_tile } else { &d.map_v_tile }), "Material.map_v_tile", v);
        c.chk(r.translucence.same(if v >= 18 { &e0.translucence } else { &d.translucence }), "Material.translucence", v);
        c.chk(r.self_illumination.same(if v >= 18 { &e0.self_illumination } else { &d.self_illumination }), "Material.self_illumination", v);
        c.chk(r.reflectivity.same(if v >= 18 { &e0.reflectivity } else { &d.reflectivity }), "Material.reflectivity", v);
        c.chk(r.illumination_model.same(if v >= 18 { &e0.illumination_model } else { &d.illumination_model }), "Material.illumination_model", v);
        c.chk(r.channel_flags.same(if v >= 18 { &e0.channel_flags } else { &d.channel_flags }), "Material.channel_flags", v);
    }
}
fn rt_o_MLeaderStyle(c: &Cx) {
    let d = MLeaderStyle::default();
    let mut e = d.clone();
    let v = c.ver(17, 20); let f = c.field(44);
    if c.on(f, 1) { e.content_type = Sy::sy(&d.content_type, f == 0, ANY); }
    if c.on(f, 2) { e.draw_m_leader_order_type = Sy::sy(&d.draw_m_leader_order_type, f == 0, ANY); }
    if c.on(f, 3) { e.draw_leader_order_type = Sy::sy(&d.draw_leader_order_type, f == 0, ANY); }
    if c.on(f, 4) { e.max_leader_segment_count = Sy::sy(&d.max_leader_segment_count, f == 0, ANY); }
    if c.on(f, 5) { e.first_segment_angle_constraint = Sy::sy(&d.first_segment_angle_constraint, f == 0, ANY); }
    if c.on(f, 6) { e.second_segment_angle_constraint = Sy::sy(&d.second_segment_angle_constraint, f == 0, ANY); }
    if c.on(f, 7) { e.leader_line_type = Sy::sy(&d.leader_line_type, f == 0, ANY); }
    if c.on(f, 8) { e.leader_line_color = Sy::sy(&d.leader_line_color, f == 0, ANY); }
    if c.on(f, 9) { e.__line_leader_type_handle = Sy::sy(&d.__line_leader_type_handle, f == 0, ANY); }
    if c.on(f, 10) { e.leader_line_weight = Sy::sy(&d.leader_line_weight, f == 0, ANY); }
    if c.on(f, 11) { e.enable_landing = Sy::sy(&d.enable_landing, f == 0, ANY); }
    if c.on(f, 12) { e.landing_gap = Sy::sy(&d.landing_gap, f == 0, ANY); }
    if c.on(f, 13) { e.enable_dogleg = Sy::sy(&d.enable_dogleg, f == 0, ANY); }
    if c.on(f, 14) { e.dogleg_length = Sy::sy(&d.dogleg_length, f == 0, ANY); }
    if c.on(f, 15) { e.m_leader_style_description = Sy::sy(&d.m_leader_style_description, f == 0, ANY); }
    if c.on(f, 16) { e.__arrowhead_handle = Sy::sy(&d.__arrowhead_handle, f == 0, ANY); }
    if c.on(f, 17) { e.arrowhead_size = Sy::sy(&d.arrowhead_size, f == 0, ANY); }
    if c.on(f, 18) { e.default_m_text_contents = Sy::sy(&d.default_m_text_contents, f == 0, ANY); }
    if c.on(f, 19) { e.__m_text_style_handle = Sy::sy(&d.__m_text_style_handle, f == 0, ANY); }
    if c.on(f, 20) { e.text_left_attachment_type = Sy::sy(&d.text_left_attachment_type, f == 0, ANY); }
    if c.on(f, 21) { e.text_angle_type = Sy::sy(&d.text_angle_type, f == 0, ANY); }
    if c.on(f, 22) { e.text_alignment_type = Sy::sy(&d.text_alignment_type, f == 0, ANY); }
    if c.on(f, 23) { e.text_right_attachment_type = Sy::sy(&d.text_right_attachment_type, f == 0, ANY); }
    if c.on(f, 24) { e.text_color = Sy::sy(&d.text_color, f == 0, ANY); }
    if c.on(f, 25) { e.text_height = Sy::sy(&d.text_height, f == 0, ANY); }
    if c.on(f, 26) { e.enable_frame_text = Sy::sy(&d.enable_frame_text, f == 0, ANY); }
    if c.on(f, 27) { e.always_align_text_left = Sy::sy(&d.always_align_text_left, f == 0, ANY); }
    if c.on(f, 28) { e.align_gap = Sy::sy(&d.align_gap, f == 0, ANY); }
    if c.on(f, 29) { e.__block_content_handle = Sy::sy(&d.__block_content_handle, f == 0, ANY); }
    if c.on(f, 30) { e.block_content_color = Sy::sy(&d.block_content_color, f == 0, ANY); }
    if c.on(f, 31) { e.block_content_x_scale = Sy::sy(&d.block_content_x_scale, f == 0, ANY); }
    if c.on(f, 32) { e.block_content_y_scale = Sy::sy(&d.block_content_y_scale, f == 0, ANY); }
    if c.on(f, 33) { e.block_content_z_scale = Sy::sy(&d.block_content_z_scale, f == 0, ANY); }
    if c.on(f, 34) { e.enable_block_content_scale = Sy::sy(&d.enable_block_content_scale, f == 0, ANY); }
    if c.on(f, 35) { e.block_content_rotation = Sy::sy(&d.block_content_rotation, f == 0, ANY); }
    if c.on(f, 36) { e.enable_block_content_rotation = Sy::sy(&d.enable_block_content_rotation, f == 0, ANY); }
    if c.on(f, 37) { e.block_content_connection_type = Sy::sy(&d.block_content_connection_type, f == 0, ANY); }
    if c.on(f, 38) { e.scale = Sy::sy(&d.scale, f == 0, ANY); }
    if c.on(f, 39) { e.overwrite_field_value = Sy::sy(&d.overwrite_field_value, f == 0, ANY); }
    if c.on(f, 40) { e.is_annotative = Sy::sy(&d.is_annotative, f == 0, ANY); }
    if c.on(f, 41) { e.break_gap_size = Sy::sy(&d.break_gap_size, f == 0, ANY); }
    if c.on(f, 42) { e.text_attachment_direction = Sy::sy(&d.text_attachment_direction, f == 0, ANY); }
    if c.on(f, 43) { e.bottom_text_attachment_direction = Sy::sy(&d.bottom_text_attachment_direction, f == 0, ANY); }
    if c.on(f, 44) { e.top_text_attachment_direction = Sy::sy(&d.top_text_attachment_direction, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "MLeaderStyle", ObjectType::MLeaderStyle(e), v).and_then(|s| if let ObjectType::MLeaderStyle(x) = s.specific { Some(x) } else { c.chk(false, "MLeaderStyle: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.content_type.same(&e0.content_type), "MLeaderStyle.content_type", v);
        c.chk(r.draw_m_leader_order_type.same(&e0.draw_m_leader_order_type), "MLeaderStyle.draw_m_leader_order_type", v);
        c.chk(r.draw_leader_order_type.same(&e0.draw_leader_order_type), "MLeaderStyle.draw_leader_order_type", v);
        c.chk(r.max_leader_segment_count.same(&e0.max_leader_segment_count), "MLeaderStyle.max_leader_segment_count", v);
        c.chk(r.first_segment_angle_constraint.same(&e0.first_segment_angle_constraint), "MLeaderStyle.first_segment_angle_constraint", v);
        c.chk(r.second_segment_angle_constraint.same(&e0.second_segment_angle_constraint), "MLeaderStyle.second_segment_angle_constraint", v);
        c.chk(r.leader_line_type.same(&e0.leader_line_type), "MLeaderStyle.leader_line_type", v);
        c.chk(r.leader_line_color.same(&e0.leader_line_color), "MLeaderStyle.leader_line_color", v);
        c.chk(r.__line_leader_type_handle.same(&e0.__line_leader_type_handle), "MLeaderStyle.line_leader_type", v);
        c.chk(r.leader_line_weight.same(&e0.leader_line_weight), "MLeaderStyle.leader_line_weight", v);
        c.chk(r.enable_landing.same(&e0.enable_landing), "MLeaderStyle.enable_landing", v);
        c.chk(r.landing_gap.same(&e0.landing_gap), "MLeaderStyle.landing_gap", v);
        c.chk(r.enable_dogleg.same(&e0.enable_dogleg), "MLeaderStyle.enable_dogleg", v);
        c.chk(r.dogleg_length.same(&e0.dogleg_length), "MLeaderStyle.dogleg_length", v);
        c.chk(r.m_leader_style_description.same(&e0.m_leader_style_description), "MLeaderStyle.m_leader_style_description", v);
        c.chk(r.__arrowhead_handle.same(&e0.__arrowhead_handle), "MLeaderStyle.arrowhead", v);
        c.chk(r.arrowhead_size.same(&e0.arrowhead_size), "MLeaderStyle.arrowhead_size", v);
        c.chk(r.default_m_text_contents.same(&e0.default_m_text_contents), "MLeaderStyle.default_m_text_contents", v);
        c.chk(r.__m_text_style_handle.same(&e0.__m_text_style_handle), "MLeaderStyle.m_text_style", v);
        c.chk(r.text_left_attachment_type.same(&e0.text_left_attachment_type), "MLeaderStyle.text_left_attachment_type", v);
        c.chk(r.text_angle_type.same(&e0.text_angle_type), "MLeaderStyle.text_angle_type", v);
        c.chk(r.text_alignment_type.same(&e0.text_alignment_type), "MLeaderStyle.text_alignment_type", v);
        c.chk(r.text_right_attachment_type.same(&e0.text_right_attachment_type), "MLeaderStyle.text_right_attachment_type", v);
        c.chk(r.text_color.same(&e0.text_color), "MLeaderStyle.text_color", v);
        c.chk(r.text_height.same(&e0.text_height), "MLeaderStyle.text_height", v);
        c.chk(r.enable_frame_text.same(&e0.enable_frame_text), "MLeaderStyle.enable_frame_text", v);
        c.chk(r.always_align_text_left.same(&e0.always_align_text_left), "MLeaderStyle.always_align_text_left", v);
        c.chk(r.align_gap.same(&e0.align_gap), "MLeaderStyle.align_gap", v);
        c.chk(r.__block_content_handle.same(&e0.__block_content_handle), "MLeaderStyle.block_content", v);
        c.chk(r.block_content_color.same(&e0.block_content_color), "MLeaderStyle.block_content_color", v);
        c.chk(r.block_content_x_scale.same(&e0.block_content_x_scale), "MLeaderStyle.block_content_x_scale", v);
        c.chk(r.block_content_y_scale.same(&e0.block_content_y_scale), "MLeaderStyle.block_content_y_scale", v);
        c.chk(r.block_content_z_scale.same(&e0.block_content_z_scale), "MLeaderStyle.block_content_z_scale", v);
        c.chk(r.enable_block_content_scale.same(&e0.enable_block_content_scale), "MLeaderStyle.enable_block_content_scale", v);
        c.chk(r.block_content_rotation.same(&e0.block_content_rotation), "MLeaderStyle.block_content_rotation", v);
        c.chk(r.enable_block_content_rotation.same(&e0.enable_block_content_rotation), "MLeaderStyle.enable_block_content_rotation", v);
        c.chk(r.block_content_connection_type.same(&e0.block_content_connection_type), "MLeaderStyle.block_content_connection_type", v);
        c.chk(r.scale.same(&e0.scale), "MLeaderStyle.scale", v);
        c.chk(r.overwrite_field_value.same(&e0.overwrite_field_value), "MLeaderStyle.overwrite_field_value", v);
        c.chk(r.is_annotative.same(&e0.is_annotative), "MLeaderStyle.is_annotative", v);
        c.chk(r.break_gap_size.same(&e0.break_gap_size), "MLeaderStyle.break_gap_size", v);
        c.chk(r.text_attachment_direction.same(&e0.text_attachment_direction), "MLeaderStyle.text_attachment_direction", v);
        c.chk(r.bottom_text_attachment_direction.same(&e0.bottom_text_attachment_direction), "MLeaderStyle.bottom_text_attachment_direction", v);
        c.chk(r.top_text_attachment_direction.same(&e0.top_text_attachment_direction), "MLeaderStyle.top_text_attachment_direction", v);
    }
}
fn rt_o_MLineStyle(c: &Cx) {
    let d = MLineStyle::default();
    let mut e = d.clone();
    let v = c.ver(13, 20); let f = c.field(6);
    if c.on(f, 1) { e.style_name = Sy::sy(&d.style_name, f == 0, ANY); }
    if c.on(f, 2) { e.description = Sy::sy(&d.description, f == 0, ANY); }
    if c.on(f, 3) { e.fill_color = Sy::sy(&d.fill_color, f == 0, ANY); }
    if c.on(f, 4) { e.start_angle = Sy::sy(&d.start_angle, f == 0, ANY); }
    if c.on(f, 5) { e.end_angle = Sy::sy(&d.end_angle, f == 0, ANY); }
    if c.on(f, 6) { e.elements = Sy::sy(&d.elements, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "MLineStyle", ObjectType::MLineStyle(e), v).and_then(|s| if let ObjectType::MLineStyle(x) = s.specific { Some(x) } else { c.chk(false, "MLineStyle: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.style_name.same(&e0.style_name), "MLineStyle.style_name", v);
        c.chk(r.description.same(&e0.description), "MLineStyle.description", v);
        c.chk(r.fill_color.same(&e0.fill_color), "MLineStyle.fill_color", v);
        c.chk(r.start_angle.same(&e0.start_angle), "MLineStyle.start_angle", v);
        c.chk(r.end_angle.same(&e0.end_angle), "MLineStyle.end_angle", v);
        c.chk(r.elements.same(&e0.elements), "MLineStyle.elements", v);
    }
}
fn rt_o_ObjectPointer(c: &Cx) {
    let d = ObjectPointer::default();
    let mut e = d.clone();
    let v = c.ver(14, 20); let f = c.field(0);
    let e0 = e.clone();
    let r = rt_obj(c, "ObjectPointer", ObjectType::ObjectPointer(e), v).and_then(|s| if let ObjectType::ObjectPointer(x) = s.specific { Some(x) } else { c.chk(false, "ObjectPointer: loaded as another type", v); None });
    if let Some(r) = r {
    }
}
fn rt_o_PlotSettings(c: &Cx) {
    let d = PlotSettings::default();
    let mut e = d.clone();
    let v = c.ver(15, 20); let f = c.field(31);
    if c.on(f, 1) { e.page_setup_name = Sy::sy(&d.page_setup_name, f == 0, ANY); }
    if c.on(f, 2) { e.printer_name = Sy::sy(&d.printer_name, f == 0, ANY); }
    if c.on(f, 3) { e.paper_size = Sy::sy(&d.paper_size, f == 0, ANY); }
    if c.on(f, 4) { e.plot_view_name = Sy::sy(&d.plot_view_name, f == 0, ANY); }
    if c.on(f, 5) { e.unprintable_left_margin_size = Sy::sy(&d.unprintable_left_margin_size, f == 0, ANY); }
    if c.on(f, 6) { e.unprintable_bottom_margin_size = Sy::sy(&d.unprintable_bottom_margin_size, f == 0, ANY); }
    if c.on(f, 7) { e.unprintable_right_margin_size = Sy::sy(&d.unprintable_right_margin_size, f == 0, ANY); }
    if c.on(f, 8) { e.unprintable_top_margin_size = Sy::sy(&d.unprintable_top_margin_size, f == 0, ANY); }
    if c.on(f, 9) { e.paper_width = Sy::sy(&d.paper_width, f == 0, ANY); }
    if c.on(f, 10) { e.paper_height = Sy::sy(&d.paper_height, f == 0, ANY); }
    if c.on(f, 11) { e.plot_origin_x_value = Sy::sy(&d.plot_origin_x_value, f == 0, ANY); }
    if c.on(f, 12) { e.plot_origin_y_value = Sy::sy(&d.plot_origin_y_value, f == 0, ANY); }
    if c.on(f, 13) { e.plot_window_lower_left_x_value = Sy::sy(&d.plot_window_lower_left_x_value, f == 0, ANY); }
    if c.on(f, 14) { e.plot_window_lower_left_y_value = Sy::sy(&d.plot_window_lower_left_y_value, f == 0, ANY); }
    if c.on(f, 15) { e.plot_window_upper_right_x_value = Sy::sy(&d.plot_window_upper_right_x_value, f == 0, ANY); }
    if c.on(f, 16) { e.plot_window_upper_right_y_value = Sy::sy(&d.plot_window_upper_right_y_value, f == 0, ANY); }
    if c.on(f, 17) { e.custom_print_scale_numerator = Sy::sy(&d.custom_print_scale_numerator, f == 0, ANY); }
    if c.on(f, 18) { e.custom_print_scale_denominator = Sy::sy(&d.custom_print_scale_denominator, f == 0, ANY); }
    if c.on(f, 19) { e.plot_layout_flags = Sy::sy(&d.plot_layout_flags, f == 0, I16); }
    if c.on(f, 20) { e.plot_paper_units = Sy::sy(&d.plot_paper_units, f == 0, ANY); }
    if c.on(f, 21) { e.plot_rotation = Sy::sy(&d.plot_rotation, f == 0, ANY); }
    if c.on(f, 22) { e.plot_type = Sy::sy(&d.plot_type, f == 0, ANY); }
    if c.on(f, 23) { e.current_style_sheet = Sy::sy(&d.current_style_sheet, f == 0, ANY); }
    if c.on(f, 24) { e.standard_scale = Sy::sy(&d.standard_scale, f == 0, ANY); }
    if c.on(f, 25) { e.shade_plot_mode = Sy::sy(&d.shade_plot_mode, f == 0, ANY); }
    if c.on(f, 26) { e.shade_plot_resolution_level = Sy::sy(&d.shade_plot_resolution_level, f == 0, ANY); }
    if c.on(f, 27) { e.shade_plot_custom_dpi = Sy::sy(&d.shade_plot_custom_dpi, f == 0, I16); }
    if c.on(f, 28) { e.standard_scale_value = Sy::sy(&d.standard_scale_value, f == 0, ANY); }
    if c.on(f, 29) { e.paper_image_origin_x = Sy::sy(&d.paper_image_origin_x, f == 0, ANY); }
    if c.on(f, 30) { e.paper_image_origin_y = Sy::sy(&d.paper_image_origin_y, f == 0, ANY); }
    if c.on(f, 31) { e.__shade_plot_object_handle = Sy::sy(&d.__shade_plot_object_handle, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "PlotSettings", ObjectType::PlotSettings(e), v).and_then(|s| if let ObjectType::PlotSettings(x) = s.specific { Some(x) } else { c.chk(false, "PlotSettings: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.page_setup_name.same(&e0.page_setup_name), "PlotSettings.page_setup_name", v);
        c.chk(r.printer_name.same(&e0.printer_name), "PlotSettings.printer_name", v);
        c.chk(r.paper_size.same(&e0.paper_size), "PlotSettings.paper_size", v);
        c.chk(r.plot_view_name.same(&e0.plot_view_name), "PlotSettings.plot_view_name", v);
        c.chk(r.unprintable_left_margin_size.same(&e0.unprintable_left_margin_size), "PlotSettings.unprintable_left_margin_size", v);
        c.chk(r.unprintable_bottom_margin_size.same(&e0.unprintable_bottom_margin_size), "PlotSettings.unprintable_bottom_margin_size", v);
        c.chk(r.unprintable_right_margin_size.same(&e0.unprintable_right_margin_size), "PlotSettings.unprintable_right_margin_size", v);
        c.chk(r.unprintable_top_margin_size.same(&e0.unprintable_top_margin_size), "PlotSettings.unprintable_top_margin_size", v);
        c.chk(r.paper_width.same(&e0.paper_width), "PlotSettings.paper_width", v);
        c.chk(r.paper_height.same(&e0.paper_height), "PlotSettings.paper_height", v);
        c.chk(r.plot_origin_x_value.same(&e0.plot_origin_x_value), "PlotSettings.plot_origin_x_value", v);
        c.chk(r.plot_origin_y_value.same(&e0.plot_origin_y_value), "PlotSettings.plot_origin_y_value", v);
        c.chk(r.plot_window_lower_left_x_value.same(&e0.plot_window_lower_left_x_value), "PlotSettings.plot_window_lower_left_x_value", v);
        c.chk(r.plot_window_lower_left_y_value.same(&e0.plot_window_lower_left_y_value), "PlotSettings.plot_window_lower_left_y_value", v);
        c.chk(r.plot_window_upper_right_x_value.same(&e0.plot_window_upper_right_x_value), "PlotSettings.plot_window_upper_right_x_value", v);
        c.chk(r.plot_window_upper_right_y_value.same(&e0.plot_window_upper_right_y_value), "PlotSettings.plot_window_upper_right_y_value", v);
        c.chk(r.custom_print_scale_numerator.same(&e0.custom_print_scale_numerator), "PlotSettings.custom_print_scale_numerator", v);
        c.chk(r.custom_print_scale_denominator.same(&e0.custom_print_scale_denominator), "PlotSettings.custom_print_scale_denominator", v);
        c.chk(r.plot_layout_flags.same(&e0.plot_layout_flags), "PlotSettings.plot_layout_flags", v);
        c.chk(r.plot_paper_units.same(&e0.plot_paper_units), "PlotSettings.plot_paper_units", v);
        c.chk(r.plot_rotation.same(&e0.plot_rotation), "PlotSettings.plot_rotation", v);
        c.chk(r.plot_type.same(&e0.plot_type), "PlotSettings.plot_type", v);
        c.chk(r.current_style_sheet.same(&e0.current_style_sheet), "PlotSettings.current_style_sheet", v);
        c.chk(r.standard_scale.same(&e0.standard_scale), "PlotSettings.standard_scale", v);
        c.chk(r.shade_plot_mode.same(if v >= 16 { &e0.shade_plot_mode } else { &d.shade_plot_mode }), "PlotSettings.shade_plot_mode", v);
        c.chk(r.shade_plot_resolution_level.same(if v >= 16 { &e0.shade_plot_resolution_level } else { &d.shade_plot_resolution_level }), "PlotSettings.shade_plot_resolution_level", v);
        c.chk(r.shade_plot_custom_dpi.same(if v >= 16 { &e0.shade_plot_custom_dpi } else { &d.shade_plot_custom_dpi }), "PlotSettings.shade_plot_custom_dpi", v);
        c.chk(r.standard_scale_value.same(&e0.standard_scale_value), "PlotSettings.standard_scale_value", v);
        c.chk(r.paper_image_origin_x.same(&e0.paper_image_origin_x), "PlotSettings.paper_image_origin_x", v);
        c.chk(r.paper_image_origin_y.same(&e0.paper_image_origin_y), "PlotSettings.paper_image_origin_y", v);
        c.chk(r.__shade_plot_object_handle.same(&e0.__shade_plot_object_handle), "PlotSettings.shade_plot_object", v);
    }
}
fn rt_o_RapidRTRenderEnvironment(c: &Cx) {
    let d = RapidRTRenderEnvironment::default();
    let mut e = d.clone();
    let v = c.ver(20, 20); let f = c.field(6);
    if c.on(f, 1) { e.subclass_version = Sy::sy(&d.subclass_version, f == 0, ANY); }
    if c.on(f, 2) { e.is_enabled = Sy::sy(&d.is_enabled, f == 0, ANY); }
    if c.on(f, 3) { e.image_based_lignting_map_file_name = Sy::sy(&d.image_based_lignting_map_file_name, f == 0, ANY); }
    if c.on(f, 4) { e.rotation_angle = Sy::sy(&d.rotation_angle, f == 0, ANY); }
    if c.on(f, 5) { e.is_map_as_background = Sy::sy(&d.is_map_as_background, f == 0, ANY); }
    if c.on(f, 6) { e.__custom_background_handle = Sy::sy(&d.__custom_background_handle, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "RapidRTRenderEnvironment", ObjectType::RapidRTRenderEnvironment(e), v).and_then(|s| if let ObjectType::RapidRTRenderEnvironment(x) = s.specific { Some(x) } else { c.chk(false, "RapidRTRenderEnvironment: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.subclass_version.same(&e0.subclass_version), "RapidRTRenderEnvironment.subclass_version", v);
        c.chk(r.is_enabled.same(&e0.is_enabled), "RapidRTRenderEnvironment.is_enabled", v);
        c.chk(r.image_based_lignting_map_file_name.same(&e0.image_based_lignting_map_file_name), "RapidRTRenderEnvironment.image_based_lignting_map_file_name", v);
        c.chk(r.rotation_angle.same(&e0.rotation_angle), "RapidRTRenderEnvironment.rotation_angle", v);
        c.chk(r.is_map_as_background.same(&e0.is_map_as_background), "RapidRTRenderEnvironment.is_map_as_background", v);
        c.chk(r.__custom_background_handle.same(&e0.__custom_background_handle), "RapidRTRenderEnvironment.custom_background", v);
    }
}
fn rt_o_RapidRenderSettings(c: &Cx) {
    let d = RapidRenderSettings::default();
    let mut e = d.clone();
    let v = c.ver(20, 20); let f = c.field(17);
    if c.on(f, 1) { e.subclass_version = Sy::sy(&d.subclass_version, f == 0, ANY); }
    if c.on(f, 2) { e.render_preset_name = Sy::sy(&d.render_preset_name, f == 0, ANY); }
    if c.on(f, 3) { e.are_materials_enabled = Sy::sy(&d.are_materials_enabled, f == 0, ANY); }
    if c.on(f, 4) { e.is_texture_sampling_enabled = Sy::sy(&d.is_texture_sampling_enabled, f == 0, ANY); }
    if c.on(f, 5) { e.are_back_faces_enabled = Sy::sy(&d.are_back_faces_enabled, f == 0, ANY); }
    if c.on(f, 6) { e.are_shadows_enabled = Sy::sy(&d.are_shadows_enabled, f == 0, ANY); }
    if c.on(f, 7) { e.preview_image_file_name = Sy::sy(&d.preview_image_file_name, f == 0, ANY); }
    if c.on(f, 8) { e.render_preset_description = Sy::sy(&d.render_preset_description, f == 0, ANY); }
    if c.on(f, 9) { e.display_index = Sy::sy(&d.display_index, f == 0, ANY); }
    if c.on(f, 10) { e.is_predefined_render_present = Sy::sy(&d.is_predefined_render_present, f == 0, ANY); }
    if c.on(f, 11) { e.render_duration = Sy::sy(&d.render_duration, f == 0, ANY); }
    if c.on(f, 12) { e.render_level_count_imit = Sy::sy(&d.render_level_count_imit, f == 0, ANY); }
    if c.on(f, 13) { e.render_time_limit = Sy::sy(&d.render_time_limit, f == 0, ANY); }
    if c.on(f, 14) { e.render_accuracy = Sy::sy(&d.render_accuracy, f == 0, ANY); }
    if c.on(f, 15) { e.sampling_filter = Sy::sy(&d.sampling_filter, f == 0, ANY); }
    if c.on(f, 16) { e.filter_width = Sy::sy(&d.filter_width, f == 0, ANY); }
    if c.on(f, 17) { e.filter_height = Sy::sy(&d.filter_height, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "RapidRenderSettings", ObjectType::RapidRenderSettings(e), v).and_then(|s| if let ObjectType::RapidRenderSettings(x) = s.specific { Some(x) } else { c.chk(false, "RapidRenderSettings: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.subclass_version.same(&e0.subclass_version), "RapidRenderSettings.subclass_version", v);
        c.chk(r.render_preset_name.same(&e0.render_preset_name), "RapidRenderSettings.render_preset_name", v);
        c.chk(r.are_materials_enabled.same(&e0.are_materials_enabled), "RapidRenderSettings.are_materials_enabled", v);
        c.chk(r.is_texture_sampling_enabled.same(&e0.is_texture_sampling_enabled), "RapidRenderSettings.is_texture_sampling_enabled", v);
        c.chk(r.are_back_faces_enabled.same(&e0.are_back_faces_enabled), "RapidRenderSettings.are_back_faces_enabled", v);
        c.chk(r.are_shadows_enabled.same(&e0.are_shadows_enabled), "RapidRenderSettings.are_shadows_enabled", v);
        c.chk(r.preview_image_file_name.same(&e0.preview_image_file_name), "RapidRenderSettings.preview_image_file_name", v);
        c.chk(r.render_preset_description.same(&e0.render_preset_description), "RapidRenderSettings.render_preset_description", v);
        c.chk(r.display_index.same(&e0.display_index), "RapidRenderSettings.display_index", v);
        c.chk(r.is_predefined_render_present.same(&e0.is_predefined_render_present), "RapidRenderSettings.is_predefined_render_present", v);
        c.chk(r.render_duration.same(&e0.render_duration), "RapidRenderSettings.render_duration", v);
        c.chk(r.render_level_count_imit.same(&e0.render_level_count_imit), "RapidRenderSettings.render_level_count_imit", v);
        c.chk(r.render_time_limit.same(&e0.render_time_limit), "RapidRenderSettings.render_time_limit", v);
        c.chk(r.render_accuracy.same(&e0.render_accuracy), "RapidRenderSettings.render_accuracy", v);
        c.chk(r.sampling_filter.same(&e0.sampling_filter), "RapidRenderSettings.sampling_filter", v);
        c.chk(r.filter_width.same(&e0.filter_width), "RapidRenderSettings.filter_width", v);
        c.chk(r.filter_height.same(&e0.filter_height), "RapidRenderSettings.filter_height", v);
    }
}
fn rt_o_RasterVariables(c: &Cx) {
    let d = RasterVariables::default();
    let mut e = d.clone();
    let v = c.ver(14, 20); let f = c.field(4);
    if c.on(f, 1) { e.class_version = Sy::sy(&d.class_version, f == 0, ANY); }
    if c.on(f, 2) { e.is_display_frame_image = Sy::sy(&d.is_display_frame_image, f == 0, ANY); }
    if c.on(f, 3) { e.is_high_display_quality = Sy::sy(&d.is_high_display_quality, f == 0, ANY); }
    if c.on(f, 4) { e.image_units = Sy::sy(&d.image_units, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "RasterVariables", ObjectType::RasterVariables(e), v).and_then(|s| if let ObjectType::RasterVariables(x) = s.specific { Some(x) } else { c.chk(false, "RasterVariables: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.class_version.same(&e0.class_version), "RasterVariables.class_version", v);
        c.chk(r.is_display_frame_image.same(&e0.is_display_frame_image), "RasterVariables.is_display_frame_image", v);
        c.chk(r.is_high_display_quality.same(&e0.is_high_display_quality), "RasterVariables.is_high_display_quality", v);
        c.chk(r.image_units.same(&e0.image_units), "RasterVariables.image_units", v);
    }
}
fn rt_o_MentalRayRenderSettings(c: &Cx) {
    let d = MentalRayRenderSettings::default();
    let mut e = d.clone();
    let v = c.ver(17, 20); let f = c.field(49);
    if c.on(f, 1) { e.class_version_1 = Sy::sy(&d.class_version_1, f == 0, ANY); }
    if c.on(f, 2) { e.preset_name = Sy::sy(&d.preset_name, f == 0, ANY); }
    if c.on(f, 3) { e.render_materials = Sy::sy(&d.render_materials, f == 0, ANY); }
    if c.on(f, 4) { e.texture_sampling_quality = Sy::sy(&d.texture_sampling_quality, f == 0, ANY); }
    if c.on(f, 5) { e.render_back_faces = Sy::sy(&d.render_back_faces, f == 0, ANY); }
    if c.on(f, 6) { e.render_shadows = Sy::sy(&d.render_shadows, f == 0, ANY); }
    if c.on(f, 7) { e.preview_file_name = Sy::sy(&d.preview_file_name, f == 0, ANY); }
    if c.on(f, 8) { e.class_version_2 = Sy::sy(&d.class_version_2, f == 0, ANY); }
    if c.on(f, 9) { e.minimum_sampling_rate = Sy::sy(&d.minimum_sampling_rate, f == 0, ANY); }
    if c.on(f, 10) { e.maximum_sampling_rate = Sy::sy(&d.maximum_sampling_rate, f == 0, ANY); }
    if c.on(f, 11) { e.sampling_filter_type = Sy::sy(&d.sampling_filter_type, f == 0, ANY); }
    if c.on(f, 12) { e.filter_width = Sy::sy(&d.filter_width, f == 0, ANY); }
    if c.on(f, 13) { e.filter_height = Sy::sy(&d.filter_height, f == 0, ANY); }
    if c.on(f, 14) { e.sampling_contrast_color_red = Sy::sy(&d.sampling_contrast_color_red, f == 0, ANY); }
    if c.on(f, 15) { e.sampling_contrast_color_green = Sy::sy(&d.sampling_contrast_color_green, f == 0, ANY); }
    if c.on(f, 16) { e.sampling_contrast_color_blue = Sy::sy(&d.sampling_contrast_color_blue, f == 0, ANY); }
    if c.on(f, 17) { e.sampling_contrast_color_alpha = Sy::sy(&d.sampling_contrast_color_alpha, f == 0, ANY); }
    if c.on(f, 18) { e.shadow_mode = Sy::sy(&d.shadow_mode, f == 0, ANY); }
    if c.on(f, 19) { e.map_shadows = Sy::sy(&d.map_shadows, f == 0, ANY); }
    if c.on(f, 20) { e.ray_tracing = Sy::sy(&d.ray_tracing, f == 0, ANY); }
    if c.on(f, 21) { e.ray_tracing_depth_reflections = Sy::sy(&d.ray_tracing_depth_reflections, f == 0, ANY); }
    if c.on(f, 22) { e.ray_tracing_depth_refractions = Sy::sy(&d.ray_tracing_depth_refractions, f == 0, ANY); }
    if c.on(f, 23) { e.ray_tracing_depth_maximum = Sy::sy(&d.ray_tracing_depth_maximum, f == 0, ANY); }
    if c.on(f, 24) { e.use_global_illumination = Sy::sy(&d.use_global_illumination, f == 0, ANY); }
    if c.on(f, 25) { e.sample_count = Sy::sy(&d.sample_count, f == 0, ANY); }
    if c.on(f, 26) { e.use_global_illumination_radius = Sy::sy(&d.use_global_illumination_radius, f == 0, ANY); }
    if c.on(f, 27) { e.global_illumination_radius = Sy::sy(&d.global_illumination_radius, f == 0, ANY); }
    if c.on(f, 28) { e.photons_per_light = Sy::sy(&d.photons_per_light, f == 0, ANY); }
    if c.on(f, 29) { e.global_illumination_depth_reflections = Sy::sy(&d.global_illumination_depth_reflections, f == 0, ANY); }
    if c.on(f, 30) { e.global_illumination_depth_refractions = Sy::sy(&d.global_illumination_depth_refractions, f == 0, ANY); }
    if c.on(f, 31) { e.global_illumination_depth_maximum = Sy::sy(&d.global_illumination_depth_maximum, f == 0, ANY); }
    if c.on(f, 32) { e.use_final_gather = Sy::sy(&d.use_final_gather, f == 0, ANY); }
    if c.on(f, 33) { e.final_gather_ray_count = Sy::sy(&d.final_gather_ray_count, f == 0, ANY); }
    if c.on(f, 34) { e.use_final_gather_minimum_radius = Sy::sy(&d.use_final_gather_minimum_radius, f == 0, ANY); }
    if c.on(f, 35) { e.use_final_gather_maximum_radius = Sy::sy(&d.use_final_gather_maximum_radius, f == 0, ANY); }
    if c.on(f, 36) { e.use_final_gather_pixels = Sy::sy(&d.use_final_gather_pixels, f == 0, ANY); }
    if c.on(f, 37) { e.final_gather_sample_radius_minimum = Sy::sy(&d.final_gather_sample_radius_minimum, f == 0, ANY); }
    if c.on(f, 38) { e.final_gather_sample_radius_maximum = Sy::sy(&d.final_gather_sample_radius_maximum, f == 0, ANY); }
    if c.on(f, 39) { e.luminance_scale = Sy::sy(&d.luminance_scale, f == 0, ANY); }
    if c.on(f, 40) { e.diagnostic_mode = Sy::sy(&d.diagnostic_mode, f == 0, ANY); }
    if c.on(f, 41) { e.diagnostic_grid_mode = Sy::sy(&d.diagnostic_grid_mode, f == 0, ANY); }
    if c.on(f, 42) { e.grid_size = Sy::sy(&d.grid_size, f == 0, ANY); }
    if c.on(f, 43) { e.diagnostic_photon_mode = Sy::sy(&d.diagnostic_photon_mode, f == 0, ANY); }
    if c.on(f, 44) { e.diagnostic_bsp_mode = Sy::sy(&d.diagnostic_bsp_mode, f == 0, ANY); }
    if c.on(f, 45) { e.export_mi_statistics = Sy::sy(&d.export_mi_statistics, f == 0, ANY); }
    if c.on(f, 46) { e.mi_statistics_file_name = Sy::sy(&d.mi_statistics_file_name, f == 0, ANY); }
    if c.on(f, 47) { e.tile_size = Sy::sy(&d.tile_size, f == 0, ANY); }
    if c.on(f, 48) { e.tile_order = Sy::sy(&d.tile_order, f == 0, ANY); }
    if c.on(f, 49) { e.memory_limit = Sy::sy(&d.memory_limit, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "MentalRayRenderSettings", ObjectType::MentalRayRenderSettings(e), v).and_then(|s| if let ObjectType::MentalRayRenderSettings(x) = s.specific { Some(x) } else { c.chk(false, "MentalRayRenderSettings: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.class_version_1.same(&e0.class_version_1), "MentalRayRenderSettings.class_version_1", v);
        c.chk(r.preset_name.same(&e0.preset_name), "MentalRayRenderSettings.preset_name", v);
        c.chk(r.render_materials.same(&e0.render_materials), "MentalRayRenderSettings.render_materials", v);
        c.chk(r.texture_sampling_quality.same(&e0.texture_sampling_quality), "MentalRayRenderSettings.texture_sampling_quality", v);
        c.chk(r.render_back_faces.same(&e0.render_back_faces), "MentalRayRenderSettings.render_back_faces", v);
        c.chk(r.render_shadows.same(&e0.render_shadows), "MentalRayRenderSettings.render_shadows", v);
        c.chk(r.preview_file_name.same(&e0.preview_file_name), "MentalRayRenderSettings.preview_file_name", v);
        c.chk(r.class_version_2.same(&e0.class_version_2), "MentalRayRenderSettings.class_version_2", v);
        c.chk(r.minimum_sampling_rate.same(&e0.minimum_sampling_rate), "MentalRayRenderSettings.minimum_sampling_rate", v);
        c.chk(r.maximum_sampling_rate.same(&e0.maximum_sampling_rate), "MentalRayRenderSettings.maximum_sampling_rate", v);
        c.chk(r.sampling_filter_type.same(&e0.sampling_filter_type), "MentalRayRenderSettings.sampling_filter_type", v);
        c.chk(r.filter_width.same(&e0.filter_width), "MentalRayRenderSettings.filter_width", v);
        c.chk(r.filter_height.same(&e0.filter_height), "MentalRayRenderSettings.filter_height", v);
        c.chk(r.sampling_contrast_color_red.same(&e0.sampling_contrast_color_red), "MentalRayRenderSettings.sampling_contrast_color_red", v);
        c.chk(r.sampling_contrast_color_green.same(&e0.sampling_contrast_color_green), "MentalRayRenderSettings.sampling_contrast_color_green", v);
        c.chk(r.sampling_contrast_color_blue.same(&e0.sampling_contrast_color_blue), "MentalRayRenderSettings.sampling_contrast_color_blue", v);
        c.chk(r.sampling_contrast_color_alpha.same(&e0.sampling_contrast_color_alpha), "MentalRayRenderSettings.sampling_contrast_color_alpha", v);
        c.chk(r.shadow_mode.same(&e0.shadow_mode), "MentalRayRenderSettings.shadow_mode", v);
        c.chk(r.map_shadows.same(&e0.map_shadows), "MentalRayRenderSettings.map_shadows", v);
        c.chk(r.ray_tracing.same(&e0.ray_tracing), "MentalRayRenderSettings.ray_tracing", v);
        c.chk(r.ray_tracing_depth_reflections.same(&e0.ray_tracing_depth_reflections), "MentalRayRenderSettings.ray_tracing_depth_reflections", v);
        c.chk(r.ray_tracing_depth_refractions.same(&e0.ray_tracing_depth_refractions), "MentalRayRenderSettings.ray_tracing_depth_refractions", v);
        c.chk(r.ray_tracing_depth_maximum.same(&e0.ray_tracing_depth_maximum), "MentalRayRenderSettings.ray_tracing_depth_maximum", v);
        c.chk(r.use_global_illumination.same(&e0.use_global_illumination), "MentalRayRenderSettings.use_global_illumination", v);
        c.chk(r.sample_count.same(&e0.sample_count), "MentalRayRenderSettings.sample_count", v);
        c.chk(r.use_global_illumination_radius.same(&e0.use_global_illumination_radius), "MentalRayRenderSettings.use_global_illumination_radius", v);
        c.chk(r.global_illumination_radius.same(&e0.global_illumination_radius), "MentalRayRenderSettings.global_illumination_radius", v);
        c.chk(r.photons_per_light.same(&e0.photons_per_light), "MentalRayRenderSettings.photons_per_light", v);
        c.chk(r.global_illumination_depth_reflections.same(&e0.global_illumination_depth_reflections), "MentalRayRenderSettings.global_illumination_depth_reflections", v);
        c.chk(r.global_illumination_depth_refractions.same(&e0.global_illumination_depth_refractions), "MentalRayRenderSettings.global_illumination_depth_refractions", v);
        c.chk(r.global_illumination_depth_maximum.same(&e0.global_illumination_depth_maximum), "MentalRayRenderSettings.global_illumination_depth_maximum", v);
        c.chk(r.use_final_gather.same(&e0.use_final_gather), "MentalRayRenderSettings.use_final_gather", v);
        c.chk(r.final_gather_ray_count.same(&e0.final_gather_ray_count), "MentalRayRenderSettings.final_gather_ray_count", v);
        c.chk(r.use_final_gather_minimum_radius.same(&e0.use_final_gather_minimum_radius), "MentalRayRenderSettings.use_final_gather_minimum_radius", v);
        c.chk(r.use_final_gather_maximum_radius.same(&e0.use_final_gather_maximum_radius), "MentalRayRenderSettings.use_final_gather_maximum_radius", v);
        c.chk(r.use_final_gather_pixels.same(&e0.use_final_gather_pixels), "MentalRayRenderSettings.use_final_gather_pixels", v);
        c.chk(r.final_gather_sample_radius_minimum.same(&e0.final_gather_sample_radius_minimum), "MentalRayRenderSettings.final_gather_sample_radius_minimum", v);
        c.chk(r.final_gather_sample_radius_maximum.same(&e0.final_gather_sample_radius_maximum), "MentalRayRenderSettings.final_gather_sample_radius_maximum", v);
        c.chk(r.luminance_scale.same(&e0.luminance_scale), "MentalRayRenderSettings.luminance_scale", v);
        c.chk(r.diagnostic_mode.same(&e0.diagnostic_mode), "MentalRayRenderSettings.diagnostic_mode", v);
        c.chk(r.diagnostic_grid_mode.same(&e0.diagnostic_grid_mode), "MentalRayRenderSettings.diagnostic_grid_mode", v);
        c.chk(r.grid_size.same(&e0.grid_size), "MentalRayRenderSettings.grid_size", v);
        c.chk(r.diagnostic_photon_mode.same(&e0.diagnostic_photon_mode), "MentalRayRenderSettings.diagnostic_photon_mode", v);
        c.chk(r.diagnostic_bsp_mode.same(&e0.diagnostic_bsp_mode), "MentalRayRenderSettings.diagnostic_bsp_mode", v);
        c.chk(r.export_mi_statistics.same(&e0.export_mi_statistics), "MentalRayRenderSettings.export_mi_statistics", v);
        c.chk(r.mi_statistics_file_name.same(&e0.mi_statistics_file_name), "MentalRayRenderSettings.mi_statistics_file_name", v);
        c.chk(r.tile_size.same(&e0.tile_size), "MentalRayRenderSettings.tile_size", v);
        c.chk(r.tile_order.same(&e0.tile_order), "MentalRayRenderSettings.tile_order", v);
        c.chk(r.memory_limit.same(&e0.memory_limit), "MentalRayRenderSettings.memory_limit", v);
    }
}
fn rt_o_RenderEnvironment(c: &Cx) {
    let d = RenderEnvironment::default();
    let mut e = d.clone();
    let v = c.ver(17, 20); let f = c.field(12);
    if c.on(f, 1) { e.class_version = Sy::sy(&d.class_version, f == 0, ANY); }
    if c.on(f, 2) { e.is_fog_enabled = Sy::sy(&d.is_fog_enabled, f == 0, ANY); }
    if c.on(f, 3) { e.is_background_fog_enabled = Sy::sy(&d.is_background_fog_enabled, f == 0, ANY); }
    if c.on(f, 4) { e.fog_color_red = Sy::sy(&d.fog_color_red, f == 0, I16); }
    if c.on(f, 5) { e.fog_color_green = Sy::sy(&d.fog_color_green, f == 0, I16); }
    if c.on(f, 6) { e.fog_color_blue = Sy::sy(&d.fog_color_blue, f == 0, I16); }
    if c.on(f, 7) { e.near_fog_density_percent = Sy::sy(&d.near_fog_density_percent, f == 0, ANY); }
    if c.on(f, 8) { e.far_fog_density_percent = Sy::sy(&d.far_fog_density_percent, f == 0, ANY); }
    if c.on(f, 9) { e.near_clipping_plane_distance_percent = Sy::sy(&d.near_clipping_plane_distance_percent, f == 0, ANY); }
    if c.on(f, 10) { e.far_clipping_plane_distance_percent = Sy::sy(&d.far_clipping_plane_distance_percent, f == 0, ANY); }
    if c.on(f, 11) { e.use_environment_image = Sy::sy(&d.use_environment_image, f == 0, ANY); }
    if c.on(f, 12) { e.environment_image_file_name = Sy::sy(&d.environment_image_file_name, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "RenderEnvironment", ObjectType::RenderEnvironment(e), v).and_then(|s| if let ObjectType::RenderEnvironment(x) = s.specific { Some(x) } else { c.chk(false, "RenderEnvironment: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.class_version.same(&e0.class_version), "RenderEnvironment.class_version", v);
        c.chk(r.is_fog_enabled.same(&e0.is_fog_enabled), "RenderEnvironment.is_fog_enabled", v);
        c.chk(r.is_background_fog_enabled.same(&e0.is_background_fog_enabled), "RenderEnvironment.is_background_fog_enabled", v);
        c.chk(r.fog_color_red.same(&e0.fog_color_red), "RenderEnvironment.fog_color_red", v);
        c.chk(r.fog_color_green.same(&e0.fog_color_green), "RenderEnvironment.fog_color_green", v);
        c.chk(r.fog_color_blue.same(&e0.fog_color_blue), "RenderEnvironment.fog_color_blue", v);
        c.chk(r.near_fog_density_percent.same(&e0.near_fog_density_percent), "RenderEnvironment.near_fog_density_percent", v);
        c.chk(r.far_fog_density_percent.same(&e0.far_fog_density_percent), "RenderEnvironment.far_fog_density_percent", v);
        c.chk(r.near_clipping_plane_distance_percent.same(&e0.near_clipping_plane_distance_percent), "RenderEnvironment.near_clipping_plane_distance_percent", v);
        c.chk(r.far_clipping_plane_distance_percent.same(&e0.far_clipping_plane_distance_percent), "RenderEnvironment.far_clipping_plane_distance_percent", v);
        c.chk(r.use_environment_image.same(&e0.use_environment_image), "RenderEnvironment.use_environment_image", v);
        c.chk(r.environment_image_file_name.same(&e0.environment_image_file_name), "RenderEnvironment.environment_image_file_name", v);
    }
}
fn rt_o_RenderGlobal(c: &Cx) {
    let d = RenderGlobal::default();
    let mut e = d.clone();
    let v = c.ver(17, 20); let f = c.field(9);
    if c.on(f, 1) { e.class_version = Sy::sy(&d.class_version, f == 0, ANY); }
    if c.on(f, 2) { e.render_procedure = Sy::sy(&d.render_procedure, f == 0, ANY); }
    if c.on(f, 3) { e.render_destination = Sy::sy(&d.render_destination, f == 0, ANY); }
    if c.on(f, 4) { e.save_to_file = Sy::sy(&d.save_to_file, f == 0, ANY); }
    if c.on(f, 5) { e.save_to_file_name = Sy::sy(&d.save_to_file_name, f == 0, ANY); }
    if c.on(f, 6) { e.image_width = Sy::sy(&d.image_width, f == 0, ANY); }
    if c.on(f, 7) { e.image_height = Sy::sy(&d.image_height, f == 0, ANY); }
    if c.on(f, 8) { e.use_predefined_presets_first = Sy::sy(&d.use_predefined_presets_first, f == 0, ANY); }
    if c.on(f, 9) { e.use_high_info_level = Sy::sy(&d.use_high_info_level, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "RenderGlobal", ObjectType::RenderGlobal(e), v).and_then(|s| if let ObjectType::RenderGlobal(x) = s.specific { Some(x) } else { c.chk(false, "RenderGlobal: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.class_version.same(&e0.class_version), "RenderGlobal.class_version", v);
        c.chk(r.render_procedure.same(&e0.render_procedure), "RenderGlobal.render_procedure", v);
        c.chk(r.render_destination.same(&e0.render_destination), "RenderGlobal.render_destination", v);
        c.chk(r.save_to_file.same(&e0.save_to_file), "RenderGlobal.save_to_file", v);
        c.chk(r.save_to_file_name.same(&e0.save_to_file_name), "RenderGlobal.save_to_file_name", v);
        c.chk(r.image_width.same(&e0.image_width), "RenderGlobal.image_width", v);
        c.chk(r.image_height.same(&e0.image_height), "RenderGlobal.image_height", v);
        c.chk(r.use_predefined_presets_first.same(&e0.use_predefined_presets_first), "RenderGlobal.use_predefined_presets_first", v);
        c.chk(r.use_high_info_level.same(&e0.use_high_info_level), "RenderGlobal.use_high_info_level", v);
    }
}
fn rt_o_SectionManager(c: &Cx) {
    let d = SectionManager::default();
    let mut e = d.clone();
    let v = c.ver(17, 20); let f = c.field(2);
    if c.on(f, 1) { e.requires_full_update = Sy::sy(&d.requires_full_update, f == 0, ANY); }
    if c.on(f, 2) { e.__section_entities_handle = Sy::sy(&d.__section_entities_handle, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "SectionManager", ObjectType::SectionManager(e), v).and_then(|s| if let ObjectType::SectionManager(x) = s.specific { Some(x) } else { c.chk(false, "SectionManager: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.requires_full_update.same(&e0.requires_full_update), "SectionManager.requires_full_update", v);
        c.chk(r.__section_entities_handle.same(&e0.__section_entities_handle), "SectionManager.section_entities", v);
    }
}
fn rt_o_SectionSettings(c: &Cx) {
    let d = SectionSettings::default();
    let mut e = d.clone();
    let v = c.ver(17, 20); let f = c.field(6);
    if c.on(f, 1) { e.section_type = Sy::sy(&d.section_type, f == 0, ANY); }
    if c.on(f, 2) { e.is_generation_option = Sy::sy(&d.is_generation_option, f == 0, ANY); }
    if c.on(f, 3) { e.__source_objects_handle = Sy::sy(&d.__source_objects_handle, f == 0, ANY); }
    if c.on(f, 4) { e.__destination_object_handle = Sy::sy(&d.__destination_object_handle, f == 0, ANY); }
    if c.on(f, 5) { e.destination_file_name = Sy::sy(&d.destination_file_name, f == 0, ANY); }
    if c.on(f, 6) { e.geometry_settings = Sy::sy(&d.geometry_settings, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "SectionSettings", ObjectType::SectionSettings(e), v).and_then(|s| if let ObjectType::SectionSettings(x) = s.specific { Some(x) } else { c.chk(false, "SectionSettings: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.section_type.same(&e0.section_type), "SectionSettings.section_type", v);
        c.chk(r.is_generation_option.same(&e0.is_generation_option), "SectionSettings.is_generation_option", v);
        c.chk(r.__source_objects_handle.same(&e0.__source_objects_handle), "SectionSettings.source_objects", v);
        c.chk(r.__destination_object_handle.same(&e0.__destination_object_handle), "SectionSettings.destination_object", v);
        c.chk(r.destination_file_name.same(&e0.destination_file_name), "SectionSettings.destination_file_name", v);
        c.chk(r.geometry_settings.same(&e0.geometry_settings), "SectionSettings.geometry_settings", v);
    }
}
fn rt_o_SortentsTable(c: &Cx) {
    let d = SortentsTable::default();
    let mut e = d.clone();
    let v = c.ver(14, 20); let f = c.field(2);
    if c.on(f, 1) { e.__entities_handle = Sy::sy(&d.__entities_handle, f == 0, ANY); }
    if c.on(f, 2) { e.__sort_items_handle = Sy::sy(&d.__sort_items_handle, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "SortentsTable", ObjectType::SortentsTable(e), v).and_then(|s| if let ObjectType::SortentsTable(x) = s.specific { Some(x) } else { c.chk(false, "SortentsTable: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.__entities_handle.same(&e0.__entities_handle), "SortentsTable.entities", v);
        c.chk(r.__sort_items_handle.same(&e0.__sort_items_handle), "SortentsTable.sort_items", v);
    }
}
fn rt_o_SpatialFilter(c: &Cx) {
    let d = SpatialFilter::default();
    let mut e = d.clone();
    let v = c.ver(14, 20); let f = c.field(10);
    if c.on(f, 1) { e.clip_boundary_definition_points = Sy::sy(&d.clip_boundary_definition_points, f == 0, ANY); }
    if c.on(f, 2) { e.clip_boundary_normal = Sy::sy(&d.clip_boundary_normal, f == 0, ANY); }
    if c.on(f, 3) { e.clip_boundary_origin = Sy::sy(&d.clip_boundary_origin, f == 0, ANY); }
    if c.on(f, 4) { e.is_clip_boundary_enabled = Sy::sy(&d.is_clip_boundary_enabled, f == 0, ANY); }
    if c.on(f, 5) { e.is_front_clipping_plane = Sy::sy(&d.is_front_clipping_plane, f == 0, ANY); }
    if c.on(f, 6) { e.front_clipping_plane_distance = Sy::sy(&d.front_clipping_plane_distance, f == 0, ANY); }
    if c.on(f, 7) { e.is_back_clipping_plane = Sy::sy(&d.is_back_clipping_plane, f == 0, ANY); }
    if c.on(f, 8) { e.back_clipping_plane_distance = Sy::sy(&d.back_clipping_plane_distance, f == 0, ANY); }
    if c.on(f, 9) { e.inverse_transformation_matrix = Sy::sy(&d.inverse_transformation_matrix, f == 0, XY); }
    if c.on(f, 10) { e.transformation_matrix = Sy::sy(&d.transformation_matrix, f == 0, XY); }
    let e0 = e.clone();
    let r = rt_obj(c, "SpatialFilter", ObjectType::SpatialFilter(e), v).and_then(|s| if let ObjectType::SpatialFilter(x) = s.specific { Some(x) } else { c.chk(false, "SpatialFilter: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.clip_boundary_definition_points.same(&e0.clip_boundary_definition_points), "SpatialFilter.clip_boundary_definition_points", v);
        c.chk(r.clip_boundary_normal.same(&e0.clip_boundary_normal), "SpatialFilter.clip_boundary_normal", v);
        c.chk(r.clip_boundary_origin.same(&e0.clip_boundary_origin), "SpatialFilter.clip_boundary_origin", v);
        c.chk(r.is_clip_boundary_enabled.same(&e0.is_clip_boundary_enabled), "SpatialFilter.is_clip_boundary_enabled", v);
        c.chk(r.is_front_clipping_plane.same(&e0.is_front_clipping_plane), "SpatialFilter.is_front_clipping_plane", v);
        c.chk(r.front_clipping_plane_distance.same(&e0.front_clipping_plane_distance), "SpatialFilter.front_clipping_plane_distance", v);
        c.chk(r.is_back_clipping_plane.same(&e0.is_back_clipping_plane), "SpatialFilter.is_back_clipping_plane", v);
        c.chk(r.back_clipping_plane_distance.same(&e0.back_clipping_plane_distance), "SpatialFilter.back_clipping_plane_distance", v);
        c.chk(r.inverse_transformation_matrix.same(&e0.inverse_transformation_matrix), "SpatialFilter.inverse_transformation_matrix", v);
        c.chk(r.transformation_matrix.same(&e0.transformation_matrix), "SpatialFilter.transformation_matrix", v);
    }
}
fn rt_o_SpatialIndex(c: &Cx) {
    let d = SpatialIndex::default();
    let mut e = d.clone();
    let v = c.ver(15, 20); let f = c.field(0);
    let e0 = e.clone();
    let r = rt_obj(c, "SpatialIndex", ObjectType::SpatialIndex(e), v).and_then(|s| if let ObjectType::SpatialIndex(x) = s.specific { Some(x) } else { c.chk(false, "SpatialIndex: loaded as another type", v); None });
    if let Some(r) = r {
    }
}
fn rt_o_TableStyle(c: &Cx) {
    let d = TableStyle::default();
    let mut e = d.clone();
    let v = c.ver(16, 20); let f = c.field(9);
    if c.on(f, 1) { e.version = Sy::sy(&d.version, f == 0, ANY); }
    if c.on(f, 2) { e.description = Sy::sy(&d.description, f == 0, ANY); }
    if c.on(f, 3) { e.flow_direction = Sy::sy(&d.flow_direction, f == 0, ANY); }
    if c.on(f, 4) { e.flags = Sy::sy(&d.flags, f == 0, I16); }
    if c.on(f, 5) { e.horizontal_cell_margin = Sy::sy(&d.horizontal_cell_margin, f == 0, ANY); }
    if c.on(f, 6) { e.vertical_cell_margin = Sy::sy(&d.vertical_cell_margin, f == 0, ANY); }
    if c.on(f, 7) { e.is_title_suppressed = Sy::sy(&d.is_title_suppressed, f == 0, ANY); }
    if c.on(f, 8) { e.is_column_heading_suppressed = Sy::sy(&d.is_column_heading_suppressed, f == 0, ANY); }
    if c.on(f, 9) { e.cell_styles = Sy::sy(&d.cell_styles, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "TableStyle", ObjectType::TableStyle(e), v).and_then(|s| if let ObjectType::TableStyle(x) = s.specific { Some(x) } else { c.chk(false, "TableStyle: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.version.same(if v >= 18 { &e0.version } else { &d.version }), "TableStyle.version", v);
        c.chk(r.description.same(&e0.description), "TableStyle.description", v);
        c.chk(r.flow_direction.same(&e0.flow_direction), "TableStyle.flow_direction", v);
        c.chk(r.flags.same(&e0.flags), "TableStyle.flags", v);
        c.chk(r.horizontal_cell_margin.same(&e0.horizontal_cell_margin), "TableStyle.horizontal_cell_margin", v);
        c.chk(r.vertical_cell_margin.same(&e0.vertical_cell_margin), "TableStyle.vertical_cell_margin", v);
        c.chk(r.is_title_suppressed.same(&e0.is_title_suppressed), "TableStyle.is_title_suppressed", v);
        c.chk(r.is_column_heading_suppressed.same(&e0.is_column_heading_suppressed), "TableStyle.is_column_heading_suppressed", v);
        c.chk(r.cell_styles.same(&e0.cell_styles), "TableStyle.cell_styles", v);
    }
}
fn rt_o_UnderlayDefinition(c: &Cx) {
    let d = UnderlayDefinition::default();
    let mut e = d.clone();
    let v = c.ver(17, 20); let f = c.field(2);
    if c.on(f, 1) { e.file_name = Sy::sy(&d.file_name, f == 0, ANY); }
    if c.on(f, 2) { e.name = Sy::sy(&d.name, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "UnderlayDefinition", ObjectType::UnderlayDefinition(e), v).and_then(|s| if let ObjectType::UnderlayDefinition(x) = s.specific { Some(x) } else { c.chk(false, "UnderlayDefinition: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.file_name.same(&e0.file_name), "UnderlayDefinition.file_name", v);
        c.chk(r.name.same(&e0.name), "UnderlayDefinition.name", v);
    }
}
fn rt_o_VbaProject(c: &Cx) {
    let d = VbaProject::default();
    let mut e = d.clone();
    let v = c.ver(15, 20); let f = c.field(1);
    if c.on(f, 1) { e.data = Sy::sy(&d.data, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "VbaProject", ObjectType::VbaProject(e), v).and_then(|s| if let ObjectType::VbaProject(x) = s.specific { Some(x) } else { c.chk(false, "VbaProject: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.data.same(&e0.data), "VbaProject.data", v);
    }
}
fn rt_o_VisualStyle(c: &Cx) {
    let d = VisualStyle::default();
    let mut e = d.clone();
    let v = c.ver(17, 20); let f = c.field(34);
    if c.on(f, 1) { e.description = Sy::sy(&d.description, f == 0, ANY); }
    if c.on(f, 2) { e.type_code = Sy::sy(&d.type_code, f == 0, ANY); }
    if c.on(f, 3) { e.face_lighting_model = Sy::sy(&d.face_lighting_model, f == 0, ANY); }
    if c.on(f, 4) { e.face_lighting_quality = Sy::sy(&d.face_lighting_quality, f == 0, ANY); }
    if c.on(f, 5) { e.face_color_mode = Sy::sy(&d.face_color_mode, f == 0, ANY); }
    if c.on(f, 6) { e.face_modifier = Sy::sy(&d.face_modifier, f == 0, ANY); }
    if c.on(f, 7) { e.face_opacity_level = Sy::sy(&d.face_opacity_level, f == 0, ANY); }
    if c.on(f, 8) { e.face_specular_level = Sy::sy(&d.face_specular_level, f == 0, ANY); }
    if c.on(f, 9) { e.color1 = Sy::sy(&d.color1, f == 0, ANY); }
    if c.on(f, 10) { e.color2 = Sy::sy(&d.color2, f == 0, ANY); }
    if c.on(f, 11) { e.face_style_mono_color = Sy::sy(&d.face_style_mono_color, f == 0, ANY); }
    if c.on(f, 12) { e.edge_style_model = Sy::sy(&d.edge_style_model, f == 0, ANY); }
    if c.on(f, 13) { e.edge_style = Sy::sy(&d.edge_style, f == 0, ANY); }
    if c.on(f, 14) { e.edge_intersection_color = Sy::sy(&d.edge_intersection_color, f == 0, ANY); }
    if c.on(f, 15) { e.edge_obscured_color = Sy::sy(&d.edge_obscured_color, f == 0, ANY); }
    if c.on(f, 16) { e.edge_obscured_line_type = Sy::sy(&d.edge_obscured_line_type, f == 0, ANY); }
    if c.on(f, 17) { e.edge_intersection_line_type = Sy::sy(&d.edge_intersection_line_type, f == 0, ANY); }
    if c.on(f, 18) { e.edge_crease_angle = Sy::sy(&d.edge_crease_angle, f == 0, ANY); }
    if c.on(f, 19) { e.edge_modifiers = Sy::sy(&d.edge_modifiers, f == 0, ANY); }
    if c.on(f, 20) { e.edge_color = Sy::sy(&d.edge_color, f == 0, ANY); }
    if c.on(f, 21) { e.edge_opacity_level = Sy::sy(&d.edge_opacity_level, f == 0, ANY); }
    if c.on(f, 22) { e.edge_width = Sy::sy(&d.edge_width, f == 0, ANY); }
    if c.on(f, 23) { e.edge_overhang = Sy::sy(&d.edge_overhang, f == 0, ANY); }
    if c.on(f, 24) { e.edge_jitter = Sy::sy(&d.edge_jitter, f == 0, ANY); }
    if c.on(f, 25) { e.edge_silhouette_color = Sy::sy(&d.edge_silhouette_color, f == 0, ANY); }
    if c.on(f, 26) { e.edge_silhouette_width = Sy::sy(&d.edge_silhouette_width, f == 0, ANY); }
    if c.on(f, 27) { e.edge_halo_gap = Sy::sy(&d.edge_halo_gap, f == 0, ANY); }
    if c.on(f, 28) { e.edge_iso_line_count = Sy::sy(&d.edge_iso_line_count, f == 0, I16); }
    if c.on(f, 29) { e.hide_edge_line_precision = Sy::sy(&d.hide_edge_line_precision, f == 0, ANY); }
    if c.on(f, 30) { e.edge_style_apply_flags = Sy::sy(&d.edge_style_apply_flags, f == 0, I16); }
    if c.on(f, 31) { e.display_style_settings = Sy::sy(&d.display_style_settings, f == 0, ANY); }
    if c.on(f, 32) { e.brightness = Sy::sy(&d.brightness, f == 0, ANY); }
    if c.on(f, 33) { e.shadow_type = Sy::sy(&d.shadow_type, f == 0, ANY); }
    if c.on(f, 34) { e.internal_flag = Sy::sy(&d.internal_flag, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "VisualStyle", ObjectType::VisualStyle(e), v).and_then(|s| if let ObjectType::VisualStyle(x) = s.specific { Some(x) } else { c.chk(false, "VisualStyle: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.description.same(&e0.description), "VisualStyle.description", v);
        c.chk(r.type_code.same(&e0.type_code), "VisualStyle.type_code", v);
        c.chk(r.face_lighting_model.same(&e0.face_lighting_model), "VisualStyle.face_lighting_model", v);
        c.chk(r.face_lighting_quality.same(&e0.face_lighting_quality), "VisualStyle.face_lighting_quality", v);
        c.chk(r.face_color_mode.same(&e0.face_color_mode), "VisualStyle.face_color_mode", v);
        c.chk(r.face_modifier.same(&e0.face_modifier), "VisualStyle.face_modifier", v);
        c.chk(r.face_opacity_level.same(&e0.face_opacity_level), "VisualStyle.face_opacity_level", v);
        c.chk(r.face_specular_level.same(&e0.face_specular_level), "VisualStyle.face_specular_level", v);
        c.chk(r.color1.same(&e0.color1), "VisualStyle.color1", v);
        c.chk(r.color2.same(&e0.color2), "VisualStyle.color2", v);
        c.chk(r.face_style_mono_color.same(&e0.face_style_mono_color), "VisualStyle.face_style_mono_color", v);
        c.chk(r.edge_style_model.same(&e0.edge_style_model), "VisualStyle.edge_style_model", v);
        c.chk(r.edge_style.same(&e0.edge_style), "VisualStyle.edge_style", v);
        c.chk(r.edge_intersection_color.same(&e0.edge_intersection_color), "VisualStyle.edge_intersection_color", v);
        c.chk(r.edge_obscured_color.same(&e0.edge_obscured_color), "VisualStyle.edge_obscured_color", v);
        c.chk(r.edge_obscured_line_type.same(&e0.edge_obscured_line_type), "VisualStyle.edge_obscured_line_type", v);
        c.chk(r.edge_intersection_line_type.same(&e0.edge_intersection_line_type), "VisualStyle.edge_intersection_line_type", v);
        c.chk(r.edge_crease_angle.same(&e0.edge_crease_angle), "VisualStyle.edge_crease_angle", v);
        c.chk(r.edge_modifiers.same(&e0.edge_modifiers), "VisualStyle.edge_modifiers", v);
        c.chk(r.edge_color.same(&e0.edge_color), "VisualStyle.edge_color", v);
        c.chk(r.edge_opacity_level.same(&e0.edge_opacity_level), "VisualStyle.edge_opacity_level", v);
        c.chk(r.edge_width.same(&e0.edge_width), "VisualStyle.edge_width", v);
        c.chk(r.edge_overhang.same(&e0.edge_overhang), "VisualStyle.edge_overhang", v);
        c.chk(r.edge_jitter.same(&e0.edge_jitter), "VisualStyle.edge_jitter", v);
        c.chk(r.edge_silhouette_color.same(&e0.edge_silhouette_color), "VisualStyle.edge_silhouette_color", v);
        c.chk(r.edge_silhouette_width.same(&e0.edge_silhouette_width), "VisualStyle.edge_silhouette_width", v);
        c.chk(r.edge_halo_gap.same(&e0.edge_halo_gap), "VisualStyle.edge_halo_gap", v);
        c.chk(r.edge_iso_line_count.same(&e0.edge_iso_line_count), "VisualStyle.edge_iso_line_count", v);
        c.chk(r.hide_edge_line_precision.same(&e0.hide_edge_line_precision), "VisualStyle.hide_edge_line_precision", v);
        c.chk(r.edge_style_apply_flags.same(&e0.edge_style_apply_flags), "VisualStyle.edge_style_apply_flags", v);
        c.chk(r.display_style_settings.same(&e0.display_style_settings), "VisualStyle.display_style_settings", v);
        c.chk(r.brightness.same(&e0.brightness), "VisualStyle.brightness", v);
        c.chk(r.shadow_type.same(&e0.shadow_type), "VisualStyle.shadow_type", v);
        c.chk(r.internal_flag.same(&e0.internal_flag), "VisualStyle.internal_flag", v);
    }
}
fn rt_o_WipeoutVariables(c: &Cx) {
    let d = WipeoutVariables::default();
    let mut e = d.clone();
    let v = c.ver(16, 20); let f = c.field(2);
    if c.on(f, 1) { e.class_version = Sy::sy(&d.class_version, f == 0, ANY); }
    if c.on(f, 2) { e.display_image_frame = Sy::sy(&d.display_image_frame, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "WipeoutVariables", ObjectType::WipeoutVariables(e), v).and_then(|s| if let ObjectType::WipeoutVariables(x) = s.specific { Some(x) } else { c.chk(false, "WipeoutVariables: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.class_version.same(&e0.class_version), "WipeoutVariables.class_version", v);
        c.chk(r.display_image_frame.same(&e0.display_image_frame), "WipeoutVariables.display_image_frame", v);
    }
}
fn rt_o_XRecordObject(c: &Cx) {
    let d = XRecordObject::default();
    let mut e = d.clone();
    let v = c.ver(14, 20); let f = c.field(2);
    if c.on(f, 1) { e.duplicate_record_handling = Sy::sy(&d.duplicate_record_handling, f == 0, ANY); }
    if c.on(f, 2) { e.data_pairs = Sy::sy(&d.data_pairs, f == 0, ANY); }
    let e0 = e.clone();
    let r = rt_obj(c, "XRecordObject", ObjectType::XRecordObject(e), v).and_then(|s| if let ObjectType::XRecordObject(x) = s.specific { Some(x) } else { c.chk(false, "XRecordObject: loaded as another type", v); None });
    if let Some(r) = r {
        c.chk(r.duplicate_record_handling.same(&e0.duplicate_record_handling), "XRecordObject.duplicate_record_handling", v);
        c.chk(r.data_pairs.same(&e0.data_pairs), "XRecordObject.data_pairs", v);
    }
}
pub static TAB: &[(&str, fn(&Cx), u32)] = &[
    ("AcadProxyObject", rt_o_AcadProxyObject, 6),
    ("DictionaryWithDefault", rt_o_DictionaryWithDefault, 3),
    ("PlaceHolder", rt_o_PlaceHolder, 0),
    ("NavisWorksModelDefinition", rt_o_NavisWorksModelDefinition, 5),
    ("Dictionary", rt_o_Dictionary, 3),
    ("DictionaryVariable", rt_o_DictionaryVariable, 2),
    ("DimensionAssoc", rt_o_DimensionAssoc, 17),
    ("Field", rt_o_Field, 13),
    ("GeoData", rt_o_GeoData, 22),
    ("Group", rt_o_Group, 4),
    ("IdBuffer", rt_o_IdBuffer, 1),
    ("ImageDefinition", rt_o_ImageDefinition, 8),
    ("ImageDefinitionReactor", rt_o_ImageDefinitionReactor, 1),
    ("LayerFilter", rt_o_LayerFilter, 1),
    ("LayerIndex", rt_o_LayerIndex, 3),
    ("Layout", rt_o_Layout, 16),
    ("LightList", rt_o_LightList, 2),
    ("Material", rt_o_Material, 91),
    ("MLeaderStyle", rt_o_MLeaderStyle, 44),
    ("MLineStyle", rt_o_MLineStyle, 6),
    ("ObjectPointer", rt_o_ObjectPointer, 0),
    ("PlotSettings", rt_o_PlotSettings, 31),
    ("RapidRTRenderEnvironment", rt_o_RapidRTRenderEnvironment, 6),
    ("RapidRenderSettings", rt_o_RapidRenderSettings, 17),
    ("RasterVariables", rt_o_RasterVariables, 4),
    ("MentalRayRenderSettings", rt_o_MentalRayRenderSettings, 49),
    ("RenderEnvironment", rt_o_RenderEnvironment, 12),
    ("RenderGlobal", rt_o_RenderGlobal, 9),
    ("SectionManager", rt_o_SectionManager, 2),
    ("SectionSettings", rt_o_SectionSettings, 6),
    ("SortentsTable", rt_o_SortentsTable, 2),
    ("SpatialFilter", rt_o_SpatialFilter, 10),
    ("SpatialIndex", rt_o_SpatialIndex, 0),
    ("TableStyle", rt_o_TableStyle, 9),
    ("UnderlayDefinition", rt_o_UnderlayDefinition, 2),
    ("VbaProject", rt_o_VbaProject, 1),
    ("VisualStyle", rt_o_VisualStyle, 34),
    ("WipeoutVariables", rt_o_WipeoutVariables, 2),
    ("XRecordObject", rt_o_XRecordObject, 2),
];
